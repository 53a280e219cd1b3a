// RULE: a case is non-trivial when an argument is neither zero nor one, or the history has at least three inputs
// ASSUME: finite arguments without denormal numbers; the density up to the point where it underflows; sinc up to arguments of a thousand millions
// TECH: differential testing of the helpers against extended precision, model-based testing of histories, round trips between integrator and differentiator
#include <climits>
#include "dut.hh"
#include "utils.hh"
#include "calculus.hh"
#include "value.hh"

template <typename T>
static T number(Src &s)
{
	switch (s.range(0, 5)) {
	case 0: return T(s.pick({ 0, 1, -1, 2, -2 }));
	case 1: return T(s.range(-100, 100));
	case 2: return T(s.pick({ -1, 1 }) * s.logreal(1e-30, 1e30));
	case 3: return T(s.real(-4, 4));
	case 4: return T(s.pick({ -1, 1 }) * (1 + s.pick({ -1, 1 }) * s.logreal(1e-7, 1e-3)));
	default: return T(s.pick({ -1, 1 }) * std::numeric_limits<T>::min() * s.range(1, 4));
	}
}

template <typename T>
static void whole(Src &s)
{
	typedef std::numeric_limits<T> Lim;
	T x = s.coin(1, 4) ? s.pick({ Lim::min(), T(Lim::min() + 1), Lim::max(), T(Lim::max() - 1), T(Lim::max() / 2), T(Lim::max() / 2 + 1) }) : T(s.range(Lim::is_signed ? -50 : 0, 50));
	T a = s.coin(1, 8) ? Lim::min() : T(s.range(Lim::is_signed ? -20 : 0, 20)), b = s.coin(1, 8) ? Lim::max() : T(s.range(0, 30));
	if (b < a)
		std::swap(a, b);
	s.note("%lld, range %lld to %lld", (long long)x, (long long)a, (long long)b);
	CHECK(DSP::signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "signum of %lld is %d", (long long)x, DSP::signum(x));
	CHECK(DSP::delta(x) == T(x == 0), "delta of %lld is %lld", (long long)x, (long long)DSP::delta(x));
	T want = x < a ? a : x > b ? b : x, got = DSP::clamp(x, a, b);
	CHECK(got == want, "%lld clamped to %lld..%lld is %lld", (long long)x, (long long)a, (long long)b, (long long)got);
	s.nontrivial(x != 0 && x != 1);
}

static void integers(Src &s)
{
	int x = s.coin(1, 8) ? s.pick({ INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1 }) : s.range(-50, 50);
	int a = s.coin(1, 8) ? INT_MIN : s.range(-20, 20), b = s.coin(1, 8) ? INT_MAX : s.range(std::max(a, -20), 30);
	s.note("%d, range %d to %d", x, a, b);
	CHECK(DSP::signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "signum of %d is %d", x, DSP::signum(x));
	CHECK(DSP::delta(x) == (x == 0), "delta of %d is %d", x, DSP::delta(x));
	int want = std::min(std::max(x, a), b), got = DSP::clamp(x, a, b);
	CHECK(got == want, "%d clamped to %d..%d is %d", x, a, b, got);
	s.nontrivial(x != 0 && x != 1);
}

template <typename T>
static void helpers(Src &s)
{
	T x = number<T>(s);
	s.note("%s, x %.9g", TypeName<T>::get(), double(x));
	CHECK(DSP::signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "signum of %g is %d", double(x), DSP::signum(x));
	CHECK(DSP::delta(x) == (x == 0 ? T(1) : T(0)), "delta of %g is %g", double(x), double(DSP::delta(x)));
	T a = number<T>(s), b = number<T>(s);
	if (s.coin(1, 6))
		a = x;
	if (s.coin(1, 6))
		b = x;
	if (s.coin(1, 6))
		b = a;
	if (b < a)
		std::swap(a, b);
	T want = x < a ? a : x > b ? b : x, got = DSP::clamp(x, a, b);
	s.note("range %.9g to %.9g", double(a), double(b));
	CHECK(got == want, "%.9g clamped to %.9g..%.9g is %.9g", double(x), double(a), double(b), double(got));
	// interpolation, also beyond the ends
	T t = s.coin(1, 4) ? T(s.range(0, 1)) : s.coin(1, 6) ? T(s.real(-3, 4)) : T(s.unit());
	s.note("t %.9g", double(t));
	if (s.coin())
		std::swap(a, b);
	if (fabs(double(a)) < 1e25 && fabs(double(b)) < 1e25) {
		L mix = (1 - L(t)) * a + L(t) * b;
		T l = DSP::lerp(a, b, t);
		if (t == 0)
			CHECK(l == a, "interpolation at zero gives %.9g instead of %.9g", double(l), double(a));
		if (t == 1)
			CHECK(l == b, "interpolation at one gives %.9g instead of %.9g", double(l), double(b));
		near(s, "lerp", l, mix, 3 * eps<T> * (fabsl((1 - L(t)) * a) + fabsl(L(t) * b)) + 4 * L(std::numeric_limits<T>::min()), "");
		DSP::Complex<T> c = DSP::lerp(DSP::Complex<T>(a, b), DSP::Complex<T>(b, x), t);
		if (fabs(double(x)) < 1e25) {
			L second = (1 - L(t)) * b + L(t) * x;
			near(s, "complex lerp", c.real(), mix, 3 * eps<T> * (fabsl((1 - L(t)) * a) + fabsl(L(t) * b)) + 4 * L(std::numeric_limits<T>::min()), "");
			near(s, "complex lerp", c.imag(), second, 3 * eps<T> * (fabsl((1 - L(t)) * b) + fabsl(L(t) * x)) + 4 * L(std::numeric_limits<T>::min()), "");
		}
	}
	s.nontrivial(x != 0 && x != 1);
}

template <typename T>
static void density(Src &s)
{
	T sd = T(s.coin(1, 3) ? 1 : s.logreal(1e-6, 1e6)), m = T(s.coin(1, 3) ? 0 : s.real(-10, 10));
	double top = sizeof(T) == 4 ? 11 : 35;
	T off = T(s.coin(1, 4) ? 0 : s.coin() ? s.real(-3, 3) : s.real(-top, top)) * sd;
	// the compiler must not see that x - m is the offset
	volatile T sum = m + off, rest = m - off;
	T x = sum, y = rest;
	s.note("%s, x %.9g, mean %.9g, deviation %.9g", TypeName<T>::get(), double(x), double(m), double(sd));
	L z = (L(x) - L(m)) / L(sd), want = expl(-z * z / 2) / (sqrtl(2 * 3.14159265358979323846264338327950288L) * L(sd));
	near(s, "density", DSP::normal_pdf(x, m, sd), want, want * eps<T> * (6 + 3 * z * z), "");
	if (L(m) - L(y) == L(x) - L(m))
		near(s, "symmetry", DSP::normal_pdf(y, m, sd), want, want * eps<T> * (6 + 3 * z * z), "");
	s.nontrivial(x != m);
}

template <typename T>
static void sine(Src &s)
{
	T x;
	switch (s.range(0, 5)) {
	case 0: x = T(s.range(-10000, 10000)); break;
	case 1: x = T(s.real(-10, 10)); break;
	case 2: x = T(s.real(-10000, 10000)); break;
	case 3: x = T(s.pick({ -1, 1 }) * s.logreal(1e-30, 1)); break;
	case 4: x = T(s.pick({ -1, 1 }) * s.logreal(1e3, 1e9)); break;
	default: x = T(s.range(-20000, 20000) / 2.0); break;
	}
	s.note("%s, x %.9g", TypeName<T>::get(), double(x));
	L p = 3.14159265358979323846264338327950288L * L(x), want = x == 0 ? 1 : x == std::floor(x) ? 0 : sinl(p) / p;
	T got = DSP::sinc(x);
	if (x == 0)
		CHECK(got == T(1), "sinc of zero is %.9g", double(got));
	near(s, "sinc", got, want, 4 * eps<T>, "");
	near(s, "sinc symmetry", DSP::sinc(-x), want, 4 * eps<T>, "");
	s.nontrivial(x != 0);
}

template <typename T>
static void history(Src &s, int least = 0)
{
	typedef typename Val<T>::real R;
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.range(1, 60);
	bool given = s.coin();
	T start = given ? Val<T>::make(s.real(-9, 9), s.real(-9, 9)) : Val<T>::make(0, 0);
	s.note("%s, %d inputs, %s start, %s", Val<T>::name(), len, given ? "given" : "no", sig.name());
	int pattern = s.range(0, 3);
	typedef DSP::Integrator<T> I;
	typedef DSP::Differentiator<T> D;
	Dirty<I> i(pattern, start), i0(pattern);
	Dirty<D> d(pattern, start), d0(pattern);
	CL sum = Val<T>::get(start), prev = sum;
	L err = 0;
	for (int n = 0; n < len; ++n) {
		double re, im;
		sig(n, re, im);
		T x = Val<T>::make(re, im);
		CL v = Val<T>::get(x);
		T a = given ? (*i)(x) : (*i0)(x), b = given ? (*d)(x) : (*d0)(x);
		sum += v;
		err += eps<R> * mag(sum);
		close(s, "integral", a, sum, err, n);
		close(s, "difference", b, v - prev, eps<R> * mag(v - prev), n);
		prev = v;
	}
	s.nontrivial(len > 2);
}

static void trip(Src &s, int least = 0)
{
	int len = least ? s.range(least, 2 * least) : s.range(1, 60), most = least ? 10000 : 100000, start = s.range(-1000, 1000);
	Rng rng(s.seed());
	s.note("%d inputs from %d", len, start);
	DSP::Integrator<int> i(start), j(start), plain;
	DSP::Differentiator<int> d(start), e(start), first;
	int sum = 0, prev = 0;
	for (int n = 0; n < len; ++n) {
		int x = int(rng.range(-most, most));
		int a = d(i(x));
		CHECK(a == x, "input %d is %d after integration and differentiation", x, a);
		a = j(e(x));
		CHECK(a == x, "input %d is %d after differentiation and integration", x, a);
		sum += x;
		a = plain(x);
		CHECK(a == sum, "sum %d instead of %d", a, sum);
		a = first(x);
		CHECK(a == x - prev, "difference %d instead of %d", a, x - prev);
		prev = x;
	}
	s.nontrivial(len > 2);
}

PROP(integer, 1250000, 6250000) { integers(s); }
PROP(other_integers, 1250000, 6250000) { Types<int8_t, uint8_t, int16_t, uint16_t, unsigned, int64_t, uint64_t>::any(s, [&](auto t) { whole<decltype(t)>(s); }); }
PROP(helper_float, 2500000, 12500000) { helpers<float>(s); }
PROP(helper_double, 2500000, 12500000) { helpers<double>(s); }
PROP(density_float, 1000000, 5000000) { density<float>(s); }
PROP(density_double, 1000000, 5000000) { density<double>(s); }
PROP(sinc_float, 1000000, 5000000) { sine<float>(s); }
PROP(sinc_double, 1000000, 5000000) { sine<double>(s); }
PROP(histories, 500000, 2500000) { Types<float, double, DSP::Complex<float>, DSP::Complex<double>, std::complex<float>>::any(s, [&](auto t) { history<decltype(t)>(s); }); }
PROP(trips, 500000, 2500000) { trip(s); }
PROP(marathons, 120, 1200) { Types<float, double, DSP::Complex<float>>::any(s, [&](auto t) { history<decltype(t)>(s, 70000); }); }
PROP(long_trips, 160, 1600) { trip(s, 70000); }
