// RULE: a case is non-trivial when the position is not the centre tap and the cutoff lies strictly between zero and half the rate
// ASSUME: up to 2^23 taps in single and 1e9 in double precision, rational cutoffs with (taps - 1) * numerator below 2^31 and denominators below 2^26; errors of at most eight units of machine epsilon relative to the envelope of the response; normalisation of sums that do not cancel by more than a factor of 50
// TECH: property-based testing against the ideal impulse responses in extended precision
#include "dut.hh"
#include "filter.hh"
#include "coeffs.hh"
#include "window.hh"

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

static L sinc(L x)
{
	return x == 0 ? 1 : sinl(PI * x) / (PI * x);
}

// sin(pi num twox / den) / (pi twox / 2) with the angle reduced in integers
static L exact(int64_t num, int64_t den, int64_t twox)
{
	if (!twox)
		return 2 * L(num) / L(den);
	int64_t a = (num * twox) % (2 * den);
	return sinl(PI * L(a) / L(den)) / (PI * L(twox) / 2);
}

template <typename T>
static int taps(Src &s)
{
	switch (s.range(0, 5)) {
	case 0: return s.range(1, 12);
	case 1: return s.range(1, 200);
	case 2: return s.skewed(1, 200000);
	// every position has to be a number of the type
	case 3: return s.skewed(1, sizeof(T) > 4 ? 1000000000 : 8388608);
	default: return s.range(1, 5000);
	}
}

static int position(Src &s, int N)
{
	int n = 0;
	switch (s.range(0, 3)) {
	case 0: n = s.edgy(0, N - 1); break;
	case 1: n = (N - 1) / 2 + s.range(-2, 2); break;
	default: n = s.range(0, N - 1); break;
	}
	return n < 0 ? 0 : n > N - 1 ? N - 1 : n;
}

static double cutoff(Src &s)
{
	switch (s.range(0, 3)) {
	case 0: return s.range(0, 32) / 64.0;
	case 1: return s.logreal(1e-6, 0.5);
	case 2: return 0.5 - s.logreal(1e-6, 0.25);
	default: return s.real(0, 0.5);
	}
}

template <typename T>
static void reals(Src &s)
{
	int N = taps<T>(s);
	T c0 = T(cutoff(s)), c1 = T(cutoff(s));
	L f0 = 2 * L(c0), f1 = 2 * L(c1);
	s.note("%s, %d taps, cutoffs %.9g and %.9g", TypeName<T>::get(), N, double(c0), double(c1));
	DSP::LowPass<T> lp(c0);
	DSP::HighPass<T> hp(c0);
	DSP::BandPass<T> bp(c0, c1);
	DSP::HilbertTransform<T> ht;
	for (int i = 0; i < 4; ++i) {
		int n = position(s, N);
		L x = L(n) - L(N - 1) / 2;
		L low = f0 * sinc(f0 * x);
		std::string at = s.verbose ? pbt::format("(tap %d)", n) : "";
		near(s, "low-pass", lp(n, N), low, 8 * eps<T> * f0, at);
		near(s, "high-pass", hp(n, N), sinc(x) - low, 8 * eps<T> * (1 + f0), at);
		near(s, "band-pass", bp(n, N), f1 * sinc(f1 * x) - low, 8 * eps<T> * (f0 + f1), at);
		int64_t twox = 2 * int64_t(n) - (N - 1);
		L hil = 0;
		if (N & 1)
			hil = (twox / 2) & 1 ? 4 / (PI * L(twox)) : 0;
		else
			hil = 2 / (PI * L(twox));
		near(s, "Hilbert", ht(n, N), hil, 4 * eps<T> * fabsl(hil), at);
		s.nontrivial(twox && f0 > 0 && f0 < 1);
	}
	s.label(N & 1, "odd");
}

template <typename T>
static void rationals(Src &s)
{
	int N = taps<T>(s);
	int den = 0;
	switch (s.range(0, 3)) {
	case 0: den = s.range(1, 24); break;
	case 1: den = s.pick({ 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000 }); break;
	default: den = s.skewed(1, 60000000); break;
	}
	int64_t most = 2147483647 / (N > 1 ? N - 1 : 1);
	int num = s.coin(1, 3) ? s.edgy(0, int(std::min<int64_t>(most, den / 2))) : s.skewed(0, int(std::min<int64_t>(most, den / 2)));
	if (!num)
		s.discard();
	s.note("%s, %d taps, cutoff %d/%d", TypeName<T>::get(), N, num, den);
	DSP::LowPass2<T> lp(num, den);
	DSP::HighPass2<T> hp(num, den);
	L f = 2 * L(num) / L(den);
	for (int i = 0; i < 4; ++i) {
		int n = position(s, N);
		int64_t twox = 2 * int64_t(n) - (N - 1);
		L low = exact(num, den, twox), full = exact(1, 2, twox);
		L env = twox ? 2 / (PI * fabsl(L(twox))) : 1;
		L high = full - low;
		std::string at = s.verbose ? pbt::format("(tap %d)", n) : "";
		near(s, "rational low-pass", lp(n, N), low, 8 * eps<T> * std::min(f, env), at);
		near(s, "rational high-pass", hp(n, N), high, 8 * eps<T> * env, at);
		if (N < 20000) {
			T c = T(num) / T(den);
			DSP::LowPass<T> r(c);
			near(s, "rational against real", r(n, N), low, 12 * eps<T> * f, at);
		}
		s.nontrivial(twox && f < 1);
	}
}

// returns values of a table and notes whether it is asked for anything else
template <typename T>
struct Table
{
	const T *v;
	int N;
	bool bad = false;
	Table(const T *v, int N) : v(v), N(N) {}
	T operator () (int n, int M)
	{
		if (n < 0 || n >= N || M != N) {
			bad = true;
			return 0;
		}
		return v[n];
	}
};

template <typename T, int N, bool NORM>
static void coeffs(Src &s)
{
	Rng rng(s.seed());
	bool two = s.coin(), again = s.coin();
	T a[N], b[N];
	int positive = s.range(0, 2);
	double shift = positive == 0 ? 1 : positive == 1 ? -1 : s.real(-1, 1);
	for (int i = 0; i < N; ++i) {
		a[i] = T(rng.sym() + shift);
		b[i] = T(two ? rng.sym() + 1.1 : 1);
	}
	T divisor = T(again ? (s.coin(1, 3) ? s.range(1, 4) : s.logreal(0.01, 100)) : 1);
	s.note("%s, %d taps, %s, %s, divisor %g", TypeName<T>::get(), N, two ? "two functions" : "one function", NORM ? "normalised" : "as is", double(divisor));
	L p[N], sum = 0, mag = 0;
	for (int i = 0; i < N; ++i) {
		p[i] = L(a[i]) * L(b[i]);
		sum += p[i];
		mag += fabsl(p[i]);
	}
	if (fabsl(sum) < mag / 50)
		s.discard();
	Table<T> ta(a, N), tb(b, N);
	typedef DSP::Coeffs<N, T, NORM> C;
	int pat = s.range(0, 3);
	Dirty<C> one(pat, &ta), both(pat, &ta, &tb);
	CHECK(!ta.bad && !tb.bad, "functions called with something else than the taps 0 to %d of %d", N - 1, N);
	C &c = two ? *both : *one;
	L cond = mag / fabsl(sum);
	for (int round = 0; round < 2; ++round) {
		bool scaled = NORM || round;
		L scale = scaled ? 1 / fabsl(sum) / (round ? L(divisor) : 1) : 1;
		L tol = (scaled ? (N + 6) * cond : 2) * eps<T>;
		const T *w = c;
		L total = 0, total_mag = 0;
		for (int i = 0; i < N; ++i) {
			std::string at = s.verbose ? pbt::format("(tap %d, round %d)", i, round) : "";
			near(s, "coefficient", w[i], p[i] * scale, tol * fabsl(p[i] * scale), at);
			CHECK(c(i) == w[i], "call and array differ at tap %d", i);
			total += w[i];
			total_mag += fabsl(w[i]);
		}
		if (scaled) {
			L want = (sum < 0 ? -1 : 1) / (round ? L(divisor) : 1);
			near(s, "sum", total, want, (N + 6) * cond * eps<T> * total_mag);
		}
		int out = s.coin() ? N + s.skewed(0, 1000) : -1 - s.skewed(0, 1000);
		CHECK(c(out) == 0, "value %g outside at %d of %d", double(c(out)), out, N);
		if (!again)
			break;
		c.normalize(divisor);
	}
	if (again && s.coin()) {
		// without an argument the sum becomes one
		c.normalize();
		const T *w = c;
		for (int i = 0; i < N; ++i)
			near(s, "normalised", w[i], p[i] / fabsl(sum), (2 * N + 12) * cond * eps<T> * fabsl(p[i] / sum));
	}
	s.nontrivial(N > 1);
	s.label(sum < 0, "negative sum");
}

// a windowed low-pass with unity gain, as built by the users of the library
template <typename T, int N>
static void design(Src &s)
{
	T c = T(s.real(0.05, 0.5));
	T alpha = T(s.real(0, 3));
	s.note("%s, %d taps, cutoff %.9g, Kaiser %.9g", TypeName<T>::get(), N, double(c), double(alpha));
	DSP::LowPass<T> lp(c);
	DSP::Kaiser<T> win(alpha);
	DSP::Coeffs<N, T, true> co(&win, &lp);
	L sum = 0, mag = 0;
	for (int i = 0; i < N; ++i) {
		sum += co(i);
		mag += fabsl(co(i));
		near(s, "symmetry", co(i), co(N - 1 - i), 64 * eps<T> * mag);
	}
	near(s, "gain at zero", sum, 1, (N + 8) * eps<T> * mag * mag);
	s.nontrivial();
}

typedef Sizes<1, 2, 3, 4, 5, 7, 8, 11, 16, 17, 31, 33, 63, 64, 100, 129> Lens;
typedef Sizes<2, 3, 5, 8, 17, 33, 64, 129> Few;

PROP(real_floats, 1200000, 12000000) { reals<float>(s); }
PROP(real_doubles, 1200000, 12000000) { reals<double>(s); }
PROP(rational_floats, 1200000, 12000000) { rationals<float>(s); }
PROP(rational_doubles, 1200000, 12000000) { rationals<double>(s); }
PROP(coeffs_float, 180000, 1800000) { Lens::any(s, [&](auto n) { coeffs<float, n(), false>(s); }); }
PROP(coeffs_float_norm, 180000, 1800000) { Lens::any(s, [&](auto n) { coeffs<float, n(), true>(s); }); }
PROP(coeffs_double, 180000, 1800000) { Lens::any(s, [&](auto n) { coeffs<double, n(), false>(s); }); }
PROP(coeffs_double_norm, 180000, 1800000) { Lens::any(s, [&](auto n) { coeffs<double, n(), true>(s); }); }
PROP(designs, 24000, 240000) { Few::any(s, [&](auto n) { design<double, n()>(s); }); }
PROP(designs_float, 24000, 240000) { Few::any(s, [&](auto n) { design<float, n()>(s); }); }
PROP(many_coeffs, 3000, 30000) { Sizes<1000, 5000>::any(s, [&](auto n) { if (s.coin()) coeffs<double, n(), true>(s); else coeffs<float, n(), false>(s); }); }
