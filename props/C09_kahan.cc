// RULE: a case is non-trivial when at least 100 terms were added (accuracy), or the sum was not zero (others)
// ASSUME: no overflow; terms are normal numbers or zero; error bound 4 units of roundoff times the sum of magnitudes
// TECH: property-based testing against the sum in 113-bit arithmetic
#include "dut.hh"
#include "kahan.hh"

typedef __float128 Quad;

static int terms(Src &s)
{
	switch (s.range(0, 4)) {
	case 0: return s.range(0, 20);
	case 1: return s.range(20, 300);
	case 2: return s.range(300, 3000);
	default: return s.skewed(1, 20000);
	}
}

template <typename T>
static std::vector<T> series(Src &s, int n)
{
	int kind = s.range(0, 9);
	static const char *names[] = { "uniform", "positive", "constant", "one and tiny", "harmonic", "alternating", "wide range", "ascending", "descending", "cancelling" };
	s.label(names[kind]);
	s.note("%d terms, %s", n, names[kind]);
	Rng rng(s.seed());
	double c = s.real(0.01, 1), scale = std::exp2(double(s.range(-20, 20)));
	std::vector<T> v(n);
	for (int i = 0; i < n; ++i) {
		double x = 0;
		switch (kind) {
		case 0: x = rng.sym(); break;
		case 1: x = rng.unit() + 0.1; break;
		case 2: x = c; break;
		case 3: x = i ? c * std::numeric_limits<T>::epsilon() * 0.4 : 1; break;
		case 4: x = 1.0 / (i + 1); break;
		case 5: x = (i % 2 ? -1 : 1) * (c + 1.0 / (i + 1)); break;
		case 6: x = rng.sym() * std::exp2(double(rng.range(-24, 24))); break;
		case 7: x = (i + 1) * c; break;
		case 8: x = (n - i) * c; break;
		case 9: x = i % 3 == 2 ? 0 : rng.unit(); break;
		}
		v[i] = T(x * scale);
		if (kind == 9 && i % 3 == 2)
			v[i] = -v[i - 1];
	}
	return v;
}

template <typename T>
static void accuracy(Src &s, int n)
{
	std::vector<T> v = series<T>(s, n);
	int mode = s.range(0, 3);
	T init = mode == 0 ? T(0) : T(s.sample());
	Quad sum = init, mag = init < 0 ? -init : init;
	for (T x : v) {
		sum += x;
		mag += x < 0 ? -x : x;
	}
	long double tol = 2 * eps<T> * (long double)mag;
	T got;
	if (mode < 3) {
		Dirty<DSP::Kahan<T>> fresh(s.range(0, 3));
		Dirty<DSP::Kahan<T>> given(s.range(0, 3), init);
		DSP::Kahan<T> &k = mode == 0 ? *fresh : *given;
		CHECK(k() == init, "sum before the first term is %.9g, want %.9g", double(k()), double(init));
		int copy = s.range(0, n);
		T last = k();
		for (int i = 0; i < n; ++i) {
			if (i == copy) {
				DSP::Kahan<T> c(k);
				c(T(1234.5));
				CHECK(k() == last, "feeding a copy changed the original");
				DSP::Kahan<T> e(k);
				T rest = last;
				for (int j = i; j < n; ++j)
					rest = e(v[j]);
				near(s, "copy", rest, (long double)sum, tol);
			}
			last = k(v[i]);
			if (i % 16 == 0)
				CHECK(k() == last, "query returns %.9g, last sum was %.9g", double(k()), double(last));
		}
		got = k();
		CHECK(got == last, "query returns %.9g, last sum was %.9g", double(got), double(last));
	} else {
		got = DSP::kahan_sum(v.begin(), v.end(), init);
		Block<T> b(n);
		for (int i = 0; i < n; ++i)
			b[i] = v[i];
		const T *p = b.data();
		T again = DSP::kahan_sum(p, p + n, init);
		near(s, "range of pointers", again, (long double)sum, tol);
	}
	near(s, "sum", got, (long double)sum, tol);
	s.nontrivial(n >= 100);
}

PROP(accuracy_float, 240000, 4800000) { accuracy<float>(s, terms(s)); }
PROP(accuracy_double, 240000, 4800000) { accuracy<double>(s, terms(s)); }
PROP(accuracy_long, 32, 320) { Types<float, double>::any(s, [&](auto t) { accuracy<decltype(t)>(s, s.range(200000, 2000000)); }); }

// the result of same() is whether the object compares equal to itself before
template <typename T>
static void unchanged(Src &s)
{
	Dirty<DSP::Kahan<T>> k(s.range(0, 3), T(s.sample()));
	int n = s.range(0, 12);
	Quad sum = (*k)(), mag = sum < 0 ? -sum : sum;
	bool yes = false, no = false;
	for (int i = 0; i < n; ++i) {
		T x = s.coin(1, 4) ? T(0) : s.coin() ? T(s.sample()) : T(s.sample() * std::exp2(double(-s.range(0, 60))));
		DSP::Kahan<T> before(*k), after(*k);
		after(x);
		bool want = after == before;
		bool got = k->same(x);
		CHECK(got == want, "same(%.9g) is %d, but the state %s", double(x), got, want ? "did not change" : "changed");
		CHECK(*k == after, "same(%.9g) did not add the term", double(x));
		long double m = (long double)mag;
		sum += x;
		mag += x < 0 ? -x : x;
		if ((x < 0 ? -x : x) > eps<T> * 2 * (m + 1e-3L))
			CHECK(!got, "same(%.9g) is true for a term that is not negligible", double(x));
		near(s, "sum", (*k)(), (long double)sum, 2 * eps<T> * (long double)mag);
		bool still = k->same(T(0));
		bool idem = k->same(T(0));
		CHECK(idem, "adding zero twice still changes the sum");
		yes = yes || got;
		no = no || !got;
	}
	s.note("%d terms", n);
	s.label(yes, "unchanged");
	s.label(no, "changed");
	s.nontrivial(yes || no);
}

PROP(same_float, 1800000, 18000000) { unchanged<float>(s); }
PROP(same_double, 1800000, 18000000) { unchanged<double>(s); }

// a convergent series summed until a term has no effect, as the Bessel function of the Kaiser window does
template <typename T>
static void convergence(Src &s)
{
	double q = s.real(0.1, 0.9);
	T first = T(s.logreal(0.01, 100));
	s.note("geometric series, first %.9g, ratio %.9g", double(first), q);
	DSP::Kahan<T> k(first);
	T term = first;
	Quad sum = first;
	int n = 0;
	do {
		term = T(term * q);
		sum += term;
		++n;
		if (term < std::numeric_limits<T>::min())
			s.discard();
	} while (!k.same(term));
	near(s, "limit", k(), (long double)sum, 4 * eps<T> * (long double)sum);
	CHECK((long double)term < 0.01L * eps<T> * (long double)sum, "stopped at a term of %.3g of the sum", double(term / sum));
	s.nontrivial();
}

PROP(convergence_float, 600000, 6000000) { convergence<float>(s); }
PROP(convergence_double, 600000, 6000000) { convergence<double>(s); }
