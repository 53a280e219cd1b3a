// RULE: a case is non-trivial when the position is neither an end nor the centre of the window
// ASSUME: 2 <= N <= 2^23 in single and 1e8 in double precision (1 for Rect); Kaiser with alpha up to 5; absolute errors of at most six units of machine epsilon (times the sum of the coefficients for Blackman), Gauss and Kaiser relative to the value with the conditioning of their exponent
// TECH: property-based testing against the textbook formulas in extended precision
#include "dut.hh"
#include "window.hh"
#include "coeffs.hh"

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

static L cosine(int64_t n, int64_t N)
{
	n %= N;
	return cosl(2 * PI * L(n) / L(N));
}

static L bessel(L x)
{
	L sum = 1, val = 1;
	for (int n = 1; n < 100; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

struct Param { L a0, a1, a2; };

// reference value and tolerance in units of machine epsilon
template <typename T>
static L value(int kind, const Param &p, int n, int N, L &tol)
{
	L u = N > 1 ? (2 * L(n) - (N - 1)) / (N - 1) : 0;
	L v = 0;
	tol = 6;
	switch (kind) {
	case 0: tol = 0; return n >= 0 && n < N;
	case 1: return (1 - cosine(n, N - 1)) / 2;
	case 2: return 0.54L - 0.46L * cosine(n, N - 1);
	case 3: return u == 0 ? 1 : sinl(PI * u) / (PI * u);
	case 4: case 5: case 6:
		tol = 6 * (fabsl(p.a0) + fabsl(p.a1) + fabsl(p.a2));
		return p.a0 - p.a1 * cosine(n, N - 1) + p.a2 * cosine(2 * int64_t(n), N - 1);
	case 7:
		v = (u / p.a0) * (u / p.a0) / 2;
		tol = (4 + 8 * v) * expl(-v);
		return expl(-v);
	default:
		v = bessel(PI * p.a0 * sqrtl(1 - u * u)) / bessel(PI * p.a0);
		tol = (16 + 10 * p.a0 * p.a0) * v;
		return v;
	}
}

static const char *names[] = { "Rect", "Hann", "Hamming", "Lanczos", "exact Blackman", "Blackman of alpha", "Blackman of three", "Gauss", "Kaiser" };

template <typename T, typename F>
static void with_window(Src &s, int kind, Param &p, F f)
{
	switch (kind) {
	case 0: { DSP::Rect<T> w; f(w); break; }
	case 1: { DSP::Hann<T> w; f(w); break; }
	case 2: { DSP::Hamming<T> w; f(w); break; }
	case 3: { DSP::Lanczos<T> w; f(w); break; }
	case 4: {
		p = { 7938.L / 18608, 9240.L / 18608, 1430.L / 18608 };
		DSP::Blackman<T> w;
		f(w);
		break;
	}
	case 5: {
		T a = T(s.coin(1, 3) ? 0.16 : s.real(-1, 1));
		p = { (1 - L(a)) / 2, 0.5L, L(a) / 2 };
		DSP::Blackman<T> w(a);
		f(w);
		break;
	}
	case 6: {
		T a0 = T(s.real(-1, 1)), a1 = T(s.real(-1, 1)), a2 = T(s.real(-1, 1));
		p = { a0, a1, a2 };
		DSP::Blackman<T> w(a0, a1, a2);
		f(w);
		break;
	}
	case 7: {
		T o = T(s.pick({ 0.5, 0.4, 0.0, 1.0, -1.0 }));
		if (o <= 0)
			o = T(s.logreal(0.05, 8));
		p = { o, 0, 0 };
		DSP::Gauss<T> w(o);
		f(w);
		break;
	}
	default: {
		T a = T(s.coin(1, 2) ? s.range(0, 20) / 4.0 : s.real(0, 5));
		p = { a, 0, 0 };
		DSP::Kaiser<T> w(a);
		f(w);
	}
	}
	s.label(names[kind]);
}

template <typename T>
static void check(Src &s, int kind, const Param &p, T got, int n, int N)
{
	L tol, want = value<T>(kind, p, n, N, tol);
	std::string where = s.verbose ? pbt::format("(%s, %s, %d of %d, parameters %Lg %Lg %Lg)", names[kind], TypeName<T>::get(), n, N, p.a0, p.a1, p.a2) : "";
	near(s, names[kind], got, want, tol * eps<T> + 2 * L(std::numeric_limits<T>::min()), where);
	if (kind == 0)
		CHECK(got == T(want), "Rect is %g at %d of %d", double(got), n, N);
	if (kind == 1 || kind == 3 || kind == 8)
		CHECK(got >= T(-2) * std::numeric_limits<T>::epsilon() && got <= 1 + 2 * std::numeric_limits<T>::epsilon(), "%s is %.17g at %d of %d, outside of zero to one", names[kind], double(got), n, N);
}

template <typename T>
static int size(Src &s)
{
	switch (s.range(0, 5)) {
	case 0: return s.range(2, 12);
	case 1: return s.range(2, 300);
	case 2: return s.skewed(2, 2000000);
	case 3: return (1 << s.range(1, 20)) + s.range(0, 2);
	// every position has to be a number of the type
	case 4: return s.skewed(2, sizeof(T) > 4 ? 100000000 : 8388608);
	default: return s.range(2, 70000);
	}
}

template <typename T>
static void points(Src &s)
{
	int kind = s.range(0, 8), N = size<T>(s);
	Param p = { 0, 0, 0 };
	with_window<T>(s, kind, p, [&](auto &w) {
		s.note("%s, %s, length %d", names[kind], TypeName<T>::get(), N);
		for (int i = 0; i < 6; ++i) {
			int n = 0;
			switch (s.range(0, 3)) {
			case 0: n = s.edgy(0, N - 1); break;
			case 1: n = (N - 1) / 2 + s.range(-1, 1); break;
			default: n = s.range(0, N - 1); break;
			}
			n = n < 0 ? 0 : n > N - 1 ? N - 1 : n;
			T a = w(n, N), b = w(N - 1 - n, N);
			check<T>(s, kind, p, a, n, N);
			check<T>(s, kind, p, b, N - 1 - n, N);
			s.nontrivial(n > 0 && n < N - 1 && 2 * n != N - 1);
		}
		if (kind == 0) {
			int out = s.coin() ? N + s.skewed(0, 1000) : -1 - s.skewed(0, 1000);
			check<T>(s, kind, p, w(out, N), out, N);
		}
	});
}

// all positions of windows whose length is known to the compiler
template <typename T, int N>
static void whole(Src &s)
{
	int kind = s.range(0, 8);
	Param p = { 0, 0, 0 };
	with_window<T>(s, kind, p, [&](auto &w) {
		s.note("%s, %s, all of length %d", names[kind], TypeName<T>::get(), N);
		DSP::Coeffs<N, T> c(&w);
		const T *v = c;
		for (int n = 0; n < N; ++n)
			check<T>(s, kind, p, v[n], n, N);
	});
	s.nontrivial(N > 3);
}

typedef Sizes<2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 23, 32, 33, 42, 50, 64, 65, 99, 100, 127, 129, 199> Lens;

PROP(floats, 1600000, 16000000) { points<float>(s); }
PROP(doubles, 1600000, 16000000) { points<double>(s); }
PROP(whole_floats, 100000, 1000000) { Lens::any(s, [&](auto n) { whole<float, n()>(s); }); }
PROP(whole_doubles, 100000, 1000000) { Lens::any(s, [&](auto n) { whole<double, n()>(s); }); }
