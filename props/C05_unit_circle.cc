// RULE: a case is non-trivial when the angle is not a multiple of an eighth of a turn
// ASSUME: 1 <= N <= 2e8 and |n| <= N; error of sine and cosine at most three units of machine epsilon, of the angle four relative ones
// TECH: property-based testing against 64-bit-mantissa trigonometry after exact integer reduction
#include "dut.hh"
#include "unit_circle.hh"

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

// sine and cosine of n/N turns, reduced exactly
static void exact(int64_t n, int64_t N, L &c, L &sn)
{
	n %= N;
	if (n < 0)
		n += N;
	int64_t oct = 8 * n / N;
	// angle within [0, 1/4] of a turn, exact numerator over 4N
	int64_t q = 4 * n / N, rem = 4 * n - q * N;
	L x = PI / 2 * L(rem) / L(N);
	L cc, ss;
	if (2 * rem <= N) {
		cc = cosl(x);
		ss = sinl(x);
	} else {
		L y = PI / 2 * L(N - rem) / L(N);
		cc = sinl(y);
		ss = cosl(y);
	}
	(void)oct;
	switch (q) {
	case 0: c = cc, sn = ss; break;
	case 1: c = -ss, sn = cc; break;
	case 2: c = -cc, sn = -ss; break;
	default: c = ss, sn = -cc; break;
	}
}

static void point(Src &s, int &n, int &N)
{
	switch (s.range(0, 5)) {
	case 0: N = s.range(1, 64); break;
	case 1: N = s.range(1, 5000); break;
	case 2: N = s.skewed(1, 200000000); break;
	case 3: N = 1 << s.range(0, 27); break;
	case 4: N = 200000000 - s.range(0, 1000); break;
	default: N = s.range(1, 200000000); break;
	}
	if (s.coin(1, 3)) {
		// next to a border of the octants
		int k = s.range(-8, 8);
		int64_t b = int64_t(k) * N / 8 + s.range(-2, 2);
		n = int(b < -N ? -N : b > N ? N : b);
	} else {
		n = s.range(-N, N);
	}
}

template <typename T>
static void circle(Src &s)
{
	int n, N;
	point(s, n, N);
	s.note("%d/%d", n, N);
	volatile int vn = n, vN = N;
	L c, sn;
	exact(n, N, c, sn);
	near(s, "cos", DSP::UnitCircle<T>::cos(vn, vN), c, 3 * eps<T>);
	near(s, "sin", DSP::UnitCircle<T>::sin(vn, vN), sn, 3 * eps<T>);
	L r = 2 * PI * L(n) / L(N);
	near(s, "rad", DSP::UnitCircle<T>::rad(vn, vN), r, 4 * eps<T> * (r < 0 ? -r : r));
	s.label(N > 5000, "beyond the tests");
	s.nontrivial((8 * int64_t(n)) % N != 0);
}

PROP(single, 6000000, 90000000) { circle<float>(s); }
PROP(doubles, 6000000, 90000000) { circle<double>(s); }

template <typename T, int N>
struct Table
{
	T c[2 * N + 1], s[2 * N + 1], r[2 * N + 1];
	constexpr Table() : c(), s(), r()
	{
		for (int n = -N; n <= N; ++n) {
			c[n + N] = DSP::UnitCircle<T>::cos(n, N);
			s[n + N] = DSP::UnitCircle<T>::sin(n, N);
			r[n + N] = DSP::UnitCircle<T>::rad(n, N);
		}
	}
};

template <typename T, int N>
static void constant(Src &s)
{
	static constexpr Table<T, N> t;
	int n = s.range(-N, N);
	s.note("%d/%d", n, N);
	L c, sn;
	exact(n, N, c, sn);
	near(s, "constant cos", t.c[n + N], c, 3 * eps<T>);
	near(s, "constant sin", t.s[n + N], sn, 3 * eps<T>);
	L r = 2 * PI * L(n) / L(N);
	near(s, "constant rad", t.r[n + N], r, 4 * eps<T> * (r < 0 ? -r : r));
	s.nontrivial((8 * n) % N != 0);
}

typedef Sizes<1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 16, 17, 19, 23, 29, 31, 64, 97, 100> Tables;

PROP(constant_single, 150000, 1500000) { Tables::any(s, [&](auto n) { constant<float, n()>(s); }); }
PROP(constant_doubles, 150000, 1500000) { Tables::any(s, [&](auto n) { constant<double, n()>(s); }); }

template <typename T>
static void constants(Src &s)
{
	struct { const char *name; T got; L want; } t[] = {
		{ "pi/8", DSP::Const<T>::EighthPi(), PI / 8 }, { "pi/4", DSP::Const<T>::FourthPi(), PI / 4 }, { "pi/2", DSP::Const<T>::HalfPi(), PI / 2 },
		{ "pi", DSP::Const<T>::Pi(), PI }, { "2 pi", DSP::Const<T>::TwoPi(), 2 * PI }, { "4 pi", DSP::Const<T>::FourPi(), 4 * PI },
		{ "sqrt(pi)", DSP::Const<T>::SqrtPi(), sqrtl(PI) }, { "sqrt(2 pi)", DSP::Const<T>::SqrtTwoPi(), sqrtl(2 * PI) }, { "1/sqrt(2)", DSP::Const<T>::InvSqrtTwo(), sqrtl(0.5L) },
	};
	int i = s.range(0, 8);
	s.note("%s", t[i].name);
	near(s, "constant", t[i].got, t[i].want, sizeof(T) > 8 ? 2 * eps<L> * t[i].want : (L)0.5001L * eps<T> * t[i].want, t[i].name);
	s.nontrivial();
}

PROP(constants_single, 450, 450) { constants<float>(s); }
PROP(constants_doubles, 450, 450) { constants<double>(s); }
PROP(constants_extended, 450, 450) { constants<long double>(s); }
