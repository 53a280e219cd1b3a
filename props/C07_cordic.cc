// RULE: a case is non-trivial when both arguments are non-zero
// ASSUME: arguments are not both zero; bounds 1.25 + 0.3 (8 bit) or 0.9 (16 bit) times full scale over magnitude
// TECH: property-based testing against the exact angle, all 8-bit pairs visited
#include "dut.hh"
#include "cordic.hh"

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

template <typename T>
static L error(int y, int x)
{
	L turn = L(1 << (8 * sizeof(T)));
	L d = L(DSP::CORDIC<T>::atan2(T(y), T(x))) - atan2l(y, x) / (2 * PI) * turn;
	return d - turn * roundl(d / turn);
}

template <typename T>
static void pair(Src &s, int y, int x)
{
	if (!x && !y)
		s.discard();
	s.note("atan2(%d, %d)", y, x);
	L fs = 1 << (8 * sizeof(T) - 1), r = sqrtl(L(x) * x + L(y) * y);
	L bound = 1.25L + (sizeof(T) == 1 ? 0.3L : 0.9L) * fs / r;
	L e = error<T>(y, x);
	near(s, sizeof(T) == 1 ? "8 bit" : "16 bit", e, 0, bound, pbt::format("atan2(%d, %d)", y, x));
	s.nontrivial(x && y);
}

static int half(Src &s)
{
	switch (s.range(0, 5)) {
	case 0: return s.edgy(-32768, 32767);
	case 1: return s.range(-16, 16);
	case 2: return (s.coin() ? -1 : 1) * (1 << s.range(0, 14));
	case 3: return s.range(-32768, 32767) >> s.range(0, 15);
	default: return s.range(-32768, 32767);
	}
}

PROP(bits16, 12000000, 200000000)
{
	int y = half(s), x = half(s);
	if (s.coin(1, 16))
		y = x;
	else if (s.coin(1, 16))
		y = x == -32768 ? 32767 : -x;
	pair<short>(s, y, x);
}

PROP(bits8, 1000000, 10000000) { pair<int8_t>(s, s.range(-128, 127), s.range(-128, 127)); }
PROP(chars, 500000, 10000000) { pair<char>(s, s.range(-128, 127), s.range(-128, 127)); }

// one row of all 8-bit arguments per case
PROP(rows8, 2000, 20000)
{
	int y = s.range(-128, 127);
	for (int x = -128; x < 128; ++x)
		if (x || y)
			pair<int8_t>(s, y, x);
	s.nontrivial();
}

template <typename T>
static void circle(Src &s)
{
	int N = 1 << (8 * sizeof(T)), n = s.range(-N / 2, N / 2 - 1);
	L r = N / 2 - 1;
	int x = int(nearbyintl(r * cosl(2 * PI * n / N))), y = int(nearbyintl(r * sinl(2 * PI * n / N)));
	s.note("%d of %d", n, N);
	int d = int(DSP::CORDIC<T>::atan2(T(y), T(x))) - n;
	d = ((d + N / 2) & (N - 1)) - N / 2;
	CHECK(d >= -1 && d <= 1, "angle %d of %d: off by %d", n, N, d);
	s.nontrivial(x && y);
}

PROP(circle16, 2000000, 20000000) { circle<short>(s); }
PROP(circle8, 200000, 2000000) { circle<int8_t>(s); }
