// RULE: a case is non-trivial when both arguments are non-zero and the angle is not a multiple of an eighth of a turn
// ASSUME: arguments are normal numbers or positive zero (fast-math builds flush subnormal ones); error relative to the angle plus the smallest normal number
// TECH: property-based testing against the arctangent with 64-bit mantissa
#include "dut.hh"
#include "atan2.hh"

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288419716939937510582L;
static L mag(L a) { return a < 0 ? -a : a; }

template <typename T> static int emin() { return std::numeric_limits<T>::min_exponent - 1; }
template <typename T> static int emax() { return std::numeric_limits<T>::max_exponent - 1; }

template <typename T>
static T any(Src &s)
{
	double m = s.real(1, 2);
	int e;
	switch (s.range(0, 4)) {
	case 0: return T(s.range(-4, 4));
	case 1: e = s.range(-3, 3); break;
	case 2: e = s.range(-30, 30); break;
	case 3: e = s.coin() ? emin<T>() + s.range(0, 3) : emax<T>() - 1 - s.range(0, 3); break;
	default: e = s.range(emin<T>(), emax<T>() - 1); break;
	}
	return T((s.coin() ? -1 : 1) * std::ldexp(m, e));
}

// near the borders of the approximation intervals
template <typename T>
static T border(Src &s)
{
	T b = s.pick({ T(0.66), T(2.41421356237309504880), T(1), T(0.41421356237309504880), T(1 / 0.66) });
	int k = s.range(-6, 6);
	return T(b * (1 + k * std::numeric_limits<T>::epsilon()));
}

template <typename T>
static void single_argument(Src &s)
{
	T x = s.coin(1, 4) ? (s.coin() ? -1 : 1) * border<T>(s) : s.coin() ? T(s.real(-4, 4)) : any<T>(s);
	s.note("atan(%.17g)", double(x));
	L want = atanl(x);
	T got = DSP::atan(x);
	near(s, "atan", got, want, 10 * eps<T> * mag(want) + 2 * std::numeric_limits<T>::min());
	T neg = DSP::atan(T(-x));
	CHECK(neg == -got, "atan(%.17g) = %.17g, atan of the opposite %.17g", double(x), double(got), double(neg));
	s.nontrivial(x != T(0) && x != T(1) && x != T(-1));
}

template <typename T>
static void two_arguments(Src &s)
{
	T y, x;
	switch (s.range(0, 6)) {
	case 0: x = any<T>(s); y = any<T>(s); break;
	case 1: y = T(s.range(-5, 5)); x = T(s.range(-5, 5)); break;
	case 2: x = any<T>(s); y = s.coin() ? x : -x; break;
	case 3: {
		T q = border<T>(s);
		x = T((s.coin() ? -1 : 1) * s.logreal(0x1p-20, 0x1p20));
		y = (s.coin() ? -1 : 1) * q * x;
		break;
	}
	case 4: {
		double r = s.logreal(0x1p-60, 0x1p60);
		double phi = s.real(-3.15, 3.15);
		x = T(r * std::cos(phi));
		y = T(r * std::sin(phi));
		break;
	}
	case 5: {
		// close to the negative real axis
		x = -T(s.logreal(0x1p-20, 0x1p20));
		y = T((s.coin() ? -1 : 1) * mag(x) * s.logreal(0x1p-80, 1));
		break;
	}
	default: {
		// close to the other axes
		x = T((s.coin() ? -1 : 1) * s.logreal(0x1p-20, 0x1p20));
		y = T((s.coin() ? -1 : 1) * mag(x) * s.logreal(0x1p-30, 1));
		if (s.coin())
			std::swap(x, y);
		break;
	}
	}
	if (mag(x) < std::numeric_limits<T>::min())
		x = 0;
	if (mag(y) < std::numeric_limits<T>::min())
		y = 0;
	s.note("atan2(%.17g, %.17g)", double(y), double(x));
	T got = DSP::atan2(y, x);
	L want;
	if (y == T(0)) {
		want = x < T(0) ? PI : 0;
		L g = got;
		CHECK(pbt::finite(got), "not finite on the real axis");
		CHECK(g >= 0 && mag(g - want) <= eps<T> * 2, "atan2(0, %.17g) = %.17g", double(x), double(got));
		s.label("real axis");
		return;
	}
	if (x == T(0)) {
		want = y < T(0) ? -PI / 2 : PI / 2;
		near(s, "imaginary axis", got, want, eps<T>);
		s.label("imaginary axis");
		return;
	}
	want = atan2l(y, x);
	near(s, "atan2", got, want, 10 * eps<T> * mag(want) + 2 * std::numeric_limits<T>::min());
	CHECK(y < T(0) ? got <= T(0) : got >= T(0), "atan2(%.17g, %.17g) = %.17g has the wrong sign", double(y), double(x), double(got));
	L q = L(y) / L(x);
	s.label(mag(q) > L(std::numeric_limits<T>::max()), "quotient overflows");
	s.label(mag(q) < L(std::numeric_limits<T>::min()), "quotient underflows");
	s.nontrivial(mag(q) != 1);
}

PROP(atan_float, 4000000, 60000000) { single_argument<float>(s); }
PROP(atan_double, 4000000, 60000000) { single_argument<double>(s); }
PROP(atan2_float, 6000000, 100000000) { two_arguments<float>(s); }
PROP(atan2_double, 6000000, 100000000) { two_arguments<double>(s); }
