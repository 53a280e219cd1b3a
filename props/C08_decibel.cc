// RULE: a case is non-trivial when the exponent or the ratio in decibels is not zero
// ASSUME: results and powers of two are normal numbers below half the largest one; powers of ten to 8 eps (1 + |x|) relative; decibels to 4e4 eps plus the tail of the series
// TECH: property-based testing against extended-precision powers and logarithms, round trip
#include "dut.hh"
#include "decibel.hh"

typedef long double L;
static L mag(L a) { return a < 0 ? -a : a; }

template <typename T> static int emin() { return std::numeric_limits<T>::min_exponent - 1; }
template <typename T> static int emax() { return std::numeric_limits<T>::max_exponent - 1; }

template <typename T>
static void scaling(Src &s)
{
	int n = s.coin() ? s.edgy(-emax<T>(), emax<T>()) : s.range(-emax<T>(), emax<T>());
	if (s.coin(1, 8))
		n = (s.coin() ? -1 : 1) * ((1 << s.range(0, sizeof(T) == 4 ? 6 : 9)) + s.range(-1, 1));
	double m = s.coin() ? s.real(1, 2) : 1 + s.range(0, 15) / 16.0;
	int e = s.range(emin<T>(), emax<T>());
	if (e + n < emin<T>() || e + n > emax<T>())
		e = 0;
	// the power itself must be normal
	if (n < emin<T>())
		s.discard();
	T x = T((s.coin() ? -1 : 1) * std::ldexp(m, e));
	if (!pbt::finite(x))
		s.discard();
	L want = ldexpl(L(x), n);
	if (mag(want) > std::numeric_limits<T>::max() || mag(want) < std::numeric_limits<T>::min())
		s.discard();
	s.note("ldexp(%.17g, %d)", double(x), n);
	near(s, "ldexp", DSP::ldexp(x, n), want, 0);
	s.nontrivial(n != 0);
}

PROP(ldexp_float, 3750000, 20000000) { scaling<float>(s); }
PROP(ldexp_double, 3750000, 20000000) { scaling<double>(s); }

template <typename T>
static T exponent(Src &s)
{
	L lo = emin<T>() * 0.30102999566398119521L, hi = emax<T>() * 0.30102999566398119521L;
	switch (s.range(0, 5)) {
	case 0: return T(s.real(-2, 2));
	case 1: return T(s.range(int(lo), int(hi)));
	case 2: return T(lo + (hi - lo) * s.unit());
	case 3: return T(s.coin() ? -1 : 1) * T(s.logreal(0x1p-40, 1));
	case 4: {
		// where the rounding of the binary exponent changes
		int k = s.range(emin<T>(), emax<T>() - 1);
		return T((k + 0.5L) * 0.30102999566398119521L * (1 + s.range(-4, 4) * eps<T>));
	}
	default: return s.coin() ? T(hi - s.real(0, 0.5)) : T(lo + s.real(0, 0.5));
	}
}

template <typename T>
static void power(Src &s)
{
	T x = exponent<T>(s);
	L want = powl(10, x);
	if (want > std::numeric_limits<T>::max() / 2 || want < std::numeric_limits<T>::min())
		s.discard();
	s.note("exp10(%.17g)", double(x));
	near(s, "exp10", DSP::exp10(x), want, 8 * eps<T> * (1 + mag(x)) * want);
	T dB = T(10) * x;
	L w = powl(10, L(dB) / 10);
	if (w < std::numeric_limits<T>::max() / 2 && w > std::numeric_limits<T>::min())
		near(s, "idecibel", DSP::idecibel(dB), w, 8 * eps<T> * (1 + 2 * mag(x)) * w);
	s.label(mag(x) > 30, "large exponent");
	s.nontrivial(x != T(0));
}

PROP(exp10_float, 7500000, 40000000) { power<float>(s); }
PROP(exp10_double, 7500000, 40000000) { power<double>(s); }

template <typename T>
static T ratio(Src &s)
{
	switch (s.range(0, 4)) {
	case 0: return T(s.real(0.01, 100));
	case 1: return T(s.range(1, 1000));
	case 2: return T(1 + s.range(-8, 8) * eps<T>);
	case 3: return T(std::ldexp(s.real(1, 2), s.range(-20, 20)));
	default: return T(std::ldexp(s.real(1, 2), s.range(emin<T>(), emax<T>() - 1)));
	}
}

template <typename T>
static void decibels(Src &s)
{
	T v = ratio<T>(s);
	s.note("decibel(%.17g)", double(v));
	L want = 10 * log10l(v), z = mag(tanhl(logl(v) / 2048));
	L tail = 8894.35L * powl(z, 15) / 15 * 1.5L;
	L tol = 4e4L * eps<T> + tail;
	T got = DSP::decibel(v);
	near(s, "decibel", got, want, tol);
	L back = powl(10, L(got) / 10);
	T inv = DSP::idecibel(got);
	if (back < std::numeric_limits<T>::max() / 2 && back > 2 * std::numeric_limits<T>::min())
		near(s, "round trip", inv, v, (0.24L * tol + 8 * eps<T> * (1 + mag(want) / 5)) * L(v));
	s.label(mag(want) > 300, "extreme ratio");
	s.nontrivial(v != T(1));
}

PROP(decibel_float, 5000000, 30000000) { decibels<float>(s); }
PROP(decibel_double, 5000000, 30000000) { decibels<double>(s); }
