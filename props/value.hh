// real and complex samples on one footing

#pragma once

#include "complex.hh"

typedef long double L;
typedef std::complex<long double> CL;

template <typename T>
struct Val
{
	typedef T real;
	static constexpr bool complex = false;
	static T make(double re, double) { return T(re); }
	static CL get(const T &v) { return CL(v, 0); }
	static L re(const T &v) { return v; }
	static L im(const T &) { return 0; }
	static const char *name() { return TypeName<T>::get(); }
};

template <typename R>
struct Val<DSP::Complex<R>>
{
	typedef R real;
	static constexpr bool complex = true;
	static DSP::Complex<R> make(double re, double im) { return DSP::Complex<R>(R(re), R(im)); }
	static CL get(const DSP::Complex<R> &v) { return CL(v.real(), v.imag()); }
	static L re(const DSP::Complex<R> &v) { return v.real(); }
	static L im(const DSP::Complex<R> &v) { return v.imag(); }
	static const char *name() { return sizeof(R) == 4 ? "complex float" : "complex double"; }
};

template <typename R>
struct Val<std::complex<R>>
{
	typedef R real;
	static constexpr bool complex = true;
	static std::complex<R> make(double re, double im) { return std::complex<R>(R(re), R(im)); }
	static CL get(const std::complex<R> &v) { return CL(v.real(), v.imag()); }
	static L re(const std::complex<R> &v) { return v.real(); }
	static L im(const std::complex<R> &v) { return v.imag(); }
	static const char *name() { return sizeof(R) == 4 ? "std complex float" : "std complex double"; }
};

template <typename T>
static void close(Src &s, const char *name, const T &got, CL want, L tol, int at = 0)
{
	std::string where = s.verbose ? pbt::format("(%s, at %d)", Val<T>::name(), at) : "";
	near(s, name, Val<T>::re(got), want.real(), tol, where);
	if (Val<T>::complex)
		near(s, name, Val<T>::im(got), want.imag(), tol, where);
}

static inline L mag(CL v) { return fabsl(v.real()) + fabsl(v.imag()); }

// signals to drive filters with
struct Signal
{
	int kind;
	Rng rng;
	double scale, offset, freq, phase;
	int period;
	Signal(Src &s) : kind(s.range(0, 7)), rng(s.seed()), scale(s.coin(1, 3) ? s.logreal(1e-3, 1e3) : 1),
		offset(s.coin(1, 3) ? s.real(-2, 2) : 0), freq(s.real(-0.5, 0.5)), phase(s.real(0, 1)), period(s.skewed(1, 40)) {}
	const char *name() const
	{
		static const char *n[] = { "impulse", "step", "noise", "alternating", "tone", "impulses", "ramp", "steps" };
		return n[kind];
	}
	void operator()(int i, double &re, double &im)
	{
		re = im = 0;
		double t = 6.283185307179586 * (freq * i + phase);
		switch (kind) {
		case 0: re = i == 0; im = i == 1; break;
		case 1: re = 1; im = -0.5; break;
		case 2: re = rng.sym(); im = rng.sym(); break;
		case 3: re = i & 1 ? -1 : 1; im = i & 2 ? -1 : 1; break;
		case 4: re = std::cos(t); im = std::sin(t); break;
		case 5: re = i % period == 0 ? rng.sym() : 0; im = i % period == period / 2 ? rng.sym() : 0; break;
		case 6: re = (i % period) / double(period); im = (i % (period + 3)) / double(period); break;
		case 7: re = (i / period) % 3 - 1; im = (i / period) % 2; break;
		}
		re = scale * (re + offset);
		im = scale * (im - offset / 2);
	}
};
