// RULE: a case is non-trivial when more values were fed than the filter is long
// ASSUME: 5 to 1025 taps, Kaiser alpha up to 3; rounding of half the taps + 24 + 10 alpha^2 units of machine epsilon relative to the sum of magnitudes
// TECH: model-based testing against delay and convolution in extended precision
#include "dut.hh"
#include "const.hh"
#include "hilbert.hh"
#include "value.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

static L bessel(L x)
{
	L sum = 1, val = 1;
	for (int n = 1; n < 60; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

template <typename C, int TAPS>
static void history(Src &s, int least = 0)
{
	typedef typename Val<C>::real R;
	typedef DSP::Hilbert<C, TAPS> D;
	bool given = s.coin(3, 4);
	R alpha = given ? R(s.coin(1, 3) ? s.range(0, 6) / 2.0 : s.real(0, 3)) : R(2);
	int pat = s.range(0, 3);
	Dirty<D> dflt(pat), custom(pat, alpha);
	D &d = given ? *custom : *dflt;
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.range(1, 2 * TAPS + 8);
	s.note("%s, %d taps, alpha %g, %s, %d values", Val<C>::name(), TAPS, double(alpha), sig.name(), len);
	const int half = (TAPS - 1) / 2;
	std::vector<L> h(half + 1, 0), x;
	for (int k = 1; k <= half; k += 2) {
		L u = L(k) / half;
		h[k] = 2 / (PI * k) * bessel(PI * alpha * sqrtl(1 - u * u)) / bessel(PI * alpha);
	}
	for (int t = 0; t < len; ++t) {
		double re, im;
		sig(t, re, im);
		C got = d(R(re));
		// the value just given enters after the output was taken
		auto at = [&](int i) { return i >= 0 && i < int(x.size()) ? x[i] : L(0); };
		int c = t - 1 - half;
		L want = 0, sum = 0;
		for (int k = 1; k <= half; ++k) {
			want += h[k] * (at(c - k) - at(c + k));
			sum += h[k] * (fabsl(at(c - k)) + fabsl(at(c + k)));
		}
		std::string where = s.verbose ? pbt::format("(at %d)", t) : "";
		near(s, "real part", Val<C>::re(got), at(c), 4 * eps<R> * fabsl(at(c)), where);
		near(s, "imaginary part", Val<C>::im(got), want, (half + 24 + 10 * alpha * alpha) / 2 * eps<R> * sum, where);
		x.push_back(R(re));
	}
	s.nontrivial(len > TAPS);
	s.label(sig.name());
}

// a tone in mid-band turns in the positive direction with its own frequency
template <typename C, int TAPS>
static void tone(Src &s)
{
	typedef typename Val<C>::real R;
	DSP::Hilbert<C, TAPS> d;
	double f = s.real(0.1, 0.4), amp = s.logreal(0.01, 100), phase = s.unit();
	s.note("%s, %d taps, frequency %g", Val<C>::name(), TAPS, f);
	CL prev = 0;
	for (int t = 0; t < TAPS + 20; ++t) {
		CL y = Val<C>::get(d(R(amp * std::cos(6.283185307179586 * (f * t + phase)))));
		if (t > TAPS + 1) {
			near(s, "amplitude of the tone", std::abs(y), amp, 0.01L * amp);
			near(s, "frequency of the tone", std::arg(y * std::conj(prev)) / (2 * PI), f, 0.005L);
		}
		prev = y;
	}
	s.nontrivial();
}

typedef Sizes<5, 9, 13, 17, 21, 25, 29, 33, 37, 49, 65, 97, 129, 257> Lens;
typedef Sizes<65, 129> Long;

PROP(float_histories, 150000, 750000) { Lens::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(double_histories, 150000, 750000) { Lens::any(s, [&](auto n) { history<DSP::Complex<double>, n()>(s); }); }
PROP(small, 1200000, 6000000) { Sizes<5, 9, 13, 17, 21>::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(std_complex, 300000, 1500000) { Sizes<5, 21, 33>::any(s, [&](auto n) { history<std::complex<float>, n()>(s); }); }
PROP(tones, 120000, 600000) { Long::any(s, [&](auto n) { tone<DSP::Complex<double>, n()>(s); }); }
PROP(tones_float, 120000, 600000) { Long::any(s, [&](auto n) { tone<DSP::Complex<float>, n()>(s); }); }
PROP(marathons, 64, 640) { Sizes<5, 21>::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s, 70000); }); }
PROP(many_taps, 3000, 15000) { Sizes<513, 1025>::any(s, [&](auto n) { history<DSP::Complex<double>, n()>(s); }); }
