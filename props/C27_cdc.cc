// RULE: a case is non-trivial when more pairs were fed than the filter is long
// ASSUME: 5 to 1025 taps, Kaiser alpha up to 3; rounding of taps + 24 + 10 alpha^2 units of machine epsilon relative to the sum of magnitudes
// TECH: model-based testing against mixing, full convolution and decimation in extended precision
#include "dut.hh"
#include "cdc.hh"
#include "value.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

static L bessel(L x)
{
	L sum = 1, val = 1;
	for (int n = 1; n < 60; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

// Kaiser-windowed ideal low-pass at a quarter of the rate
static std::vector<L> half_band(int taps, L a)
{
	std::vector<L> h(taps);
	for (int n = 0; n < taps; ++n) {
		int d = n - (taps - 1) / 2;
		L u = 2 * L(n) / (taps - 1) - 1;
		L ideal = d == 0 ? 0.5L : d % 2 == 0 ? 0 : ((d - 1) & 2 ? -1 : 1) / (PI * d);
		h[n] = ideal * bessel(PI * a * sqrtl(1 - u * u)) / bessel(PI * a);
	}
	return h;
}

template <typename C, int TAPS>
static void history(Src &s, int least = 0)
{
	typedef typename Val<C>::real R;
	typedef DSP::CDC<C, TAPS> D;
	bool given = s.coin(3, 4);
	R alpha = given ? R(s.coin(1, 3) ? s.range(0, 6) / 2.0 : s.real(0, 3)) : R(2);
	int pat = s.range(0, 3);
	Dirty<D> dflt(pat), custom(pat, alpha);
	D &d = given ? *custom : *dflt;
	Signal sig(s);
	int pairs = least ? s.range(least, 2 * least) : s.range(1, TAPS + 8);
	s.note("%s, %d taps, alpha %g, %s, %d pairs", Val<C>::name(), TAPS, double(alpha), sig.name(), pairs);
	std::vector<L> h = half_band(TAPS, alpha);
	std::vector<CL> z;
	std::vector<L> x;
	for (int k = 0; k < pairs; ++k) {
		R in[2];
		for (int i = 0; i < 2; ++i) {
			double re, im;
			sig(2 * k + i, re, im);
			in[i] = R(re);
			// oscillator at minus a quarter of the rate, starting at j
			static const CL osc[4] = { CL(0, 1), CL(1, 0), CL(0, -1), CL(-1, 0) };
			z.push_back(L(in[i]) * osc[(2 * k + i) % 4]);
		}
		C got = d(in[0], in[1]);
		int centre = 2 * k + 1 - (TAPS - 1) / 2;
		CL want = 0;
		L sum = 0;
		for (int n = 0; n < TAPS; ++n) {
			int t = centre + (TAPS - 1) / 2 - n;
			if (t < 0 || t >= int(z.size()))
				continue;
			want += h[n] * z[t];
			sum += fabsl(h[n]) * mag(z[t]);
		}
		close(s, "output", got, want, (TAPS + 24 + 10 * alpha * alpha) / 2 * eps<R> * sum, k);
	}
	s.nontrivial(2 * pairs > TAPS);
	s.label(sig.name());
}

// a real tone near a quarter of the rate becomes one complex tone
template <typename C, int TAPS>
static void tone(Src &s)
{
	typedef typename Val<C>::real R;
	DSP::CDC<C, TAPS> d;
	double delta = s.real(-0.05, 0.05), amp = s.logreal(0.01, 100), phase = s.unit();
	s.note("%s, %d taps, offset %g", Val<C>::name(), TAPS, delta);
	CL prev = 0;
	for (int k = 0; k < TAPS + 20; ++k) {
		R in[2];
		for (int i = 0; i < 2; ++i)
			in[i] = R(amp * std::cos(6.283185307179586 * ((0.25 + delta) * (2 * k + i) + phase)));
		CL y = Val<C>::get(d(in[0], in[1]));
		if (k >= TAPS) {
			near(s, "amplitude of the tone", std::abs(y), L(amp) / 2, 0.01L * amp);
			L turn = std::arg(y * std::conj(prev)) / (2 * PI);
			near(s, "frequency of the tone", turn, 2 * L(delta), 0.005L);
		}
		prev = y;
	}
	s.nontrivial();
}

typedef Sizes<5, 9, 13, 17, 21, 25, 29, 33, 37, 49, 65, 97, 129, 257> Lens;
typedef Sizes<45, 65, 129> Long;

PROP(float_histories, 300000, 1500000) { Lens::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(double_histories, 300000, 1500000) { Lens::any(s, [&](auto n) { history<DSP::Complex<double>, n()>(s); }); }
PROP(small, 1200000, 6000000) { Sizes<5, 9, 13, 17, 21>::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(std_complex, 300000, 1500000) { Sizes<5, 21, 33>::any(s, [&](auto n) { history<std::complex<float>, n()>(s); }); }
PROP(tones, 120000, 600000) { Long::any(s, [&](auto n) { tone<DSP::Complex<double>, n()>(s); }); }
PROP(tones_float, 120000, 600000) { Long::any(s, [&](auto n) { tone<DSP::Complex<float>, n()>(s); }); }
PROP(marathons, 64, 640) { Sizes<5, 21>::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s, 70000); }); }
PROP(many_taps, 3000, 15000) { Sizes<513, 1025>::any(s, [&](auto n) { history<DSP::Complex<double>, n()>(s); }); }
