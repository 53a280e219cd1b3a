// RULE: a case is non-trivial when the bandwidth is set and at least three inputs with different phases were fed
// ASSUME: magnitudes from 1e-6 to 1e6, bandwidths from 0.001 to 100; phase errors of 16 pi units of machine epsilon, products relative to the magnitudes
// TECH: model-based testing against exact phase differences
#include "dut.hh"
#include "const.hh"
#include "atan2.hh"
#include "value.hh"
#include "fmd.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

// |got - want| with differences of a whole turn forgiven where the phase step is half a turn
static void phase_step(Src &s, const char *name, L got, L want, L scale, L tol, int at)
{
	L turn = 2 * PI * scale;
	if (fabsl(want) > PI * scale - tol)
		want += got - want > turn / 2 ? turn : got - want < -turn / 2 ? -turn : 0;
	near(s, name, got, want, tol, s.verbose ? pbt::format("(at %d)", at) : "");
}

template <typename C>
static void history(Src &s, int least = 0)
{
	typedef typename Val<C>::real R;
	int pat = s.range(0, 3);
	Dirty<DSP::FMD1<C>> d1(pat);
	Dirty<DSP::FMD2<C>> d2(pat);
	Dirty<DSP::FMD3<C>> d3(pat);
	Dirty<DSP::FMD4<C>> d4(pat);
	Dirty<DSP::FMD5<C>> d5(pat);
	int len = least ? s.range(least, 2 * least) : s.coin() ? s.range(1, 12) : s.skewed(1, 200);
	int kind = s.range(0, 4);
	double amp = s.coin() ? 1 : s.logreal(1e-6, 1e6), rate = s.real(-0.6, 0.6);
	Rng rng(s.seed());
	s.note("%s, kind %d, %d values", Val<C>::name(), kind, len);
	L scale = 0;
	CL p1 = 1, p2 = 1;
	double phase = 0;
	for (int i = 0; i < len; ++i) {
		if (s.coin(1, i ? 50 : 1) && (i || s.coin(15, 16))) {
			R bw = R(s.coin(1, 3) ? s.pick({ 1.0, 0.5, 0.25, 2.0 }) : s.logreal(0.001, 100));
			d1->bandwidth(bw);
			d2->bandwidth(bw);
			d3->bandwidth(bw);
			d4->bandwidth(bw);
			d5->bandwidth(bw);
			scale = 1 / (L(bw) * PI);
			s.note("bandwidth %.9g at %d", double(bw), i);
		}
		double m = amp;
		switch (kind) {
		case 0: phase += rate; break;
		case 1: phase = rng.unit(); break;
		case 2: phase = rng.unit(); m = amp * std::exp2(6 * rng.sym()); break;
		case 3: phase = s.range(0, 7) / 8.0; break;
		default: phase += 0.5 * rng.sym(); m = amp * (1.5 + rng.sym()); break;
		}
		C in = kind == 3 ? Val<C>::make((phase < 0.25 || phase > 0.75) - (phase > 0.25 && phase < 0.75), (phase > 0 && phase < 0.5) - (phase > 0.5))
			: Val<C>::make(m * std::cos(6.283185307179586 * phase), m * std::sin(6.283185307179586 * phase));
		CL v = Val<C>::get(in);
		if (std::abs(v) < 1e-9L)
			s.discard();
		L delta = std::arg(v * std::conj(p1));
		L want = scale * delta, tol = scale * 16 * PI * eps<R>;
		L g1 = (*d1)(in), g2 = (*d2)(in), g3 = (*d3)(in), g4 = (*d4)(in), g5 = (*d5)(in);
		phase_step(s, "first", g1, want, scale, tol, i);
		phase_step(s, "second", g2, want, scale, tol, i);
		phase_step(s, "third", g3, want, scale, tol, i);
		L bound = scale * PI + tol;
		CHECK(fabsl(g1) <= bound && fabsl(g2) <= bound && fabsl(g3) <= bound, "more than half a turn at %d", i);
		L q = std::abs(p1) / std::abs(v);
		near(s, "fourth", g4, scale * q * sinl(delta), 10 * eps<R> * scale * q, s.verbose ? pbt::format("(at %d)", i) : "");
		L r = (std::abs(v) + std::abs(p2)) / std::abs(p1);
		near(s, "fifth", g5, scale / 2 * (std::conj(p1) * (v - p2)).imag() / std::norm(p1), 10 * eps<R> * scale * r, s.verbose ? pbt::format("(at %d)", i) : "");
		p2 = p1;
		p1 = v;
	}
	s.nontrivial(scale > 0 && len > 2);
	s.label(kind == 0, "tone");
}

typedef Types<DSP::Complex<float>, DSP::Complex<double>, std::complex<float>, std::complex<double>> Cs;

PROP(histories, 4500000, 22500000) { Cs::any(s, [&](auto c) { history<decltype(c)>(s); }); }
PROP(marathons, 40, 400) { Cs::any(s, [&](auto c) { history<decltype(c)>(s, 70000); }); }
