// RULE: a case is non-trivial when attack and decay differ and both acted
// ASSUME: attack and decay fractions from 0 to 1, lower limit from 1e-4, limits in order, modulation index from 0.01 to 4; rounding of six units of machine epsilon per step
// TECH: model-based testing against the stated gain tracking with a running error bound
#include "dut.hh"
#include "utils.hh"
#include "value.hh"
#include "amd.hh"

template <typename C>
static void history(Src &s, int least = 0)
{
	typedef typename Val<C>::real R;
	Dirty<DSP::AMD1<C>> d(s.range(0, 3));
	int len = least ? s.range(least, 2 * least) : s.coin() ? s.range(1, 20) : s.skewed(1, 500);
	int kind = s.range(0, 4), period = s.range(1, 30);
	double amp = s.coin() ? 0.5 : s.logreal(1e-5, 100), depth = s.unit();
	Rng rng(s.seed());
	L g = 0, err = 0, att = 0, dec = 0, lo = R(0.001), hi = 1, m = 1;
	s.note("%s, kind %d, magnitude %g, %d values", Val<C>::name(), kind, amp, len);
	bool up = false, down = false;
	for (int i = 0; i < len; ++i) {
		if (s.coin(1, i ? 60 : 1) && (i || s.coin(15, 16))) {
			R a = R(s.coin(1, 4) ? s.range(0, 4) / 4.0 : s.unit()), b = R(s.coin(1, 4) ? s.range(0, 4) / 4.0 : s.coin() ? s.unit() : s.logreal(1e-4, 1));
			att = a;
			dec = b;
			lo = R(0.001);
			hi = 1;
			switch (s.range(0, 2)) {
			case 0: d->agc(a, b); break;
			case 1: lo = R(s.logreal(1e-4, 1)); d->agc(a, b, R(lo)); break;
			case 2: lo = R(s.logreal(1e-4, 10)); hi = s.coin(1, 5) ? lo : L(R(lo * s.logreal(1, 1000))); d->agc(a, b, R(lo), R(hi)); break;
			}
			s.note("attack %Lg, decay %Lg, limits %Lg to %Lg at %d", att, dec, lo, hi, i);
		}
		if (s.coin(1, i ? 60 : 2)) {
			R x = R(s.coin(1, 3) ? 1 : s.logreal(0.01, 4));
			d->index(x);
			m = x;
			s.note("index %Lg at %d", m, i);
		}
		double a = 0;
		switch (kind) {
		case 0: a = amp; break;
		case 1: a = amp * rng.unit(); break;
		case 2: a = amp * (1 + depth * std::sin(6.283185307179586 * i / period)); break;
		case 3: a = (i / period) & 1 ? amp : 0; break;
		case 4: a = amp * std::exp2(8 * rng.sym()); break;
		}
		double t = rng.unit() * 6.283185307179586;
		C in = kind == 3 ? Val<C>::make(a, 0) : Val<C>::make(a * std::cos(t), a * std::sin(t));
		L A = std::abs(Val<C>::get(in));
		// either fraction where the magnitude cannot be told from the reference
		bool unsure = fabsl(A - g) <= err + 4 * eps<R> * (A + g);
		L w = A < g ? dec : att;
		err = (unsure ? 1 : 1 - w) * err + 6 * eps<R> * (A + g);
		up = up || A > g;
		down = down || A < g;
		g += w * (A - g);
		g = g < lo ? lo : g > hi ? hi : g;
		if (err > g / 50)
			s.discard();
		L r = A / g;
		L want = (r * (1 + m) - 1) / m;
		L tol = 1.1L * (r * (1 + m) * (err / g + 6 * eps<R>) + 4 * eps<R>) / m;
		near(s, "output", (*d)(in), want, tol, s.verbose ? pbt::format("(at %d)", i) : "");
	}
	s.nontrivial(up && down && att != dec);
	s.label(kind == 0, "constant");
}

// a constant carrier within the range settles to an output of one, outside the gain is limited
template <typename C>
static void settled(Src &s)
{
	typedef typename Val<C>::real R;
	DSP::AMD1<C> d;
	R a = R(s.real(0.02, 1)), b = R(s.real(0.02, 1)), m = R(s.logreal(0.05, 2));
	R lo = R(s.logreal(0.01, 1)), hi = R(lo * s.logreal(1.1, 100));
	d.agc(a, b, lo, hi);
	d.index(m);
	L amp = L(R(s.logreal(lo / 3, hi * 3)));
	s.note("%s, magnitude %Lg, limits %g to %g, attack %g, decay %g, index %g", Val<C>::name(), amp, double(lo), double(hi), double(a), double(b), double(m));
	L out = 0;
	// from above or from below
	R first = R(s.coin() ? hi : lo);
	for (int i = 0; i < 200; ++i)
		d(Val<C>::make(first, 0));
	for (int i = 0; i < 2500; ++i)
		out = d(Val<C>::make(0, amp));
	L ref = amp < lo ? L(lo) : amp > hi ? L(hi) : amp;
	near(s, "settled output", out, (amp / ref * (1 + L(m)) - 1) / m, 1000 * eps<R> * (1 + L(m)) / m * amp / ref + 8 * eps<R> / m);
	s.nontrivial();
	s.label(amp < lo, "below");
	s.label(amp > hi, "above");
}

typedef Types<DSP::Complex<float>, DSP::Complex<double>, std::complex<float>> Cs;

PROP(histories, 7500000, 37500000) { Cs::any(s, [&](auto c) { history<decltype(c)>(s); }); }
PROP(carriers, 375000, 1875000) { Cs::any(s, [&](auto c) { settled<decltype(c)>(s); }); }
PROP(marathons, 120, 1200) { Cs::any(s, [&](auto c) { history<decltype(c)>(s, 70000); }); }
