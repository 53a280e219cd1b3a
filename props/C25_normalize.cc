// RULE: a case is non-trivial when the input has both an offset and a varying part
// ASSUME: 1 to a billion samples, histories of up to 1500 and of about a hundred thousand values, mean square not below 1e-12; amplitude one within two percent once settled with at least 20 periods per averaging time
// TECH: model-based testing against the definition with a running error bound, and fitted amplitude and mean of settled sinusoids
#include "dut.hh"
#include "normalize.hh"
#include "value.hh"

struct Ref
{
	L num = 1, x1 = 0, y1 = 0, m = 0.5L, ey = 0, em = 0;
	// false when the mean square gets too small to say anything
	bool step(L x, L unit, L &out, L &tol)
	{
		L a = (num - 1) / num, b = (1 + a) / 2, al = 1 / num;
		L y = b * (x - x1) + a * y1;
		ey = a * ey + 6 * unit * (fabsl(x) + fabsl(x1) + fabsl(y1));
		em = (1 - al) * em + al * (2 * fabsl(y) * ey + ey * ey) + 6 * unit * m;
		m = (1 - al) * m + al * y * y;
		em += 6 * unit * m;
		x1 = x;
		y1 = y;
		if (m < 1e-12L || em > m / 50)
			return false;
		L amp = sqrtl(2 * m);
		out = y / amp;
		tol = 1.1L * (ey / amp + fabsl(out) * (em / (2 * m) + 6 * unit));
		return true;
	}
};

template <typename R, bool IQ>
static void history(Src &s, int least = 0)
{
	typedef DSP::Complex<R> C;
	Dirty<DSP::NormalizeSine<R>> d(s.range(0, 3));
	Dirty<DSP::NormalizeIQ<C>> q(s.range(0, 3));
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.coin() ? s.range(1, 40) : s.skewed(1, 1500);
	s.note("%s, %s, %s, %d values", TypeName<R>::get(), IQ ? "I/Q" : "sine", sig.name(), len);
	Ref re, im;
	bool live_re = true, live_im = true;
	L lo = HUGE_VALL, hi = -HUGE_VALL;
	for (int i = 0; i < len && (live_re || live_im); ++i) {
		if (i == 0 || s.coin(1, 200)) {
			int k = s.coin() ? s.range(1, 12) : s.coin(3, 4) ? s.skewed(2, 2000) : s.skewed(2, 1000000000);
			// as constructed it is the one of one sample
			if (i || s.coin(15, 16)) {
				re.num = im.num = k;
				d->samples(k);
				q->samples(k);
				s.note("samples %d at %d", k, i);
			}
		}
		double x, y;
		sig(i, x, y);
		L gr, gi = 0;
		if (IQ) {
			C g = (*q)(C(R(x), R(y)));
			gr = g.real();
			gi = g.imag();
		} else {
			gr = (*d)(R(x));
			live_im = false;
		}
		L want, tol;
		if (live_re && (live_re = re.step(R(x), eps<R>, want, tol)))
			near(s, "output", gr, want, tol, s.verbose ? pbt::format("(real, at %d)", i) : "");
		if (live_im && (live_im = im.step(R(y), eps<R>, want, tol)))
			near(s, "output", gi, want, tol, s.verbose ? pbt::format("(imaginary, at %d)", i) : "");
		lo = std::min<L>(lo, x);
		hi = std::max<L>(hi, x);
	}
	s.nontrivial(hi > lo && hi + lo != 0);
	s.label(sig.name());
}

template <typename R>
static void settled(Src &s)
{
	typedef DSP::Complex<R> C;
	DSP::NormalizeSine<R> d;
	DSP::NormalizeIQ<C> q;
	int M = s.range(8, 48);
	int k[2], num;
	double amp[2], off[2], ph[2];
	for (int c = 0; c < 2; ++c) {
		k[c] = s.range(1, (M - 1) / 2);
		amp[c] = s.logreal(0.01, 100);
		off[c] = amp[c] * s.real(-30, 30);
		ph[c] = s.unit();
	}
	num = s.range(20, 40) * M;
	d.samples(num);
	q.samples(num);
	s.note("%s, frequencies %d and %d of %d, amplitudes %g and %g, offsets %g and %g, samples %d", TypeName<R>::get(), k[0], k[1], M, amp[0], amp[1], off[0], off[1], num);
	int settle = 25 * num / M * M;
	L acc[3][3] = {};
	for (int i = 0; i < settle + M; ++i) {
		double x[2];
		for (int c = 0; c < 2; ++c)
			x[c] = amp[c] * std::sin(6.283185307179586 * ((i % M) * k[c] % M / double(M) + ph[c])) + off[c];
		R g = d(R(x[0]));
		C h = q(C(R(x[0]), R(x[1])));
		if (i < settle)
			continue;
		R v[3] = { g, h.real(), h.imag() };
		for (int j = 0; j < 3; ++j) {
			double t = 6.283185307179586 * ((i % M) * k[j / 2] % M / double(M));
			acc[j][0] += v[j] * std::cos(t) * 2 / M;
			acc[j][1] += v[j] * std::sin(t) * 2 / M;
			acc[j][2] += v[j] / M;
		}
	}
	for (int j = 0; j < 3; ++j) {
		near(s, "amplitude", sqrtl(acc[j][0] * acc[j][0] + acc[j][1] * acc[j][1]), 1, 0.02L);
		near(s, "mean", acc[j][2], 0, 0.01L);
	}
	s.nontrivial();
}

PROP(sine_float, 1250000, 6250000) { history<float, false>(s); }
PROP(sine_double, 1250000, 6250000) { history<double, false>(s); }
PROP(iq_float, 1250000, 6250000) { history<float, true>(s); }
PROP(iq_double, 1250000, 6250000) { history<double, true>(s); }
PROP(settled_float, 3750, 18750) { settled<float>(s); }
PROP(settled_double, 3750, 18750) { settled<double>(s); }
PROP(marathons, 120, 1200) { history<float, false>(s, 70000); }
PROP(iq_marathons, 120, 1200) { history<double, true>(s, 70000); }
