// RULE: a case is non-trivial when the step is not zero and at least two steps were taken
// ASSUME: |n| <= N <= 2e8, angles up to 100, frequencies up to 10 turns per step; phase error of six units of machine epsilon per step (plus those of the angle), magnitude within four
// TECH: model-based testing of histories against exact phase accumulation
#include "dut.hh"
#include "const.hh"
#include "phasor.hh"
#include "value.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

template <typename C>
static void history(Src &s, int len, int rare)
{
	typedef typename Val<C>::real R;
	Dirty<DSP::Phasor<C>> d(s.range(0, 3));
	// phase and step in turns
	L phase = 0, step = 0, err = 0, unit = 0;
	bool moves = false;
	s.note("%s, %d steps", Val<C>::name(), len);
	for (int i = 0; i < len; ++i) {
		if (s.coin(1, i ? rare : 2)) {
			switch (s.range(0, 6)) {
			case 0:
				d->reset();
				phase = 0;
				err = 0;
				s.note("reset at %d", i);
				break;
			case 1: case 2: {
				R v = R(s.coin(1, 3) ? s.range(-8, 8) * 0.39269908169872414 : s.coin() ? s.real(-3.2, 3.2) : s.real(-100, 100));
				d->omega(v);
				step = L(v) / (2 * PI);
				unit = 0;
				s.note("omega %.9g at %d", double(v), i);
				break;
			}
			case 3: {
				R v = R(s.coin(1, 3) ? s.range(-8, 8) / 16.0 : s.coin() ? s.real(-0.5, 0.5) : s.real(-10, 10));
				d->freq(v);
				step = v;
				unit = 2 * 2 * PI * fabsl(L(v)) * eps<R>;
				s.note("freq %.9g at %d", double(v), i);
				break;
			}
			default: {
				int N = s.coin() ? s.range(1, 64) : s.skewed(1, 200000000);
				int n = s.coin() ? s.range(-N, N) : s.edgy(-N, N);
				d->omega(n, N);
				step = L(n) / L(N);
				unit = 0;
				s.note("omega %d/%d at %d", n, N, i);
			}
			}
		}
		C got = (*d)();
		L re = cosl(2 * PI * phase), im = sinl(2 * PI * phase);
		L gr = Val<C>::re(got), gi = Val<C>::im(got);
		std::string at = s.verbose ? pbt::format("(step %d)", i) : "";
		near(s, "real part", gr, re, err + 4 * eps<R>, at);
		near(s, "imaginary part", gi, im, err + 4 * eps<R>, at);
		near(s, "magnitude", sqrtl(gr * gr + gi * gi), 1, 4 * eps<R>, at);
		if (i == 0)
			CHECK(gr == 1 && gi == 0, "does not start at one");
		phase += step;
		phase -= floorl(phase);
		err += 6 * eps<R> + unit;
		moves = moves || step != 0;
	}
	s.nontrivial(moves && len > 1);
}

// long runs at one frequency
template <typename C>
static void marathon(Src &s, int len)
{
	typedef typename Val<C>::real R;
	DSP::Phasor<C> d;
	int N = s.coin() ? s.range(2, 64) : s.skewed(2, 200000000), n = s.range(-N, N);
	d.omega(n, N);
	s.note("%s, %d/%d, %d steps", Val<C>::name(), n, N, len);
	for (int i = 0; i <= len; ++i) {
		C got = d();
		L gr = Val<C>::re(got), gi = Val<C>::im(got);
		L m = gr * gr + gi * gi - 1;
		if (m > 8 * eps<R> || m < -8 * eps<R>)
			pbt::fail("magnitude squared is off by %Lg after %d steps", m, i);
		if (i % 4096 == 0 || i == len) {
			L t = 2 * PI * L((int64_t(n) * i) % N) / L(N);
			L tol = 6 * eps<R> * (i + 1);
			if (tol < 1) {
				near(s, "real part", gr, cosl(t), tol);
				near(s, "imaginary part", gi, sinl(t), tol);
			}
		}
	}
	s.nontrivial(n != 0);
}

typedef Types<DSP::Complex<float>, DSP::Complex<double>, std::complex<float>, std::complex<double>> Cs;

PROP(short_histories, 3000000, 15000000) { Cs::any(s, [&](auto c) { history<decltype(c)>(s, s.range(1, 30), 6); }); }
PROP(histories, 200000, 1000000) { Cs::any(s, [&](auto c) { history<decltype(c)>(s, s.skewed(1, 3000), 300); }); }
PROP(marathons, 1600, 8000) { Cs::any(s, [&](auto c) { marathon<decltype(c)>(s, s.range(1000, 400000)); }); }
