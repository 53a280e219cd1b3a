// RULE: a case is non-trivial when there is more than one section
// ASSUME: 1 to 20 sections, cutoffs strictly between zero and half the rate; responses are measured where the impulse response decays within 6000 samples; histories of up to 100 and of about a hundred thousand samples whose first-order error bound stays below one percent
// TECH: property-based testing of the measured frequency response against the Butterworth formula and of histories against a model of the sections
#include "dut.hh"
#include "biquad.hh"
#include "sections.hh"

template <typename T, int NUM>
static void history(Src &s)
{
	typedef typename Val<T>::real R;
	Dirty<DSP::BiquadCascade<T, R, NUM>> d(s.range(0, 3));
	Signal sig(s);
	int len = s.range(1, 100);
	int N = s.coin() ? s.range(3, 64) : s.skewed(3, 50000);
	int n = s.coin() ? s.range(1, (N - 1) / 2) : s.edgy(1, (N - 1) / 2);
	int mode = s.range(0, 16);
	s.note("%s, %d sections, %s, %d samples, %d/%d %s", Val<T>::name(), NUM, sig.name(), len, n, N, mode == 16 ? "unset" : mode & 1 ? "high-pass" : "low-pass");
	Section c[NUM];
	if (mode < 16) {
		for (int i = 0; i < NUM; ++i) {
			L Q = 1 / (2 * cosl(PI * (2 * i + 1) / (4 * NUM)));
			if (mode & 1)
				c[i].highpass(n, N, Q);
			else
				c[i].lowpass(n, N, Q);
		}
		if (mode & 1)
			d->highpass(n, N);
		else
			d->lowpass(n, N);
	}
	std::vector<CL> v;
	std::vector<T> out;
	std::vector<L> err(len, 0);
	L big = 0;
	for (int i = 0; i < len; ++i) {
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		v.push_back(Val<T>::get(x));
		big = std::max(big, mag(v.back()));
		out.push_back((*d)(x));
	}
	for (int k = 0; k < NUM; ++k) {
		Model m;
		m.tiny = 16 * L(std::numeric_limits<R>::min());
		for (int i = 0; i < len; ++i)
			v[i] = m.step(c[k], v[i], err[i], mode < 16 ? 10 * eps<R> : 0);
		m.finish();
		err = m.bound;
	}
	for (int i = 0; i < len; ++i) {
		if (err[i] > big / 100) {
			s.label("cut off");
			break;
		}
		close(s, "output", out[i], v[i], err[i] + 256 * L(std::numeric_limits<R>::min()), i);
	}
	s.nontrivial(NUM > 1 && mode < 16);
	s.label(mode & 1, "high-pass");
}

template <int NUM>
static void response(Src &s)
{
	typedef double R;
	Dirty<DSP::BiquadCascade<R, R, NUM>> d(s.range(0, 3));
	int N = s.range(8, 400);
	int n = s.range(1, (N - 1) / 2);
	L wc = 2 * PI * L(n) / N, K = tanl(wc / 2);
	bool high = s.coin();
	// slowest pole
	L Q = 1 / (2 * cosl(PI * (2 * NUM - 1) / (4 * NUM)));
	L rate = std::min(wc, PI - wc) / (2 * Q);
	if (rate * 6000 < 40)
		s.discard();
	int len = int(40 / rate) + 64 * NUM;
	s.note("%d sections, %s %d/%d, %d samples", NUM, high ? "high-pass" : "low-pass", n, N, len);
	if (high)
		d->highpass(n, N);
	else
		d->lowpass(n, N);
	std::vector<double> h(len);
	for (int i = 0; i < len; ++i)
		h[i] = (*d)(i == 0);
	L last = 2;
	int steps = 9;
	for (int k = 0; k <= steps; ++k) {
		L w = k == 0 ? wc : PI * (k - 1) / (steps - 1);
		L re = 0, im = 0, c = cosl(w), sn = sinl(w), pr = 1, pi = 0;
		for (int i = 0; i < len; ++i) {
			re += h[i] * pr;
			im -= h[i] * pi;
			L t = pr * c - pi * sn;
			pi = pr * sn + pi * c;
			pr = t;
		}
		L got = re * re + im * im;
		L r = k == steps ? HUGE_VALL : tanl(w / 2) / K;
		L want = k == 0 ? 0.5L : k == steps ? 0 : 1 / (1 + powl(r, 4 * NUM));
		if (high)
			want = 1 - want;
		L m = std::min(wc, PI - wc);
		near(s, k == 0 ? "power at cutoff" : "power", got, want, 2000 * NUM * Q * Q * eps<R> / (m * m), s.verbose ? pbt::format("(at %Lg of the cutoff)", w / wc) : "");
		if (k > 0) {
			L g = high ? 1 - got : got;
			CHECK(g < last + 1e-6L, "response is not monotone");
			last = g;
		}
	}
	s.nontrivial(NUM > 1);
}

// settled by construction: rounding errors fade, so that any length can be judged
template <typename T, int NUM>
static void marathon(Src &s)
{
	typedef typename Val<T>::real R;
	Dirty<DSP::BiquadCascade<T, R, NUM>> d(s.range(0, 3));
	int N = s.range(5, 40), n = s.range((N + 9) / 10, (4 * N - 1) / 10), len = s.range(70000, 140000);
	bool high = s.coin();
	Signal sig(s);
	s.note("%s, %d sections, %s %d/%d, %s, %d samples", Val<T>::name(), NUM, high ? "high-pass" : "low-pass", n, N, sig.name(), len);
	if (high)
		d->highpass(n, N);
	else
		d->lowpass(n, N);
	Section c[NUM];
	CL x1[NUM] = {}, x2[NUM] = {}, y1[NUM] = {}, y2[NUM] = {};
	for (int k = 0; k < NUM; ++k) {
		L Q = 1 / (2 * cosl(PI * (2 * k + 1) / (4 * NUM)));
		if (high)
			c[k].highpass(n, N, Q);
		else
			c[k].lowpass(n, N, Q);
	}
	L big = 0;
	for (int i = 0; i < len; ++i) {
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		CL v = Val<T>::get(x);
		for (int k = 0; k < NUM; ++k) {
			big = std::max(big, mag(v));
			CL y = c[k].b0 * v + c[k].b1 * x1[k] + c[k].b2 * x2[k] - c[k].a1 * y1[k] - c[k].a2 * y2[k];
			x2[k] = x1[k];
			x1[k] = v;
			y2[k] = y1[k];
			y1[k] = y;
			v = y;
		}
		close(s, "long run", (*d)(x), v, 100 * NUM * eps<R> * big, i);
	}
	s.nontrivial();
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 20> Nums;

PROP(histories_float, 40000, 400000) { Nums::any(s, [&](auto n) { history<float, n()>(s); }); }
PROP(histories_double, 40000, 400000) { Nums::any(s, [&](auto n) { history<double, n()>(s); }); }
PROP(histories_complex, 20000, 200000) { Nums::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(responses, 20000, 200000) { Nums::any(s, [&](auto n) { response<n()>(s); }); }
PROP(marathons, 96, 960) { Sizes<1, 2, 3>::any(s, [&](auto n) { marathon<double, n()>(s); }); }
