// RULE: a case is non-trivial when the section was configured and the history is longer than two
// ASSUME: frequencies strictly between zero and half the rate, Q from 0.001 to 100000 or -30 to 60 dB, histories of up to 160 and of about a hundred thousand samples whose first-order error bound stays below one percent; coefficient errors of at most 16 units of machine epsilon
// TECH: model-based testing against the bilinear transform of the analogue prototypes in extended precision with a running error bound
#include "dut.hh"
#include "biquad.hh"
#include "sections.hh"

static const char *names[] = { "low-pass", "high-pass", "notch", "band-pass", "all-pass" };

template <typename B, typename R>
static void configure(Src &s, B &d, Section &c)
{
	int n, N;
	switch (s.range(0, 2)) {
	case 0: N = s.range(3, 64); break;
	case 1: N = s.pick({ 8000, 11025, 16000, 44100, 48000 }); break;
	default: N = s.skewed(3, 200000); break;
	}
	n = s.coin() ? s.range(1, (N - 1) / 2) : s.edgy(1, (N - 1) / 2);
	int kind = s.range(0, 4);
	R q = 0;
	bool given = true;
	if (kind < 2) {
		given = s.coin(2, 3);
		q = R(s.coin(1, 3) ? s.pick({ 0.5, 1.0, 2.0, 4.0 }) : s.coin(3, 4) ? s.logreal(0.1, 100) : s.logreal(0.001, 1e5));
	} else {
		q = R(s.coin(1, 3) ? s.range(-10, 20) : s.coin(3, 4) ? s.real(-10, 20) : s.real(-30, 60));
	}
	L Q = kind < 2 ? (given ? L(q) : 0.70710678118654752440084436210484904L) : powl(10, L(q) / 10);
	s.note("%s %d/%d, Q %Lg", names[kind], n, N, Q);
	switch (kind) {
	case 0: c.lowpass(n, N, Q); if (given) d.lowpass(n, N, q); else d.lowpass(n, N); break;
	case 1: c.highpass(n, N, Q); if (given) d.highpass(n, N, q); else d.highpass(n, N); break;
	case 2: c.notch(n, N, Q); d.notch(n, N, q); break;
	case 3: c.bandpass(n, N, Q); d.bandpass(n, N, q); break;
	case 4: c.allpass(n, N, Q); d.allpass(n, N, q); break;
	}
	s.label(names[kind]);
	// what the names promise, on the reference
	L f = L(n) / N;
	L dc = std::abs(c.response(0)), top = std::abs(c.response(0.5L)), mid = std::abs(c.response(f));
	static const L want_dc[] = { 1, 0, 1, 0, 1 }, want_top[] = { 0, 1, 1, 0, 1 };
	L want_mid = kind < 2 ? Q : kind == 2 ? 0 : 1;
	if (fabsl(dc - want_dc[kind]) > 1e-9L || fabsl(top - want_top[kind]) > 1e-9L || fabsl(mid - want_mid) > 1e-6L * (1 + Q))
		pbt::fail("reference of the %s is wrong: %Lg %Lg %Lg", names[kind], dc, mid, top);
}

template <typename T>
static void history(Src &s)
{
	typedef typename Val<T>::real R;
	typedef DSP::Biquad<T, R> B;
	Dirty<B> d(s.range(0, 3));
	Section c;
	Signal sig(s);
	int len = s.coin(1, 3) ? s.range(1, 8) : s.range(3, 160);
	s.note("%s, %s, %d samples", Val<T>::name(), sig.name(), len);
	bool configured = s.coin(15, 16), changes = s.coin(1, 4);
	Model m;
	m.tiny = 16 * L(std::numeric_limits<R>::min());
	std::vector<T> out;
	L big = 0;
	if (configured)
		configure<B, R>(s, *d, c);
	for (int i = 0; i < len; ++i) {
		if (configured && changes && i && s.coin(1, 30))
			configure<B, R>(s, *d, c);
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		out.push_back((*d)(x));
		CL y = m.step(c, Val<T>::get(x), 0, configured ? 16 * eps<R> : 0);
		big = std::max(big, std::max(mag(Val<T>::get(x)), mag(y)));
	}
	m.finish();
	for (int i = 0; i < len; ++i) {
		if (m.bound[i] > big / 100) {
			s.label("cut off");
			break;
		}
		close(s, "output", out[i], m.y[i], m.bound[i] + 64 * L(std::numeric_limits<R>::min()), i);
	}
	s.nontrivial(configured && len > 2);
}

// gain of settled tones, measured on the output
template <typename R>
static void tones(Src &s)
{
	typedef DSP::Biquad<R, R> B;
	Dirty<B> d(s.range(0, 3));
	int N = s.range(6, 60), n = s.range(1, (N - 1) / 2), kind = s.range(0, 4);
	R q = R(kind < 2 ? s.logreal(0.3, 4) : s.real(-5, 6));
	L Q = kind < 2 ? L(q) : powl(10, L(q) / 10);
	s.note("%s %d/%d, Q %Lg", names[kind], n, N, Q);
	switch (kind) {
	case 0: d->lowpass(n, N, q); break;
	case 1: d->highpass(n, N, q); break;
	case 2: d->notch(n, N, q); break;
	case 3: d->bandpass(n, N, q); break;
	case 4: d->allpass(n, N, q); break;
	}
	int where = s.range(0, 3);
	int k = where == 0 ? 0 : where == 1 ? N : where == 2 ? 2 * n : s.range(0, N);
	// tone at k/(2N) of the rate, measured over a whole period after settling
	int settle = int(40 * N * std::max<L>(Q, 1 / Q)) / 2 / N * 2 * N + 2 * N;
	CL acc = 0;
	for (int i = 0; i < settle + 2 * N; ++i) {
		L t = PI * L((int64_t(i) * k) % (2 * N)) / N;
		L y = (*d)(R(cosl(t)));
		if (i >= settle)
			acc += y * std::polar<L>(1, -t);
	}
	acc /= L(k == 0 || k == N ? 2 * N : N);
	L ratio = tanl(PI * (k == N ? 0 : L(k) / (2 * N))) / tanl(PI * L(n) / N);
	CL want;
	CL sj(0, ratio);
	if (k == N) {
		want = kind == 0 || kind == 3 ? 0 : 1;
	} else {
		CL den = sj * sj + sj / Q + L(1);
		want = kind == 0 ? L(1) / den : kind == 1 ? sj * sj / den : kind == 2 ? (sj * sj + L(1)) / den : kind == 3 ? sj / Q / den : (sj * sj - sj / Q + L(1)) / den;
	}
	L w = std::min<L>(2 * PI * n / N, PI - 2 * PI * n / N);
	L tol = 40 * eps<R> * (1 + Q * Q) * (1 + 1 / Q) / (w * w) + 1e-9L;
	near(s, "gain", acc.real(), want.real(), tol);
	near(s, "gain", acc.imag(), want.imag(), tol);
	s.nontrivial();
	s.label(where == 2, "at the frequency");
}

// settled by construction: rounding errors fade, so that any length can be judged
template <typename T, int NUM>
static void marathon(Src &s)
{
	typedef typename Val<T>::real R;
	Dirty<DSP::Biquad<T, R>> d(s.range(0, 3));
	int N = s.range(5, 40), n = s.range((N + 9) / 10, (4 * N - 1) / 10), len = s.range(70000, 140000);
	bool high = s.coin();
	Signal sig(s);
	s.note("%s, %s %d/%d, %s, %d samples", Val<T>::name(), high ? "high-pass" : "low-pass", n, N, sig.name(), len);
	if (high)
		d->highpass(n, N);
	else
		d->lowpass(n, N);
	Section c[NUM];
	CL x1[NUM] = {}, x2[NUM] = {}, y1[NUM] = {}, y2[NUM] = {};
	for (int k = 0; k < NUM; ++k) {
		L Q = 1 / (2 * cosl(PI * (2 * k + 1) / (4 * NUM)));
		if (high)
			c[k].highpass(n, N, Q);
		else
			c[k].lowpass(n, N, Q);
	}
	L big = 0;
	for (int i = 0; i < len; ++i) {
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		CL v = Val<T>::get(x);
		for (int k = 0; k < NUM; ++k) {
			big = std::max(big, mag(v));
			CL y = c[k].b0 * v + c[k].b1 * x1[k] + c[k].b2 * x2[k] - c[k].a1 * y1[k] - c[k].a2 * y2[k];
			x2[k] = x1[k];
			x1[k] = v;
			y2[k] = y1[k];
			y1[k] = y;
			v = y;
		}
		close(s, "long run", (*d)(x), v, 100 * NUM * eps<R> * big, i);
	}
	s.nontrivial();
}

typedef Types<float, double, DSP::Complex<float>, DSP::Complex<double>> Ts;

PROP(histories, 600000, 6000000) { Ts::any(s, [&](auto t) { history<decltype(t)>(s); }); }
PROP(tones_float, 16000, 160000) { tones<float>(s); }
PROP(tones_double, 16000, 160000) { tones<double>(s); }
PROP(marathons, 96, 960) { Ts::any(s, [&](auto t) { marathon<decltype(t), 1>(s); }); }
