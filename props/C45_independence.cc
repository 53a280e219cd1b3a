// RULE: a case is non-trivial when at least two objects were used in turns and an object was copied
// ASSUME: all objects sit at addresses of the same alignment, so that equal calls round equally and outputs can be compared bit by bit
// TECH: metamorphic testing of histories: objects used in turns, copied, assigned and moved in memory against each one used alone
#include <memory>
#include "dut.hh"
using std::conj;
using std::norm;
using std::arg;
#include "const.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"
#include "bip_buffer.hh"
#include "biquad.hh"
#include "blockdc.hh"
#include "calculus.hh"
#include "cdc.hh"
#include "delay.hh"
#include "deque.hh"
#include "ema.hh"
#include "fdzp.hh"
#include "fft.hh"
#include "fmd.hh"
#include "hilbert.hh"
#include "kahan.hh"
#include "lms.hh"
#include "movext.hh"
#include "normalize.hh"
#include "phasor.hh"
#include "regression.hh"
#include "repeated_median.hh"
#include "resampler.hh"
#include "sma.hh"
#include "spline.hh"
#include "stack.hh"
#include "swa.hh"
#include "theil_sen.hh"
#include "trigger.hh"

typedef DSP::Complex<float> CF;
typedef DSP::Complex<double> CD;
typedef std::vector<double> Out;

static float in(Rng &r) { return float(r.below(5) ? r.sym() : r.range(-2, 2)); }
template <typename C> static C inc(Rng &r) { float a = in(r); return C(a, in(r)); }
static void put(Out &o, double v) { o.push_back(v); }
static void put(Out &o, const CF &v) { o.push_back(v.real()); o.push_back(v.imag()); }
static void put(Out &o, const CD &v) { o.push_back(v.real()); o.push_back(v.imag()); }

// how an object is made from random numbers and what a call on it is
template <typename O>
struct Use
{
	void *(*make)(void *, Rng &);
	void (*step)(O &, Rng &, Out &);
};

template <typename O>
class Holder
{
	void *mem;
public:
	O *obj;
	Holder(int pattern)
	{
		static const unsigned char pat[4] = { 0xff, 0x55, 0x00, 0x7f };
		mem = aligned_alloc(64, (sizeof(O) + 63) / 64 * 64);
		memset(mem, pat[pattern & 3], sizeof(O));
		asm volatile("" : : "r"(mem) : "memory");
		obj = nullptr;
	}
	void make(const Use<O> &u, Rng &r) { obj = static_cast<O *>(u.make(mem, r)); }
	void copy(const O &o) { obj = new (mem) O(o); }
	Holder(const Holder &) = delete;
	Holder &operator=(const Holder &) = delete;
	~Holder()
	{
		if (obj)
			obj->~O();
		memset(mem, 0xa5, sizeof(O));
		asm volatile("" : : "r"(mem) : "memory");
		free(mem);
	}
};

static bool same(const Out &a, size_t at, const Out &b)
{
	return at + b.size() <= a.size() && (b.empty() || memcmp(&a[at], &b[0], b.size() * sizeof(double)) == 0);
}

template <typename O>
struct Stream
{
	uint64_t setup, input;
	Out alone, out;
	size_t at = 0;
	int len, done = 0;
	std::unique_ptr<Holder<O>> holder;
	Rng rng;
	Stream(uint64_t a, uint64_t b, int n) : setup(a), input(b), len(n), rng(b) {}
};

template <typename O>
static void judge(Src &s, const char *name, const Use<O> &use, int most)
{
	int count = s.range(2, 4);
	bool like = s.coin();
	uint64_t first = s.seed();
	Rng dirt(s.seed());
	std::vector<Stream<O>> streams;
	s.note("%s, %d objects", name, count);
	for (int i = 0; i < count; ++i) {
		uint64_t b = s.seed();
		streams.emplace_back(like || !i ? first : s.seed(), b, s.range(1, most));
	}
	for (Stream<O> &t: streams) {
		Holder<O> h(2);
		Rng setup(t.setup), input(t.input);
		h.make(use, setup);
		for (int i = 0; i < t.len; ++i)
			use.step(*h.obj, input, t.alone);
	}
	auto check = [&](Stream<O> &t, const Out &o, const char *who) {
		if (!same(t.alone, t.at, o)) {
			std::string text;
			for (size_t i = 0; i < o.size() && i < 4; ++i)
				text += pbt::format(" %.9g instead of %.9g,", o[i], t.alone[t.at + i]);
			pbt::fail("%s: call %d of object %d%s gave%s", name, t.done, int(&t - &streams[0]), who, text.c_str());
		}
	};
	int copies = 0, turns = 0, last = -1;
	while (true) {
		std::vector<int> left;
		for (int i = 0; i < count; ++i)
			if (streams[i].done < streams[i].len)
				left.push_back(i);
		if (left.empty())
			break;
		int i = left[s.range(0, int(left.size()) - 1)];
		Stream<O> &t = streams[i];
		turns += last >= 0 && last != i;
		last = i;
		if (!t.holder) {
			t.holder.reset(new Holder<O>(int(dirt.below(4))));
			Rng setup(t.setup);
			t.holder->make(use, setup);
		} else if (s.coin(1, 4)) {
			++copies;
			std::unique_ptr<Holder<O>> h(new Holder<O>(int(dirt.below(4))));
			switch (s.range(0, 2)) {
			case 0:
				// go on with the copy
				h->copy(*t.holder->obj);
				t.holder.swap(h);
				break;
			case 1: {
				// let the copy run ahead and go on with the original
				h->copy(*t.holder->obj);
				Rng ahead = t.rng;
				size_t at = t.at;
				int done = t.done;
				for (int n = s.range(1, 3); n > 0 && t.done < t.len; --n) {
					Out o;
					use.step(*h->obj, ahead, o);
					check(t, o, " (copy)");
					t.at += o.size();
					++t.done;
				}
				t.at = at;
				t.done = done;
				break; }
			case 2: {
				// assign to an object that has been used differently
				Rng other(dirt()), noise(dirt());
				h->make(use, other);
				Out o;
				for (int n = s.range(0, 3); n > 0; --n)
					use.step(*h->obj, noise, o);
				*h->obj = *t.holder->obj;
				t.holder.swap(h);
				break; }
			}
		}
		Out o;
		use.step(*t.holder->obj, t.rng, o);
		check(t, o, "");
		t.at += o.size();
		++t.done;
	}
	s.label(name);
	s.nontrivial(turns > 1 && copies > 0);
}

#define USE(NAME, MOST, ARGS, ...) [](Src &s) { \
	typedef __VA_ARGS__ O; \
	Use<O> u; \
	u.make = [](void *p, Rng &r) -> void * { (void)r; return new (p) O ARGS; }; \
	u.step = [](O &o, Rng &r, Out &out) { (void)r; Step<O>::run(o, r, out); }; \
	judge<O>(s, NAME, u, MOST); }

// by default a call takes and gives one value
template <typename O>
struct Step { static void run(O &o, Rng &r, Out &out) { put(out, o(in(r))); } };

#define STEP(...) struct Step<__VA_ARGS__> { typedef __VA_ARGS__ O; static void run(O &o, Rng &r, Out &out)
#define END };

template <typename T> STEP(DSP::Biquad<T, T>) { if (r.below(6) == 0) { int n = int(r.range(1, 15)); switch (r.below(3)) { case 0: o.lowpass(n, 32); break; case 1: o.notch(n, 32, T(3)); break; case 2: o.highpass(n, 32, T(1)); break; } } put(out, o(in(r))); } END
template <typename T, int N> STEP(DSP::BiquadCascade<T, T, N>) { if (r.below(6) == 0) o.lowpass(int(r.range(1, 15)), 32); put(out, o(in(r))); } END
template <typename T> STEP(DSP::EMA<T, T>) { if (r.below(6) == 0) o.samples(int(r.range(1, 15))); put(out, o(in(r))); } END
template <typename T, int N> STEP(DSP::EMACascade<T, T, N>) { if (r.below(6) == 0) o.cutoff(int(r.range(1, 8)), 64); put(out, o(in(r))); } END
template <typename T> STEP(DSP::BlockDC<T, T>) { if (r.below(6) == 0) o.samples(int(r.range(1, 15))); put(out, o(in(r))); } END
template <typename T> STEP(DSP::NormalizeSine<T>) { if (r.below(6) == 0) o.samples(int(r.range(2, 15))); put(out, o(in(r) + 3)); } END
template <typename T> STEP(DSP::NormalizeIQ<T>) { if (r.below(6) == 0) o.samples(int(r.range(2, 15))); put(out, o(inc<T>(r))); } END
template <typename T> STEP(DSP::Phasor<T>) { switch (r.below(8)) { case 0: o.omega(int(r.range(-7, 7)), 15); break; case 1: o.freq(in(r)); break; case 2: if (r.below(3) == 0) o.reset(); break; default: break; } put(out, o()); } END
template <typename T, int N> STEP(DSP::CDC<T, N>) { float a = in(r); put(out, o(a, in(r))); } END
template <typename T> STEP(DSP::FMD1<T>) { if (r.below(6) == 0) o.bandwidth(1 + in(r) / 4); put(out, o(inc<T>(r) + T(4, 0))); } END
template <typename T> STEP(DSP::FMD2<T>) { if (r.below(6) == 0) o.bandwidth(1 + in(r) / 4); put(out, o(inc<T>(r) + T(4, 0))); } END
template <typename T> STEP(DSP::FMD3<T>) { if (r.below(6) == 0) o.bandwidth(1 + in(r) / 4); put(out, o(inc<T>(r) + T(4, 0))); } END
template <typename T> STEP(DSP::FMD4<T>) { if (r.below(6) == 0) o.bandwidth(1 + in(r) / 4); put(out, o(inc<T>(r) + T(4, 0))); } END
template <typename T> STEP(DSP::FMD5<T>) { if (r.below(6) == 0) o.bandwidth(1 + in(r) / 4); put(out, o(inc<T>(r) + T(4, 0))); } END
template <typename T> STEP(DSP::AMD1<T>) { if (r.below(6) == 0) { float a = 0.3f + in(r) / 8; o.agc(a, a / 2); o.index(1 + in(r) / 4); } put(out, o(inc<T>(r))); } END
template <typename T, int N> STEP(DSP::SMA1<T, T, N>) { put(out, o(in(r))); if (r.below(3) == 0) put(out, o.abs_dev()); } END
template <typename T, int N> STEP(DSP::BipBuffer<T, N>) { const T *p = r.below(4) ? o(in(r)) : o(); for (int i = 0; i < N; ++i) put(out, p[i]); } END
template <typename T, int N> STEP(DSP::Stack<T, N>) {
	switch (r.below(4)) {
	case 0: if (!o.empty()) o.pop(); break;
	case 1: if (r.below(8) == 0) o.clear(); break;
	default: if (!o.full()) o.push(in(r)); break;
	}
	put(out, o.size());
	if (!o.empty()) { put(out, o.top()); put(out, o.first()); }
} END
template <typename T, int N> STEP(DSP::Deque<T, N>) {
	switch (r.below(6)) {
	case 0: if (!o.empty()) o.pop_back(); break;
	case 1: if (!o.empty()) o.pop_front(); break;
	case 2: if (r.below(8) == 0) o.clear(); break;
	case 3: if (!o.full()) o.push_front(in(r)); break;
	default: if (!o.full()) o.push_back(in(r)); break;
	}
	put(out, o.size());
	if (!o.empty()) { put(out, o.front()); put(out, o.back()); }
} END
template <typename T, int N> STEP(DSP::NLMS<T, N>) { float x = in(r), d = in(r); put(out, o(x, d, 1 + in(r) / 4)); const T *w = o; for (int i = 0; i < N; ++i) put(out, w[i]); } END
template <typename T, int N> STEP(DSP::NCLMS<T, N>) { T x = inc<T>(r), d = inc<T>(r); put(out, o(x, d, 1 + in(r) / 4)); const T *w = o; for (int i = 0; i < N; ++i) put(out, w[i]); } END
template <typename T> STEP(DSP::Kahan<T>) { if (r.below(4) == 0) put(out, o.same(in(r))); else put(out, o(in(r))); put(out, o()); } END
template <> STEP(DSP::FallingEdgeTrigger) { put(out, o(r.below(2))); } END
template <> STEP(DSP::RisingEdgeTrigger) { put(out, o(r.below(2))); } END
template <typename T, int N, int M> STEP(DSP::Resampler<T, N, M>) {
	alignas(64) T x[40], y[40] = { };
	for (int i = 0; i < 40; ++i) x[i] = in(r);
	o(y, x, in(r) / 4, 40);
	for (int i = 0; i < 40; ++i) put(out, y[i]);
} END
template <typename T, int N, int M> STEP(DSP::Resampler2<T, T, N, M>) { T y[2]; T x = in(r); int n = o(y, x, in(r) / 8); put(out, n); for (int i = 0; i < n; ++i) put(out, y[i]); } END
template <int N, typename T, int S> STEP(DSP::FastFourierTransform<N, T, S>) {
	alignas(64) T x[N], y[N];
	for (int i = 0; i < N; ++i) x[i] = inc<T>(r);
	o(y, x);
	for (int i = 0; i < N; ++i) put(out, y[i]);
} END
template <int N, typename T> STEP(DSP::RealToHalfComplexTransform<N, T>) {
	alignas(64) typename T::value_type x[N];
	alignas(64) T y[N/2+1];
	for (int i = 0; i < N; ++i) x[i] = in(r);
	o(y, x);
	for (int i = 0; i <= N/2; ++i) put(out, y[i]);
} END
template <int N, int M, typename T> STEP(DSP::FDZP<N, M, T>) {
	alignas(64) T x[M], y[N];
	for (int i = 0; i < M; ++i) x[i] = inc<T>(r);
	o(y, x);
	for (int i = 0; i < N; ++i) put(out, y[i]);
} END
template <typename O, typename T>
static void points(O &o, Rng &r, Out &out)
{
	alignas(64) T x[8], y[8];
	int n = int(r.range(2, 8));
	for (int i = 0; i < n; ++i) {
		x[i] = i;
		y[i] = in(r);
	}
	if (r.below(3))
		o.compute(x, y, n);
	put(out, o.slope());
	put(out, o.yint());
	put(out, o.xint());
	put(out, o(in(r)));
}
template <typename T, int N> STEP(DSP::TheilSenEstimator<T, N>) { points<O, T>(o, r, out); } END
template <typename T, int N> STEP(DSP::RepeatedMedianEstimator<T, N>) { points<O, T>(o, r, out); } END
template <typename T, int N> STEP(DSP::RepeatedMedianEstimator2<T, N>) { points<O, T>(o, r, out); } END

template <typename T>
struct Data
{
	alignas(64) T v[9];
	Data(Rng &r) { for (T &x: v) x = in(r); }
	operator const T *() const { return v; }
};

typedef void (*Case)(Src &);

static const Case filters[] = {
	USE("EMA", 40, (float(r.sym())), DSP::EMA<float, float>),
	USE("EMA cascade", 40, , DSP::EMACascade<float, float, 3>),
	USE("Biquad", 40, , DSP::Biquad<float, float>),
	USE("Biquad double", 40, , DSP::Biquad<double, double>),
	USE("Biquad cascade", 40, , DSP::BiquadCascade<float, float, 3>),
	USE("DC blocker", 40, , DSP::BlockDC<float, float>),
	USE("sine normalizer", 40, , DSP::NormalizeSine<float>),
	USE("I/Q normalizer", 40, , DSP::NormalizeIQ<CF>),
	USE("oscillator", 40, , DSP::Phasor<CF>),
	USE("oscillator double", 40, , DSP::Phasor<CD>),
	USE("Hilbert", 40, (float(2 + r.sym())), DSP::Hilbert<CF, 13>),
	USE("down converter", 40, (float(2 + r.sym())), DSP::CDC<CF, 13>),
	USE("FM 1", 40, , DSP::FMD1<CF>),
	USE("FM 2", 40, , DSP::FMD2<CF>),
	USE("FM 3", 40, , DSP::FMD3<CF>),
	USE("FM 4", 40, , DSP::FMD4<CF>),
	USE("FM 5", 40, , DSP::FMD5<CF>),
	USE("AM", 40, , DSP::AMD1<CF>),
	USE("integrator", 40, (float(r.sym())), DSP::Integrator<float>),
	USE("differentiator", 40, (float(r.sym())), DSP::Differentiator<float>),
	USE("NLMS", 40, , DSP::NLMS<float, 5>),
	USE("NCLMS", 40, , DSP::NCLMS<CF, 5>),
	USE("Schmitt trigger", 40, (float(r.unit() / 2)), DSP::SchmittTrigger<float>),
	USE("falling edge trigger", 40, (r.below(2) != 0), DSP::FallingEdgeTrigger),
	USE("rising edge trigger", 40, (r.below(2) != 0), DSP::RisingEdgeTrigger),
};

static const Case windows[] = {
	USE("SMA 1", 40, , DSP::SMA1<float, float, 7>),
	USE("SMA 2", 40, , DSP::SMA2<float, float, 7>),
	USE("SMA 3", 40, , DSP::SMA3<float, float, 7>),
	USE("SMA 4", 40, , DSP::SMA4<float, float, 7>),
	USE("sliding window", 40, (0.f), DSP::SWA<float, std::plus<float>, 6>),
	USE("delay", 40, (float(r.sym())), DSP::Delay<float, 5>),
	USE("moving minimum", 40, , DSP::MovMin<float, 5>),
	USE("moving maximum", 40, , DSP::MovMax<float, 5>),
	USE("bip buffer", 40, , DSP::BipBuffer<float, 5>),
	USE("stack", 40, , DSP::Stack<float, 5>),
	USE("deque", 40, , DSP::Deque<float, 5>),
	USE("Kahan sum", 40, (float(r.sym())), DSP::Kahan<float>),
};

static const Case blocks[] = {
	USE("resampler", 6, (1, 0.45f, float(1 + r.unit())), DSP::Resampler<float, 9, 4>),
	USE("streaming resampler", 40, (1, 0.45f, float(1 + r.unit())), DSP::Resampler2<float, float, 9, 4>),
	USE("FFT 12", 6, , DSP::FastFourierTransform<12, CF, -1>),
	USE("FFT 35", 6, , DSP::FastFourierTransform<35, CF, 1>),
	USE("real FFT", 6, , DSP::RealToHalfComplexTransform<24, CF>),
	USE("zero padding", 6, , DSP::FDZP<16, 9, CF>),
	USE("Theil-Sen", 10, , DSP::TheilSenEstimator<float, 8>),
	USE("repeated median 1", 10, , DSP::RepeatedMedianEstimator<float, 8>),
	USE("repeated median 2", 10, , DSP::RepeatedMedianEstimator2<float, 8>),
	USE("regression", 10, (Data<float>(r), 9), DSP::SimpleLinearRegression<float>),
	USE("spline", 10, (Data<float>(r)), DSP::UniformNaturalCubicSpline<9, float, float>),
};

template <size_t N>
static void any(Src &s, const Case (&c)[N]) { c[s.range(0, int(N) - 1)](s); }

PROP(filter, 150000, 1500000) { any(s, filters); }
PROP(window, 100000, 1000000) { any(s, windows); }
PROP(block, 60000, 600000) { any(s, blocks); }
