// RULE: a case is non-trivial when more values than the window holds were given and the window is longer than one
// ASSUME: no NaN and no infinities among floating-point inputs
// TECH: stateful model-based testing against recomputing the window
#include "dut.hh"
#include "movext.hh"
#include <set>

template <typename T>
static T extreme(uint64_t r)
{
	switch (r % 6) {
	case 0: return std::numeric_limits<T>::max();
	case 1: return std::numeric_limits<T>::lowest();
	case 2: return std::numeric_limits<T>::min();
	case 3: return T(0);
	case 4: return T(-1);
	default: return T(1);
	}
}

template <typename T, int NUM>
static void history(Src &s, int least = 0)
{
	int pattern = s.range(0, 3);
	Dirty<DSP::MovMin<T, NUM>> lo(pattern);
	Dirty<DSP::MovMax<T, NUM>> hi(pattern);
	int len = s.coin(3, 4) ? s.range(1, 4 * NUM + 4) : s.skewed(1, 600);
	if (least)
		len = s.range(least, 2 * least);
	int kind = s.range(0, 9);
	static const char *names[] = { "small alphabet", "random", "ascending", "descending", "steps", "sawtooth", "extremes", "negative", "drawn", "tiny magnitudes" };
	s.note("window %d, %d values, %s", NUM, len, names[kind]);
	int m = s.range(1, 6), period = s.range(1, 2 * NUM + 2);
	Rng rng(s.seed());
	std::vector<T> in;
	int copy = s.range(0, len);
	bool dup = false;
	for (int i = 0; i < len; ++i) {
		T v = T(0);
		switch (kind) {
		case 0: v = T(int(rng.below(m + 1))); break;
		case 1: v = T(int(rng.below(200)) - 100); break;
		case 2: v = T(i % 100); break;
		case 3: v = T(100 - i % 120); break;
		case 4: v = T(int((i / period) * 37 % 11) - 5); break;
		case 5: v = T(i % period - period / 2); break;
		case 6: v = extreme<T>(rng()); break;
		case 7: v = T(-1 - int(rng.below(m * 10))); break;
		case 8: v = T(s.range(0, 8) - 4); break;
		case 9: v = std::numeric_limits<T>::is_integer ? T(int(rng.below(3))) : T(rng.sym() * 1e-30); break;
		}
		if (i && v == in[rng.below(i)])
			dup = true;
		in.push_back(v);
		T mn = v, mx = v;
		for (int k = i < NUM ? 0 : i - NUM + 1; k < i; ++k) {
			if (in[k] < mn)
				mn = in[k];
			if (in[k] > mx)
				mx = in[k];
		}
		T gmn, gmx;
		if (i == copy) {
			DSP::MovMin<T, NUM> a(*lo);
			DSP::MovMax<T, NUM> b(*hi);
			gmn = a(v);
			gmx = b(v);
			CHECK(gmn == mn && gmx == mx, "copy of window %d returns a wrong extremum after %d values", NUM, i + 1);
		}
		gmn = (*lo)(v);
		gmx = (*hi)(v);
		CHECK(gmn == mn, "minimum of window %d after %d values: got %.9g, want %.9g", NUM, i + 1, double(gmn), double(mn));
		CHECK(gmx == mx, "maximum of window %d after %d values: got %.9g, want %.9g", NUM, i + 1, double(gmx), double(mx));
	}
	s.label(dup, "repeated values");
	s.label(names[kind]);
	s.nontrivial(len > NUM && NUM > 1);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 100> Lens;

PROP(ints, 2000000, 32000000) { Lens::any(s, [&](auto n) { history<int, n()>(s); }); }
PROP(bytes, 1200000, 20000000) { Lens::any(s, [&](auto n) { history<int8_t, n()>(s); }); }
PROP(floats, 1600000, 24000000) { Lens::any(s, [&](auto n) { history<float, n()>(s); }); }
PROP(doubles, 800000, 12000000) { Lens::any(s, [&](auto n) { history<double, n()>(s); }); }
PROP(unsigneds, 800000, 12000000) { Lens::any(s, [&](auto n) { history<uint16_t, n()>(s); }); }
PROP(marathons, 160, 1600) { Sizes<1, 2, 5, 8, 17>::any(s, [&](auto n) { history<int, n()>(s, 70000); }); }
PROP(marathons_float, 160, 1600) { Sizes<1, 2, 5, 8, 17>::any(s, [&](auto n) { history<float, n()>(s, 70000); }); }
// windows beyond the range of 16 bits
template <typename T, int NUM>
static void wide(Src &s)
{
	struct Both { DSP::MovMin<T, NUM> lo; DSP::MovMax<T, NUM> hi; };
	Dirty<Both> d(s.range(0, 3));
	int len = s.range(NUM + 1, 3 * NUM), kind = s.range(0, 4), m = s.range(1, 100);
	s.note("window %d, %d values, kind %d", NUM, len, kind);
	Rng rng(s.seed());
	std::vector<T> in;
	std::multiset<T> window;
	for (int i = 0; i < len; ++i) {
		T v = T(0);
		switch (kind) {
		case 0: v = T(int(rng.below(m + 1))); break;
		case 1: v = T(int(rng.below(2000000)) - 1000000); break;
		case 2: v = T(i); break;
		case 3: v = T(-i); break;
		case 4: v = T(i / NUM % 2 ? i : -i); break;
		}
		in.push_back(v);
		window.insert(v);
		if (i >= NUM)
			window.erase(window.find(in[i - NUM]));
		T lo = d->lo(v), hi = d->hi(v);
		CHECK(lo == *window.begin(), "minimum of window %d after %d values: got %.9g, want %.9g", NUM, i + 1, double(lo), double(*window.begin()));
		CHECK(hi == *window.rbegin(), "maximum of window %d after %d values: got %.9g, want %.9g", NUM, i + 1, double(hi), double(*window.rbegin()));
	}
	s.nontrivial(true);
}
PROP(wide_windows, 80, 800)
{
	Sizes<300, 1000, 33000, 70001>::any(s, [&](auto n) {
		if (s.coin())
			wide<int, n()>(s);
		else
			wide<float, n()>(s);
	});
}
