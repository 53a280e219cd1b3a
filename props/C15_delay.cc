// RULE: a case is non-trivial when more than twice as many values as the length of the line were passed
// ASSUME: lengths 1 to 300, 4096 and 33000 to 70001 stand for all lengths
// TECH: stateful model-based testing against the recorded history
#include "dut.hh"
#include "complex.hh"
#include "delay.hh"

template <typename T> static bool same(const T &a, const T &b) { return a == b; }
template <typename T> static T value(Src &s, int i) { return T(s.coin(3, 4) ? i + 1 : s.range(-100, 100)); }
template <> DSP::Complex<float> value(Src &s, int i) { return DSP::Complex<float>(i + 1, s.range(-100, 100)); }
template <> float value(Src &s, int i) { return s.coin() ? i + 1 : float(s.sample()); }
template <> int8_t value(Src &s, int i) { return s.coin() ? int8_t(i + 1) : int8_t(s.range(-128, 127)); }

template <typename T, int NUM>
static void history(Src &s, int least = 0)
{
	bool def = s.coin(1, 3);
	T init = def ? T(0) : value<T>(s, -77);
	int pattern = s.range(0, 3);
	DSP::Delay<T, NUM> other(value<T>(s, 5));
	int len = NUM > 1000 ? s.range(NUM, 3 * NUM) : s.coin(3, 4) ? s.range(1, 4 * NUM + 3) : s.skewed(1, 1000);
	if (least)
		len = s.range(least, 2 * least);
	int copy = s.range(0, len);
	s.note("length %d, %s initial value, %d inputs, copy after %d", NUM, def ? "default" : "given", len, copy);
	Rng rng(s.seed());
	bool bulk = len > 300;
	Dirty<DSP::Delay<T, NUM>> a(pattern), b(pattern, init);
	DSP::Delay<T, NUM> *d = def ? &*a : &*b;
	std::vector<T> in;
	for (int i = 0; i < len; ++i) {
		if (i == copy) {
			DSP::Delay<T, NUM> c(*d);
			for (int k = 0; k < NUM + 1 && k < 40; ++k) {
				T got = c(T(99));
				T want = k < NUM ? (i + k < NUM ? init : in[i + k - NUM]) : T(99);
				CHECK(::same(got, want), "copy after %d of length %d returns a wrong value after %d more", i, NUM, k);
			}
			other = c;
		}
		T v = bulk ? T(int(rng.below(200)) - 100) : value<T>(s, i);
		T got = (*d)(v);
		in.push_back(v);
		T want = i < NUM ? init : in[i - NUM];
		CHECK(::same(got, want), "delay of %d: output %d of %d is wrong", NUM, i, len);
		if (i % 7 == 3)
			other(T(i));
	}
	s.label(len > NUM, "longer than the line");
	s.nontrivial(len > 2 * NUM);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 300, 4096> Lens;

PROP(ints, 1600000, 24000000) { Lens::any(s, [&](auto n) { history<int, n()>(s); }); }
PROP(floats, 1600000, 24000000) { Lens::any(s, [&](auto n) { history<float, n()>(s); }); }
PROP(bytes, 800000, 8000000) { Lens::any(s, [&](auto n) { history<int8_t, n()>(s); }); }
PROP(complex_values, 1200000, 16000000) { Lens::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(marathons, 160, 1600) { Sizes<1, 2, 5, 8, 17, 100>::any(s, [&](auto n) { history<int, n()>(s, 70000); }); }
PROP(wide_lines, 60, 600) { Sizes<33000, 65536, 70001>::any(s, [&](auto n) { history<int, n()>(s); }); }
