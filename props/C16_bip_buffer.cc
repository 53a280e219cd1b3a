// RULE: a case is non-trivial when more than twice as many values as the length were inserted
// ASSUME: lengths 1 to 300, 4096 and 17000 to 70001 stand for all lengths
// TECH: stateful model-based testing against the recorded history
#include "dut.hh"
#include "complex.hh"
#include "bip_buffer.hh"

template <typename T> static T value(Src &s, int i) { return T(s.coin(3, 4) ? i + 1 : s.range(-100, 100)); }
template <> DSP::Complex<float> value(Src &s, int i) { return DSP::Complex<float>(i + 1, s.range(-100, 100)); }

template <typename T, int NUM>
static void view(DSP::BipBuffer<T, NUM> &b, const T *p, const std::vector<T> &in, const char *what)
{
	const char *lo = reinterpret_cast<const char *>(&b), *q = reinterpret_cast<const char *>(p);
	CHECK(q >= lo && q + NUM * sizeof(T) <= lo + sizeof(b), "view lies outside of the buffer, length %d after %d values (%s)", NUM, int(in.size()), what);
	int n = in.size();
	for (int i = 0; i < NUM; ++i) {
		int k = n - NUM + i;
		T want = k < 0 ? T(0) : in[k];
		CHECK(p[i] == want, "wrong value at %d of %d after %d values (%s)", i, NUM, n, what);
	}
}

template <typename T, int NUM>
static void history(Src &s, int least = 0)
{
	Dirty<DSP::BipBuffer<T, NUM>> b(s.range(0, 3));
	DSP::BipBuffer<T, NUM> other;
	std::vector<T> in;
	int len = NUM > 1000 ? s.range(NUM, 5 * NUM) : s.coin(3, 4) ? s.range(1, 5 * NUM + 3) : s.skewed(1, 1000);
	if (least)
		len = s.range(least, 2 * least);
	s.note("length %d, %d values", NUM, len);
	int every = NUM > 10000 ? s.range(NUM / 16, NUM) : NUM > 64 ? s.range(1, NUM) : 1;
	Rng rng(s.seed());
	if (s.coin())
		view(*b, (*b)(), in, "query before the first value");
	int queries = 0;
	for (int i = 0; i < len; ++i) {
		T v = len > 300 ? T(int(rng.below(1000)) - 500) : value<T>(s, i);
		in.push_back(v);
		const T *p = (*b)(v);
		bool look = i % every == 0 || i == len - 1;
		if (look)
			view(*b, p, in, "after inserting");
		if (len <= 300 ? s.coin(1, 4) : rng.below(16) == 0) {
			const T *r = (*b)();
			if (look)
				view(*b, r, in, "query");
			++queries;
		}
		if (len <= 300 && s.coin(1, 32)) {
			other = *b;
			view(other, other(), in, "copy");
			std::vector<T> more(in);
			for (int k = 0; k < 3; ++k) {
				more.push_back(T(70 + k));
				view(other, other(T(70 + k)), more, "copy after more values");
			}
		}
	}
	s.label(queries > 0, "queried without inserting");
	s.nontrivial(len > 2 * NUM);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 300, 4096> Lens;

PROP(ints, 600000, 6000000) { Lens::any(s, [&](auto n) { history<int, n()>(s); }); }
PROP(floats, 600000, 6000000) { Lens::any(s, [&](auto n) { history<float, n()>(s); }); }
PROP(complex_values, 400000, 4000000) { Lens::any(s, [&](auto n) { history<DSP::Complex<float>, n()>(s); }); }
PROP(marathons, 160, 1600) { Sizes<1, 2, 5, 8, 17, 100>::any(s, [&](auto n) { history<int, n()>(s, 70000); }); }
PROP(wide_buffers, 60, 600) { Sizes<17000, 33000, 70001>::any(s, [&](auto n) { history<int, n()>(s); }); }
