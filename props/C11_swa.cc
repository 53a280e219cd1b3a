// RULE: a case is non-trivial when more values than the window holds were given and the window is longer than one
// ASSUME: the operation is associative and commutative, the initial value its identity
// TECH: stateful model-based testing against recomputing the window
#include "dut.hh"
#include "swa.hh"
#include <numeric>

struct Plus { uint32_t operator () (uint32_t a, uint32_t b) const { return a + b; } static constexpr uint32_t ident = 0; static const char *name() { return "sum"; } static uint32_t value(uint64_t r) { return uint32_t(r); } };
struct Times { uint32_t operator () (uint32_t a, uint32_t b) const { return a * b; } static constexpr uint32_t ident = 1; static const char *name() { return "product"; } static uint32_t value(uint64_t r) { return uint32_t(r) | 1; } };
struct Xor { uint32_t operator () (uint32_t a, uint32_t b) const { return a ^ b; } static constexpr uint32_t ident = 0; static const char *name() { return "xor"; } static uint32_t value(uint64_t r) { return uint32_t(r); } };
struct Gcd { uint32_t operator () (uint32_t a, uint32_t b) const { return std::gcd(a, b); } static constexpr uint32_t ident = 0; static const char *name() { return "gcd"; } static uint32_t value(uint64_t r) { return uint32_t(r % 7 + 1) * 12; } };
struct Min { uint32_t operator () (uint32_t a, uint32_t b) const { return a < b ? a : b; } static constexpr uint32_t ident = UINT32_MAX; static const char *name() { return "minimum"; } static uint32_t value(uint64_t r) { return uint32_t(r % 50); } };
struct Max { uint32_t operator () (uint32_t a, uint32_t b) const { return a > b ? a : b; } static constexpr uint32_t ident = 0; static const char *name() { return "maximum"; } static uint32_t value(uint64_t r) { return uint32_t(r % 50); } };
struct Or { uint32_t operator () (uint32_t a, uint32_t b) const { return a | b; } static constexpr uint32_t ident = 0; static const char *name() { return "or"; } static uint32_t value(uint64_t r) { return 1u << (r % 32); } };

typedef Types<Plus, Times, Xor, Gcd, Min, Max, Or> Ops;

template <typename OP, int NUM>
static void history(Src &s, int least = 0)
{
	Dirty<DSP::SWA<uint32_t, OP, NUM>> d(s.range(0, 3), uint32_t(OP::ident));
	int len = s.coin(3, 4) ? s.range(1, 3 * NUM + 4) : s.skewed(1, 300);
	if (least)
		len = s.range(least, 2 * least);
	bool counted = s.coin(1, 3);
	s.note("%s, window %d, %d values", OP::name(), NUM, len);
	Rng rng(s.seed());
	std::vector<uint32_t> in;
	OP op;
	int copy = s.range(0, len);
	for (int i = 0; i < len; ++i) {
		uint32_t v = counted ? OP::value(i) : OP::value(rng());
		in.push_back(v);
		uint32_t got;
		if (i == copy) {
			DSP::SWA<uint32_t, OP, NUM> c(*d);
			got = c(v);
			uint32_t again = (*d)(v);
			CHECK(got == again, "copy differs from the original, window %d", NUM);
		} else {
			got = (*d)(v);
		}
		uint32_t want = OP::ident;
		for (int k = i < NUM ? 0 : i - NUM + 1; k <= i; ++k)
			want = op(want, in[k]);
		CHECK(got == want, "%s of window %d after %d values: got %u, want %u", OP::name(), NUM, i + 1, got, want);
	}
	s.nontrivial(len > NUM && NUM > 1);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129> Lens;

PROP(reductions, 3500000, 50000000)
{
	Lens::any(s, [&](auto n) { Ops::any(s, [&](auto op) { history<decltype(op), n()>(s); }); });
}
PROP(marathons, 160, 1600)
{
	Sizes<1, 2, 5, 8, 17>::any(s, [&](auto n) { Types<Plus, Xor, Max>::any(s, [&](auto op) { history<decltype(op), n()>(s, 70000); }); });
}
// windows beyond the range of 16 bits
template <typename OP, typename BACK, int NUM>
static void wide(Src &s)
{
	Dirty<DSP::SWA<uint32_t, OP, NUM>> d(s.range(0, 3), uint32_t(OP::ident));
	int len = s.range(NUM + 1, 3 * NUM);
	s.note("%s, window %d, %d values", OP::name(), NUM, len);
	Rng rng(s.seed());
	std::vector<uint32_t> in;
	OP op;
	BACK back;
	uint32_t want = OP::ident;
	for (int i = 0; i < len; ++i) {
		uint32_t v = OP::value(rng());
		in.push_back(v);
		want = op(want, v);
		if (i >= NUM)
			want = back(want, in[i - NUM]);
		uint32_t got = (*d)(v);
		CHECK(got == want, "%s of window %d after %d values: got %u, want %u", OP::name(), NUM, i + 1, got, want);
	}
	s.nontrivial(true);
}
PROP(wide_windows, 60, 800)
{
	Sizes<1000, 17000, 32768, 65536, 70001>::any(s, [&](auto n) {
		if (s.coin())
			wide<Plus, std::minus<uint32_t>, n()>(s);
		else
			wide<Xor, std::bit_xor<uint32_t>, n()>(s);
	});
}
