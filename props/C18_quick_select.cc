// RULE: a case is non-trivial when the array is longer than 33 elements and not sorted before
// ASSUME: arrays of up to 5000 elements (200000 in one test); NaN is not an ordered value; ranks are not negative
// TECH: property-based testing against a sorted copy, partition and multiset checks, expected assertions trapped
#include "dut.hh"
#include "quick.hh"
#include "patterns.hh"

template <typename T>
static void selects(Src &s, int n)
{
	const char *kind = "empty";
	std::vector<T> a = array<T>(s, n, kind);
	if (s.coin(1, 4))
		for (int i = 0, k = s.range(1, 4); i < k; ++i)
			std::swap(a[s.range(0, n - 1)], a[s.range(0, n - 1)]);
	tag(a);
	int k = s.coin() ? s.range(0, n - 1) : s.coin() ? n / 2 : s.edgy(0, n - 1);
	s.note("length %d, rank %d, %s", n, k, kind);
	std::vector<T> sorted(a);
	std::sort(sorted.begin(), sorted.end());
	bool trivial = std::is_sorted(a.begin(), a.end());
	Block<T> b(n);
	for (int i = 0; i < n; ++i)
		b[i] = a[i];
	int rounds = s.range(1, 3);
	for (int r = 0; r < rounds; ++r) {
		T got = DSP::quick_select(b.data(), k, n);
		CHECK(!(got < sorted[k]) && !(sorted[k] < got), "wrong value for rank %d of %d (%s, call %d)", k, n, kind, r);
		CHECK(b[k] == got, "value returned is not at position %d of %d (%s)", k, n, kind);
		for (int i = 0; i < k; ++i)
			CHECK(!(got < b[i]), "larger value before rank %d of %d (%s)", k, n, kind);
		for (int i = k + 1; i < n; ++i)
			CHECK(!(b[i] < got), "smaller value after rank %d of %d (%s)", k, n, kind);
		permutation(a, b);
		k = s.range(0, n - 1);
	}
	s.label(kind);
	s.nontrivial(n > 33 && !trivial);
}

PROP(ints, 900000, 18000000) { selects<int>(s, length(s)); }
PROP(floats, 360000, 6000000) { selects<float>(s, length(s)); }
PROP(doubles, 240000, 6000000) { selects<double>(s, length(s)); }
PROP(items, 360000, 6000000) { selects<Item>(s, length(s)); }
PROP(tiny, 600000, 6000000) { selects<int>(s, s.range(1, 8)); }
PROP(large, 600, 12000) { selects<int>(s, s.range(20000, 200000)); }
PROP(refused, 120000, 600000)
{
	int n = s.range(0, 50), k = n ? n + s.range(0, 3) : s.range(0, 3);
	Block<int> b(n + 8);
	for (int i = 0; i < n + 8; ++i)
		b[i] = s.range(0, 100);
	s.note("length %d, rank %d", n, k);
	bool t = pbt::traps([&] { DSP::quick_select(b.data(), k, n); });
	CHECK(t, "rank %d of %d was not refused", k, n);
	s.nontrivial(n > 0);
}
