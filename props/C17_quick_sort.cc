// RULE: a case is non-trivial when the array is longer than 33 elements and not sorted before
// ASSUME: arrays of up to 5000 elements (200000 in one test); NaN is not an ordered value
// TECH: property-based testing: order and multiset equality with the input
#include "dut.hh"
#include "quick.hh"
#include "patterns.hh"

template <typename T>
static void sorts(Src &s, int n)
{
	const char *kind = "empty";
	std::vector<T> a;
	if (n)
		a = array<T>(s, n, kind);
	if (s.coin(1, 4))
		for (int i = 0, k = s.range(1, 4); i < k && n; ++i)
			std::swap(a[s.range(0, n - 1)], a[s.range(0, n - 1)]);
	tag(a);
	s.note("length %d, %s", n, kind);
	if (n <= 40)
		for (auto &x : a)
			s.note("%d", int(*(const int *)&x));
	Block<T> b(n);
	for (int i = 0; i < n; ++i)
		b[i] = a[i];
	DSP::quick_sort(b.data(), n);
	for (int i = 1; i < n; ++i)
		CHECK(!(b[i] < b[i - 1]), "not ascending at %d of %d (%s)", i, n, kind);
	permutation(a, b);
	s.label(kind);
	s.nontrivial(n > 33 && !std::is_sorted(a.begin(), a.end()));
}

template <typename T>
static void small_alphabet(Src &s)
{
	int n = s.range(0, 80), m = s.range(1, 5);
	std::vector<T> a(n);
	Block<T> b(n);
	for (int i = 0; i < n; ++i)
		b[i] = a[i] = T(s.range(0, m));
	s.note("length %d, values up to %d", n, m);
	DSP::quick_sort(b.data(), n);
	for (int i = 1; i < n; ++i)
		CHECK(!(b[i] < b[i - 1]), "not ascending at %d of %d", i, n);
	permutation(a, b);
	s.nontrivial(n > 33);
}

PROP(ints, 2000000, 40000000) { sorts<int>(s, length(s)); }
PROP(floats, 800000, 16000000) { sorts<float>(s, length(s)); }
PROP(doubles, 480000, 8000000) { sorts<double>(s, length(s)); }
PROP(items, 480000, 8000000) { sorts<Item>(s, length(s)); }
PROP(alphabet, 2400000, 40000000) { small_alphabet<int>(s); }
PROP(tiny, 800000, 8000000) { sorts<int>(s, s.range(0, 8)); }
PROP(large, 800, 16000) { sorts<int>(s, s.range(20000, 200000)); }
