// arrays for sorting and selecting

#pragma once

template <typename T>
static std::vector<T> array(Src &s, int n, const char *&kind)
{
	std::vector<T> a(n);
	Rng rng(s.seed());
	int k = s.range(0, 13);
	static const char *names[] = { "random", "few values", "ascending", "descending", "organ pipe", "sawtooth", "constant",
		"sorted with swaps", "two runs", "extreme values", "nearly constant", "strided", "median killer", "alternating" };
	kind = names[k];
	int few = s.pick({ 2, 3, 4, 7, 1 + n / 4 });
	int m = s.range(1, 40);
	for (int i = 0; i < n; ++i) {
		switch (k) {
		case 0: a[i] = T(int(rng.below(1000000)) - 500000); break;
		case 1: a[i] = T(int(rng.below(few))); break;
		case 2: a[i] = T(i); break;
		case 3: a[i] = T(n - i); break;
		case 4: a[i] = T(i < n / 2 ? i : n - i); break;
		case 5: a[i] = T(i % m); break;
		case 6: a[i] = T(m); break;
		case 7: a[i] = T(i); break;
		case 8: a[i] = T(i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1); break;
		case 9: {
			T ex[5] = { std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), T(0), std::numeric_limits<T>::min(), T(1) };
			a[i] = ex[rng.below(5)];
			break;
		}
		case 10: a[i] = T(int(rng.below(16) == 0 ? rng.below(3) : 1)); break;
		case 11: a[i] = T(int((uint64_t(i) * 7919) % uint64_t(n))); break;
		case 12: a[i] = T(i % 2 ? i : n - i); break;
		case 13: a[i] = T(i % 2 ? 1 : int(rng.below(3))); break;
		}
	}
	if (k == 7)
		for (int i = 0, sw = 1 + int(rng.below(5)); i < sw && n > 1; ++i)
			std::swap(a[rng.below(n)], a[rng.below(n)]);
	return a;
}

static int length(Src &s)
{
	switch (s.range(0, 7)) {
	case 0: return s.range(1, 12);
	case 1: return s.range(28, 40);
	case 2: return s.range(60, 70);
	case 3: return s.range(1, 100);
	case 4: return s.range(100, 400);
	case 5: return s.skewed(1, 5000);
	case 6: return s.range(33, 33 * 4);
	default: return s.range(33, 200);
	}
}

// key and payload, ordered by key only
struct Item
{
	int key, tag;
	Item() : key(0), tag(0) {}
	explicit Item(int k) : key(k), tag(0) {}
	bool operator < (const Item &o) const { return key < o.key; }
	bool operator > (const Item &o) const { return key > o.key; }
	bool operator <= (const Item &o) const { return key <= o.key; }
	bool operator >= (const Item &o) const { return key >= o.key; }
	bool operator == (const Item &o) const { return key == o.key && tag == o.tag; }
	bool operator != (const Item &o) const { return !(*this == o); }
};
namespace std {
template <> struct numeric_limits<Item>
{
	static Item lowest() { return Item(-2147483647 - 1); }
	static Item min() { return Item(-2147483647 - 1); }
	static Item max() { return Item(2147483647); }
};
}
static bool full_less(const Item &a, const Item &b) { return a.key < b.key || (a.key == b.key && a.tag < b.tag); }
template <typename T> static bool full_less(const T &a, const T &b) { return a < b; }
template <typename T> static void tag(std::vector<T> &) {}
static void tag(std::vector<Item> &a) { int i = 0; for (auto &x : a) x.tag = i++; }

template <typename T>
static void permutation(const std::vector<T> &before, Block<T> &after)
{
	std::vector<T> b(before), c(after.data(), after.data() + after.size());
	auto less = [](const T &x, const T &y) { return full_less(x, y); };
	std::sort(b.begin(), b.end(), less);
	std::sort(c.begin(), c.end(), less);
	CHECK(b == c, "not a permutation of the input, length %d", int(before.size()));
}
