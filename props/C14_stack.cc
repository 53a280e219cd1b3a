// RULE: a case is non-trivial when the stack was full once or popped down after growing
// ASSUME: the element type is copyable; assertions are enabled (no NDEBUG)
// TECH: stateful model-based testing against std::vector, expected assertions trapped
#include "dut.hh"
#include "stack.hh"

struct Pair
{
	int a, b;
	Pair(int v = 0) : a(v), b(~v) {}
	bool operator == (const Pair &o) const { return a == o.a && b == o.b && b == ~a; }
};

template <typename T, int SIZE>
static void compare(DSP::Stack<T, SIZE> &d, const std::vector<T> &m, const char *when)
{
	CHECK(d.size() == int(m.size()), "size %d, want %d after %s", d.size(), int(m.size()), when);
	CHECK(d.max_size() == SIZE, "max_size %d, want %d after %s", d.max_size(), SIZE, when);
	CHECK(d.empty() == m.empty(), "empty wrong after %s", when);
	CHECK(d.full() == (int(m.size()) == SIZE), "full wrong after %s", when);
	if (!m.empty()) {
		CHECK(d.top() == m.back(), "top wrong after %s, capacity %d, size %d", when, SIZE, int(m.size()));
		CHECK(d.first() == m.front(), "first wrong after %s, capacity %d, size %d", when, SIZE, int(m.size()));
	}
}

template <typename T, int SIZE>
static void drain(DSP::Stack<T, SIZE> d, std::vector<T> m)
{
	while (!m.empty()) {
		compare(d, m, "draining");
		d.pop();
		m.pop_back();
	}
	compare(d, m, "draining");
}

template <typename T, int SIZE>
static void history(Src &s, int least = 0)
{
	Dirty<DSP::Stack<T, SIZE>> dut(s.range(0, 3));
	auto &d = *dut;
	std::vector<T> m;
	compare(d, m, "construction");
	int steps = s.coin(3, 4) ? s.range(1, 20 + 3 * SIZE) : s.skewed(1, 400);
	if (least)
		steps = s.range(least, 2 * least);
	int bias = s.range(0, 3);
	s.note("capacity %d, %d steps, bias %d", SIZE, steps, bias);
	int pushes = 0, pops = 0;
	bool full = false, trapped = false, cleared = false;
	for (int i = 0; i < steps; ++i) {
		int op = s.range(0, 15);
		const char *when = "";
		if (op == 15 && s.coin(1, 3)) {
			when = "clear";
			d.clear();
			m.clear();
			cleared = true;
		} else if (op == 14) {
			when = "copy";
			DSP::Stack<T, SIZE> c(d);
			drain(c, m);
			if (!m.empty())
				c = d, drain(c, m);
		} else if (op == 13) {
			when = "refused operation";
			if (m.empty()) {
				int k = s.range(0, 2);
				bool t = pbt::traps([&] { k == 0 ? d.pop() : k == 1 ? (void)d.top() : (void)d.first(); });
				CHECK(t, "operation %d on an empty stack was not refused", k);
				trapped = true;
			} else if (int(m.size()) == SIZE) {
				bool t = pbt::traps([&] { d.push(T(1)); });
				CHECK(t, "push to a full stack was not refused, capacity %d", SIZE);
				trapped = true;
			}
		} else {
			bool push = bias == 0 ? op < 6 : bias == 1 ? op < 9 : bias == 2 ? op < 7 : (i / SIZE) % 2 == 0 ? op < 11 : op < 2;
			if (m.empty())
				push = true;
			if (int(m.size()) == SIZE)
				push = false;
			if (push) {
				T v = T(s.coin(3, 4) ? ++pushes : s.range(0, 100));
				when = "push";
				d.push(v);
				m.push_back(v);
			} else {
				when = "pop";
				++pops;
				d.pop();
				m.pop_back();
			}
		}
		s.note("%s", when);
		full = full || int(m.size()) == SIZE;
		compare(d, m, when);
	}
	drain(d, m);
	s.label(full, "was full");
	s.label(trapped, "refused operation");
	s.label(cleared, "cleared");
	s.nontrivial(full || pops > 3);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 32, 64, 100> Caps;

PROP(ints, 2500000, 60000000)
{
	Caps::any(s, [&](auto n) { history<int, n()>(s); });
}

PROP(structs, 1000000, 20000000)
{
	Caps::any(s, [&](auto n) { history<Pair, n()>(s); });
}

PROP(marathons, 120, 1200)
{
	Sizes<1, 2, 5, 8, 16, 17>::any(s, [&](auto n) { history<int, n()>(s, 70000); });
}
// capacities beyond the range of 16 bits
template <int SIZE>
static void wide(Src &s)
{
	Dirty<DSP::Stack<int, SIZE>> dut(s.range(0, 3));
	auto &d = *dut;
	std::vector<int> m;
	int phases = s.range(1, 6), next = 0;
	s.note("capacity %d, %d phases", SIZE, phases);
	bool full = false;
	for (int p = 0; p < phases; ++p) {
		bool push = p % 2 == 0;
		int len = s.coin() ? SIZE : s.range(0, SIZE);
		s.note("%s %d", push ? "push" : "pop", len);
		for (int i = 0; i < len; ++i) {
			if (push && int(m.size()) < SIZE) {
				d.push(++next);
				m.push_back(next);
			} else if (!push && !m.empty()) {
				d.pop();
				m.pop_back();
			}
			compare(d, m, push ? "push" : "pop");
			full = full || int(m.size()) == SIZE;
		}
	}
	drain(d, m);
	s.label(full, "was full");
	s.nontrivial(full);
}

PROP(wide_capacities, 60, 600)
{
	Sizes<1000, 33000, 65536, 70001>::any(s, [&](auto n) { wide<n()>(s); });
}
