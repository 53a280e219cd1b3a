// RULE: a case is non-trivial when the state changed at least twice
// ASSUME: finite values, no denormals
// TECH: model-based testing of histories against the switching rules
#include "dut.hh"
#include "trigger.hh"

template <typename T>
static T value(Src &s)
{
	return std::is_same<T, int>::value ? T(s.range(0, 8) - 4) : T(s.coin(1, 3) ? s.sample() : (s.range(0, 8) - 4) / 4.0);
}

template <typename T>
static void schmitt(Src &s, int least = 0)
{
	typedef DSP::SchmittTrigger<T> D;
	T lo = value<T>(s), hi = value<T>(s), th = value<T>(s);
	if (s.coin(9, 10) && hi < lo)
		std::swap(lo, hi);
	bool start = s.coin();
	int how = s.range(0, 4), pat = s.range(0, 3);
	Dirty<D> none(pat), one(pat, th), one_start(pat, th, start), two(pat, lo, hi), two_start(pat, lo, hi, start);
	D &d = how == 0 ? *none : how == 1 ? *one : how == 2 ? *one_start : how == 3 ? *two : *two_start;
	if (how == 0)
		th = T(1) / T(3);
	if (how < 3) {
		lo = -th;
		hi = th;
	}
	bool state = (how == 2 || how == 4) && start;
	s.note("%s, thresholds %.17g and %.17g, start %d, constructor %d", TypeName<T>::get(), double(lo), double(hi), state, how);
	int len = least ? s.range(least, 2 * least) : s.skewed(1, 100), changes = 0;
	for (int i = 0; i < len; ++i) {
		T x = 0;
		switch (s.range(0, 4)) {
		case 0: x = lo; break;
		case 1: x = hi; break;
		case 2: x = std::is_same<T, int>::value ? T(s.coin() ? lo - 1 : hi + 1) : s.coin() ? std::nextafter(lo, T(s.coin() ? -100 : 100)) : std::nextafter(hi, T(s.coin() ? -100 : 100)); break;
		default: x = value<T>(s); break;
		}
		if (x != 0 && !std::is_same<T, int>::value && std::fabs(double(x)) < 1e-30)
			x = 0;
		bool before = state;
		if (state && x < lo)
			state = false;
		else if (!state && x > hi)
			state = true;
		changes += state != before;
		bool got = d(x);
		CHECK(got == state, "input %.17g at %d: got %d, want %d (thresholds %.17g and %.17g)", double(x), i, got, state, double(lo), double(hi));
	}
	s.nontrivial(changes > 1);
}

static void edges(Src &s, int least = 0)
{
	int pat = s.range(0, 3), len = least ? s.range(least, 2 * least) : s.skewed(1, 100);
	bool given = s.coin(), start = given && s.coin();
	Dirty<DSP::FallingEdgeTrigger> f0(pat), f1(pat, start);
	Dirty<DSP::RisingEdgeTrigger> r0(pat), r1(pat, start);
	DSP::FallingEdgeTrigger &f = given ? *f1 : *f0;
	DSP::RisingEdgeTrigger &r = given ? *r1 : *r0;
	s.note("start %d, %d inputs", start, len);
	bool prev = start;
	int changes = 0;
	for (int i = 0; i < len; ++i) {
		bool x = s.coin();
		bool gf = f(x), gr = r(x);
		CHECK(gf == (prev && !x), "falling edge: got %d for %d after %d at %d", gf, x, prev, i);
		CHECK(gr == (!prev && x), "rising edge: got %d for %d after %d at %d", gr, x, prev, i);
		changes += prev != x;
		prev = x;
	}
	s.nontrivial(changes > 1);
}

PROP(schmitt_float, 3750000, 18750000) { schmitt<float>(s); }
PROP(schmitt_double, 3750000, 18750000) { schmitt<double>(s); }
PROP(schmitt_int, 3750000, 18750000) { schmitt<int>(s); }
PROP(edge_triggers, 7500000, 37500000) { edges(s); }
PROP(marathons, 160, 1600) { schmitt<float>(s, 70000); }
PROP(edge_marathons, 160, 1600) { edges(s, 70000); }
