// RULE: a case is non-trivial when there are at least three points
// ASSUME: up to 40 points, some of 100 and 400, at least two different positions; slopes and residuals to within their rounding; the zero crossing is compared when the slope is not zero
// TECH: model-based testing against order statistics of intervals around all pairwise slopes in extended precision
#include "dut.hh"
#include "theil_sen.hh"
#include "points.hh"

template <typename T, int MAX, typename E>
static void judge(Src &s, E &e, const Points<T> &p)
{
	int n = int(p.x.size());
	Block<T> x(n), y(n);
	for (int i = 0; i < n; ++i) {
		x[i] = p.x[i];
		y[i] = p.y[i];
	}
	e.compute(x.data(), y.data(), n);
	for (int i = 0; i < n; ++i)
		CHECK(x[i] == p.x[i] && y[i] == p.y[i], "points were changed");
	if (n > MAX)
		return;
	Span slopes, rests;
	for (int i = 0; i < n; ++i) {
		for (int j = i + 1; j < n; ++j) {
			if (p.x[i] == p.x[j])
				continue;
			L v = (L(p.y[j]) - L(p.y[i])) / (L(p.x[j]) - L(p.x[i]));
			slopes.add(v, 4 * eps<T> * fabsl(v));
		}
	}
	L lo, hi, m = e.slope();
	slopes.median(lo, hi);
	within(s, "slope", m, lo, hi);
	for (int i = 0; i < n; ++i)
		rests.add(L(p.y[i]) - m * L(p.x[i]), 2 * eps<T> * (fabsl(L(p.y[i])) + fabsl(m * L(p.x[i]))));
	rests.median(lo, hi);
	// room for two points only leaves room for one residual of two equal ones
	if (MAX == 2)
		lo = std::min(rests.lo[0], rests.lo[1]);
	L b = e.yint();
	within(s, "intercept", b, lo, hi);
	if (m != 0)
		near(s, "crossing", e.xint(), -b / m, 4 * eps<T> * fabsl(b / m), "");
	for (int q = 0; q < 2; ++q) {
		T at = T(s.real(-50, 50));
		near(s, "evaluation", e(at), b + m * L(at), 4 * eps<T> * (fabsl(b) + fabsl(m * at)), "");
	}
	s.label(slopes.count() & 1 ? "odd" : "even");
	s.label(slopes.count() < n * (n - 1) / 2, "repeated");
	s.nontrivial(n > 2);
}

template <typename T, int MAX>
static void estimate(Src &s)
{
	typedef DSP::TheilSenEstimator<T, MAX> E;
	Dirty<E> e(s.range(0, 3));
	if (s.coin(1, 8))
		CHECK(e->slope() == 0 && e->xint() == 0 && e->yint() == 0 && (*e)(T(s.range(-9, 9))) == 0, "fresh estimator is not zero");
	for (int r = 0, rounds = s.range(1, 3); r < rounds; ++r) {
		int n = s.coin(1, 16) ? MAX + s.range(1, 3) : s.coin(1, 3) ? MAX : s.range(2, MAX);
		Points<T> p(s, n);
		if (!p.distinct())
			return s.discard();
		judge<T, MAX>(s, *e, p);
	}
}

template <typename T>
static void any(Src &s)
{
	Sizes<2, 3, 4, 5, 6, 7, 9, 12, 20, 40>::any(s, [&](auto n) { estimate<T, n()>(s); });
}

PROP(real_float, 400000, 4000000) { any<float>(s); }
PROP(real_double, 400000, 4000000) { any<double>(s); }
PROP(many, 120, 1200) { Sizes<100, 400>::any(s, [&](auto n) { estimate<double, n()>(s); }); }
