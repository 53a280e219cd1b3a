// RULE: a case is non-trivial when there are at least three points
// ASSUME: up to 40 points, some of 100 and 400, at least two different positions; slopes, intercepts and residuals to within their rounding; the zero crossing is compared when the slope is not zero
// TECH: model-based testing against nested order statistics of intervals in extended precision
#include "dut.hh"
#include "repeated_median.hh"
#include "points.hh"

template <typename T>
static void nested(const Points<T> &p, int n, bool intercept, L &lo, L &hi)
{
	Span outer;
	for (int i = 0; i < n; ++i) {
		Span inner;
		for (int j = 0; j < n; ++j) {
			if (p.x[i] == p.x[j])
				continue;
			L xi = p.x[i], yi = p.y[i], xj = p.x[j], yj = p.y[j], d = xj - xi;
			if (intercept) {
				L v = (xj * yi - xi * yj) / d;
				// by the product or by the slope
				inner.add(v, 4 * eps<T> * ((fabsl(xj * yi) + fabsl(xi * yi) + fabsl(xi * yj)) / fabsl(d) + fabsl(yi) + fabsl(v)));
			} else {
				L v = (yj - yi) / d;
				inner.add(v, 4 * eps<T> * fabsl(v));
			}
		}
		inner.median(lo, hi);
		outer.add(lo, hi, 0);
	}
	outer.median(lo, hi);
}

template <typename T, int MAX, bool SECOND, typename E>
static void judge(Src &s, E &e, const Points<T> &p)
{
	int n = int(p.x.size());
	Block<T> x(n), y(n);
	for (int i = 0; i < n; ++i) {
		x[i] = p.x[i];
		y[i] = p.y[i];
	}
	e.compute(x.data(), y.data(), n);
	for (int i = 0; i < n; ++i)
		CHECK(x[i] == p.x[i] && y[i] == p.y[i], "points were changed");
	n = std::min(n, MAX);
	L lo, hi, m = e.slope(), b = e.yint();
	nested(p, n, false, lo, hi);
	within(s, "slope", m, lo, hi);
	if (SECOND) {
		Span rests;
		for (int i = 0; i < n; ++i)
			rests.add(L(p.y[i]) - m * L(p.x[i]), 2 * eps<T> * (fabsl(L(p.y[i])) + fabsl(m * L(p.x[i]))));
		rests.median(lo, hi);
	} else {
		nested(p, n, true, lo, hi);
	}
	within(s, "intercept", b, lo, hi);
	if (m != 0)
		near(s, "crossing", e.xint(), -b / m, 4 * eps<T> * fabsl(b / m), "");
	for (int q = 0; q < 2; ++q) {
		T at = T(s.real(-50, 50));
		near(s, "evaluation", e(at), b + m * L(at), 4 * eps<T> * (fabsl(b) + fabsl(m * at)), "");
	}
	s.label(n & 1 ? "odd" : "even");
	s.nontrivial(n > 2);
}

template <typename T, int MAX, bool SECOND, typename E>
static void estimate(Src &s)
{
	Dirty<E> e(s.range(0, 3));
	if (s.coin(1, 8))
		CHECK(e->slope() == 0 && e->xint() == 0 && e->yint() == 0 && (*e)(T(s.range(-9, 9))) == 0, "fresh estimator is not zero");
	for (int r = 0, rounds = s.range(1, 3); r < rounds; ++r) {
		int n = s.coin(1, 16) ? MAX + s.range(1, 3) : s.coin(1, 3) ? MAX : s.range(2, MAX);
		Points<T> p(s, n);
		bool distinct = false;
		for (int i = 1; i < std::min(n, MAX); ++i)
			distinct = distinct || p.x[i] != p.x[0];
		if (!distinct)
			return s.discard();
		judge<T, MAX, SECOND>(s, *e, p);
	}
}

template <typename T>
static void first(Src &s)
{
	Sizes<2, 3, 4, 5, 6, 7, 9, 12, 20, 40>::any(s, [&](auto n) { estimate<T, n(), false, DSP::RepeatedMedianEstimator<T, n()>>(s); });
}

template <typename T>
static void second(Src &s)
{
	Sizes<2, 3, 4, 5, 6, 7, 9, 12, 20, 40>::any(s, [&](auto n) { estimate<T, n(), true, DSP::RepeatedMedianEstimator2<T, n()>>(s); });
}

PROP(first_float, 80000, 800000) { first<float>(s); }
PROP(first_double, 80000, 800000) { first<double>(s); }
PROP(second_float, 80000, 800000) { second<float>(s); }
PROP(second_double, 80000, 800000) { second<double>(s); }
PROP(many_first, 60, 600) { Sizes<100, 400>::any(s, [&](auto n) { estimate<double, n(), false, DSP::RepeatedMedianEstimator<double, n()>>(s); }); }
PROP(many_second, 60, 600) { Sizes<100, 400>::any(s, [&](auto n) { estimate<double, n(), true, DSP::RepeatedMedianEstimator2<double, n()>>(s); }); }
