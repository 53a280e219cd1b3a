// RULE: a case is non-trivial when there are at least three points
// ASSUME: 2 to 300 points, some sets of 70000 to 140000 points of double precision; spacings between 1e-8 and 1e6; positions whose spread is well above the rounding of their mean; the zero crossing is compared when the slope is well above its error
// TECH: differential testing against extended-precision least squares with a forward error bound
#include "dut.hh"
#include "regression.hh"
#include "points.hh"

template <typename T, typename F>
static void judge(Src &s, const Points<T> &p, const std::vector<L> &x, F make, L shift = 0)
{
	// shift: how far each position may be off for its rounding
	int n = int(p.x.size());
	L a = 0, b = 0, sx = 0, sy = 0;
	for (int i = 0; i < n; ++i) {
		a += x[i];
		b += p.y[i];
		sx += fabsl(x[i]);
		sy += fabsl(p.y[i]);
	}
	a /= n;
	b /= n;
	L V = 0, C = 0, A = 0, W = 0, Y = 0;
	for (int i = 0; i < n; ++i) {
		V += (x[i] - a) * (x[i] - a);
		C += (x[i] - a) * (p.y[i] - b);
		A += fabsl(x[i] - a) * fabsl(p.y[i] - b);
		W += fabsl(x[i] - a);
		Y += fabsl(p.y[i] - b);
	}
	L u = eps<T>, k = L(n) / 2 + 3;
	L ex = k * u * sx / n, ey = k * u * sy / n;
	if (!p.distinct() || n * ex * ex > V / 1000)
		return s.discard();
	L top = 0;
	for (int i = 0; i < n; ++i)
		top = std::max(top, fabsl(L(p.y[i])));
	L eV = n * ex * ex + k * u * V, eC = n * ex * ey + k * u * (A + sqrtl(V) * top);
	if (shift > 0) {
		if (n * shift * shift > V / 1000)
			return s.discard();
		eV += 2 * shift * W + n * shift * shift;
		eC += shift * Y;
	}
	L slope = C / V, es = eC / V + fabsl(slope) * eV / V + u * fabsl(slope);
	L yint = b - slope * a, ei = ey + fabsl(slope) * ex + es * fabsl(a) + u * (fabsl(b) + fabsl(slope * a));
	const DSP::SimpleLinearRegression<T> fresh = make();
	DSP::SimpleLinearRegression<T> r = fresh;
	near(s, "slope", r.slope(), slope, 2 * es, "");
	near(s, "intercept", r.yint(), yint, 2 * ei, "");
	if (8 * eC < fabsl(C)) {
		L xint = a - b * V / C, e = ex + ey * V / fabsl(C) + fabsl(b) * (eV / fabsl(C) + V * eC / (C * C)) + u * (fabsl(a) + 3 * fabsl(b * V / C));
		near(s, "crossing", r.xint(), xint, 2 * e, "");
		s.label("crossing");
	}
	for (int q = 0; q < 3; ++q) {
		T at = s.coin() ? p.x[s.range(0, n - 1)] : T(s.real(-100, 100));
		L want = L(r.yint()) + L(r.slope()) * at;
		near(s, "evaluation", r(at), want, 4 * u * (fabsl(L(r.yint())) + fabsl(L(r.slope()) * at)), "");
	}
	s.nontrivial(n > 2);
}

static int count(Src &s) { return s.coin() ? s.range(2, 8) : s.skewed(2, 300); }

template <typename T>
static void general(Src &s, int least = 0)
{
	int n = least ? s.range(least, 2 * least) : count(s);
	Points<T> p(s, n);
	Block<T> x(n), y(n);
	for (int i = 0; i < n; ++i) {
		x[i] = p.x[i];
		y[i] = p.y[i];
	}
	std::vector<L> exact(p.x.begin(), p.x.end());
	int pattern = s.range(0, 3);
	judge(s, p, exact, [&]() {
		Dirty<DSP::SimpleLinearRegression<T>> r(pattern, x.data(), y.data(), n);
		return *r;
	});
	for (int i = 0; i < n; ++i)
		CHECK(x[i] == p.x[i] && y[i] == p.y[i], "points were changed");
}

template <typename T>
static void spaced(Src &s, int least = 0)
{
	int n = least ? s.range(least, 2 * least) : count(s), given = s.range(0, 2);
	T x0 = 0, dx = 1;
	if (given)
		x0 = T(s.coin() ? s.range(-40, 40) : s.real(-100, 100));
	if (given > 1) {
		dx = T(s.coin() ? s.pick({ 0.25, 0.5, 2.0, 3.0, -1.0 }) : s.coin(2, 3) ? s.real(-4, 4) : (s.coin() ? 1 : -1) * s.logreal(1e-8, 1e6));
		if (s.coin(1, 4))
			x0 *= dx;
	}
	if (dx == 0)
		return s.discard();
	Points<T> p(s, n, true, x0, dx);
	std::vector<L> exact(n);
	for (int i = 0; i < n; ++i)
		exact[i] = L(x0) + L(dx) * i;
	Block<T> y(n);
	for (int i = 0; i < n; ++i)
		y[i] = p.y[i];
	s.note("origin %g, spacing %g", double(x0), double(dx));
	int pattern = s.range(0, 3);
	judge(s, p, exact, [&]() {
		if (!given) {
			Dirty<DSP::SimpleLinearRegression<T>> r(pattern, y.data(), n);
			return *r;
		}
		if (given == 1) {
			Dirty<DSP::SimpleLinearRegression<T>> r(pattern, y.data(), n, x0);
			return *r;
		}
		Dirty<DSP::SimpleLinearRegression<T>> r(pattern, y.data(), n, x0, dx);
		return *r;
	}, eps<T> * (fabsl(L(x0)) + fabsl(L(dx)) * n));
}

PROP(general_float, 1500000, 7500000) { general<float>(s); }
PROP(general_double, 1500000, 7500000) { general<double>(s); }
PROP(spaced_float, 1500000, 7500000) { spaced<float>(s); }
PROP(spaced_double, 1500000, 7500000) { spaced<double>(s); }
PROP(many_general, 300, 3000) { general<double>(s, 70000); }
PROP(many_spaced, 300, 3000) { spaced<double>(s, 70000); }
PROP(empty, 10000, 50000)
{
	Dirty<DSP::SimpleLinearRegression<float>> f(s.range(0, 3));
	Dirty<DSP::SimpleLinearRegression<double>> d(s.range(0, 3));
	double x = s.real(-100, 100);
	CHECK(f->slope() == 0 && f->xint() == 0 && f->yint() == 0 && (*f)(float(x)) == 0, "empty float regression is not zero");
	CHECK(d->slope() == 0 && d->xint() == 0 && d->yint() == 0 && (*d)(x) == 0, "empty double regression is not zero");
	s.note("x %g", x);
}
