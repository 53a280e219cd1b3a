// RULE: a case is non-trivial when there are at least three knots whose values are not all the same
// ASSUME: 2 to 300 knots, some splines of 2000 to 70001, spacing not zero and not tiny against the origin, evaluation up to 30 intervals outside; values and errors relative to the largest knot value
// TECH: differential testing against an iterative solution of the natural spline equations in extended precision
#include "dut.hh"
#include "spline.hh"
#include "value.hh"
#include <memory>

// second derivatives at the knots by iterating on the system 1 4 1, which is strongly diagonally dominant
static std::vector<CL> moments(const std::vector<CL> &y)
{
	int n = int(y.size());
	std::vector<CL> m(n, CL(0, 0));
	for (int round = 0; round < 80; ++round)
		for (int i = 1; i < n - 1; ++i)
			m[i] = (CL(6, 0) * (y[i+1] - CL(2, 0) * y[i] + y[i-1]) - m[i-1] - m[i+1]) / CL(4, 0);
	return m;
}

template <typename T, int KNOTS>
static void spline(Src &s)
{
	typedef typename Val<T>::real R;
	Signal sig(s);
	int stride = s.coin(1, 3) ? s.range(2, 5) : 1;
	R x0 = 0, dx = 1;
	bool given = s.coin(3, 4), spaced = s.coin(3, 4) || stride != 1;
	if (given) {
		dx = R(s.coin(1, 3) ? 1.0 / s.range(1, 64) : s.coin(2, 3) ? s.logreal(1e-3, 1e3) : s.logreal(1e-9, 1e9));
		if (s.coin(1, 4))
			dx = -dx;
		x0 = R(dx * R(s.coin(1, 3) ? s.range(-40, 40) : s.real(-100, 100)));
		if (!spaced)
			dx = 1;
	}
	s.note("%s, %d knots, stride %d, origin %g, spacing %g, %s", Val<T>::name(), KNOTS, stride, double(x0), double(dx), sig.name());
	Block<T> Y(size_t(KNOTS - 1) * stride + 1);
	std::vector<CL> y(KNOTS);
	L big = 0;
	bool varies = false;
	for (int i = 0; i < KNOTS; ++i) {
		for (int j = 1; j < stride && i + 1 < KNOTS; ++j)
			Y[i * stride + j] = Val<T>::make(1e30, -1e30);
		double re, im;
		sig(i, re, im);
		Y[i * stride] = Val<T>::make(re, im);
		y[i] = Val<T>::get(Y[i * stride]);
		big = std::max(big, mag(y[i]));
		varies = varies || y[i] != y[0];
	}
	typedef DSP::UniformNaturalCubicSpline<KNOTS, T, R> S;
	Dirty<S> d(s.range(0, 3));
	if (given && (spaced || stride != 1))
		*d = *std::make_unique<S>(Y.data(), x0, dx, stride);
	else if (given)
		*d = *std::make_unique<S>(Y.data(), x0);
	else if (stride != 1)
		*d = *std::make_unique<S>(Y.data(), R(0), R(1), stride);
	else
		*d = *std::make_unique<S>(Y.data());
	for (size_t i = 0; i < Y.size(); ++i)
		Y[i] = Val<T>::make(-7, 7);
	std::vector<CL> m = moments(y);
	for (int q = 0; q < 12; ++q) {
		double want;
		switch (s.range(0, 5)) {
		case 0: want = s.range(0, KNOTS - 1); break;
		case 1: want = s.real(0, KNOTS - 1); break;
		case 2: want = s.range(0, KNOTS - 1) + s.pick({ -1, 1 }) * s.logreal(1e-6, 1e-1); break;
		case 3: want = -s.logreal(0.01, 30); break;
		case 4: want = KNOTS - 1 + s.logreal(0.01, 30); break;
		default: want = s.real(-2, KNOTS + 1); break;
		}
		R x = R(x0 + dx * R(want));
		T got = (*d)(x);
		L tx = (L(x) - L(x0)) / L(dx);
		int k = int(std::min<L>(std::max<L>(floorl(tx), 0), KNOTS - 2));
		L t = tx - k;
		CL c = m[k] / L(2), e = (m[k+1] - m[k]) / L(6), b = y[k+1] - y[k] - (L(2) * m[k] + m[k+1]) / L(6);
		CL p = y[k] + t * (b + t * (c + t * e));
		CL slope = b + t * (L(2) * c + t * L(3) * e);
		L a = fabsl(t), tol = 8 * eps<R> * big * (1 + a + a * a + a * a * a) + 3 * eps<R> * fabsl(tx) * mag(slope);
		s.note("x %g (%Lg)", double(x), tx);
		close(s, "value", got, p, tol, q);
		s.label(tx < 0 ? "left" : tx > KNOTS - 1 ? "right" : tx == floorl(tx) ? "knot" : "between");
	}
	s.nontrivial(KNOTS > 2 && varies);
}

template <typename T>
static void any(Src &s)
{
	Sizes<2, 3, 4, 5, 6, 7, 8, 16, 33, 100, 300>::any(s, [&](auto n) { spline<T, n()>(s); });
}

PROP(real_float, 150000, 1500000) { any<float>(s); }
PROP(real_double, 150000, 1500000) { any<double>(s); }
PROP(complex_float, 100000, 1000000) { any<DSP::Complex<float>>(s); }
PROP(complex_double, 100000, 1000000) { any<std::complex<double>>(s); }
PROP(many, 48, 480)
{
	Sizes<2000, 33000, 70001>::any(s, [&](auto n) {
		if (s.coin())
			spline<float, n()>(s);
		else
			spline<double, n()>(s);
	});
}
