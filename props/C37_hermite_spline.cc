// RULE: a case is non-trivial when there are at least three points whose values are not all the same
// ASSUME: 3 to 40 points, some of up to 140000, neighbouring intervals at most a factor of a thousand apart, evaluation up to 30 intervals outside
// TECH: differential testing against the cubic through the two values and slopes in extended precision, metamorphic comparison of the two forms
#include "dut.hh"
#include "spline.hh"
#include "value.hh"

struct Point { CL p, slope; L tol, sens; };

// the cubic on piece k with bounds for terms that are expanded in Newton form with doubled nodes
static Point reference(const std::vector<L> &x, const std::vector<CL> &y, int k, L at, L unit)
{
	int n = int(x.size());
	auto quotient = [&](int i) { return (y[i+1] - y[i]) / (x[i+1] - x[i]); };
	auto tangent = [&](int i) { return i == 0 ? quotient(0) : i == n - 1 ? quotient(n - 2) : (quotient(i - 1) + quotient(i)) / L(2); };
	L h = x[k+1] - x[k], u = at - x[k], v = at - x[k+1], t = fabsl(u / h), w = 1 + t;
	CL q = quotient(k), a = tangent(k), b = tangent(k + 1);
	CL c2 = (q - a) / h, c3 = (a + b - L(2) * q) / (h * h);
	Point r;
	r.p = y[k] + u * a + u * u * c2 + u * u * v * c3;
	r.slope = a + L(2) * u * c2 + (L(2) * u * v + u * u) * c3;
	L tan = 0;
	for (int i = std::max(k - 1, 0); i <= std::min(k + 1, n - 2); ++i)
		tan = std::max(tan, (mag(y[i+1]) + mag(y[i])) / (x[i+1] - x[i]));
	L top = 0;
	for (const CL &v: y)
		top = std::max(top, mag(v));
	// with the rounding of the reference
	r.tol = 1e-17L * (1 + t * t * t) * (top + fabsl(h) * tan) + unit * ((1 + 2 * t) * w * w * mag(y[k]) + (0.25L + t * t * (3 + 2 * t)) * mag(y[k+1]) + (t * w * w + t * t * w) * fabsl(h) * tan);
	r.sens = 2 * w * w * (mag(y[k]) + mag(y[k+1]) + fabsl(h) * tan);
	return r;
}

template <typename T>
static void general(Src &s, int most = 40)
{
	typedef typename Val<T>::real R;
	typedef DSP::CubicHermiteSpline<T, R> S;
	Signal sig(s);
	int n = most > 40 ? s.range(most / 2, most) : s.coin() ? s.range(3, 6) : s.range(3, 40);
	int spread = s.range(0, 2);
	Block<R> X(n);
	Block<T> Y(n);
	std::vector<L> x(n);
	std::vector<CL> y(n);
	double unit = s.coin(1, 3) ? (s.coin(2, 3) ? s.logreal(1e-3, 1e3) : s.logreal(1e-9, 1e9)) : 1, at = s.coin(1, 3) ? s.real(-20, 20) * unit : 0;
	Rng rng(s.seed());
	bool varies = false;
	for (int i = 0; i < n; ++i) {
		X[i] = R(at);
		at += unit * (spread == 0 ? 1 : spread == 1 ? 0.5 + rng.unit() : std::pow(10, 3 * rng.unit() - 2));
		double re, im;
		sig(i, re, im);
		Y[i] = Val<T>::make(re, im);
		x[i] = X[i];
		y[i] = Val<T>::get(Y[i]);
		varies = varies || y[i] != y[0];
		if (i && !(x[i] > x[i-1] + 16 * eps<R> * fabsl(x[i])))
			return s.discard();
	}
	s.note("%s, %d points from %g to %g, %s", Val<T>::name(), n, double(X[0]), double(X[n-1]), sig.name());
	for (int q = 0; q < 10; ++q) {
		R p;
		int k = s.range(0, n - 1);
		switch (s.range(0, 5)) {
		case 0: p = X[k]; break;
		case 1: p = R(X[0] + R(s.unit()) * (X[n-1] - X[0])); break;
		case 2: p = std::nextafter(X[k], R(s.pick({ -1, 1 }) * 1e30)); break;
		case 3: p = R(X[0] - s.logreal(0.01, 30) * (X[1] - X[0])); break;
		case 4: p = R(X[n-1] + s.logreal(0.01, 30) * (X[n-1] - X[n-2])); break;
		default: k = std::min(k, n - 2); p = R(X[k] + R(s.unit()) * (X[k+1] - X[k])); break;
		}
		int piece = 0;
		while (piece < n - 2 && L(p) > x[piece+1])
			++piece;
		T got = S::eval(X.data(), Y.data(), p, n);
		Point r = reference(x, y, piece, p, 8 * eps<R>);
		L tx = fabsl(L(p) - x[piece]);
		s.note("x %.9g in piece %d", double(p), piece);
		close(s, "general", got, r.p, r.tol + 4 * eps<R> * tx * mag(r.slope), q);
		s.label(L(p) < x[0] ? "left" : L(p) > x[n-1] ? "right" : L(p) == x[piece] || L(p) == x[piece+1] ? "knot" : "between");
		// the same piece by its local coordinate
		R t = R((L(p) - x[piece]) / (x[piece+1] - x[piece]));
		L back = x[piece] + L(t) * (x[piece+1] - x[piece]);
		r = reference(x, y, piece, back, 8 * eps<R>);
		close(s, "piece", S::eval(X.data(), Y.data(), t, piece, n), r.p, r.tol, q);
	}
	s.nontrivial(varies);
}

template <typename T>
static void uniform(Src &s, int most = 40)
{
	typedef typename Val<T>::real R;
	typedef DSP::CubicHermiteSpline<T, R> S;
	Signal sig(s);
	int n = most > 40 ? s.range(most / 2, most) : s.coin() ? s.range(3, 6) : s.range(3, 40);
	R x0 = 0, dx = 1;
	int given = s.range(0, 2);
	if (given == 2) {
		dx = R(s.coin(1, 3) ? 1.0 / s.range(1, 64) : s.coin(2, 3) ? s.logreal(1e-3, 1e3) : s.logreal(1e-9, 1e9));
		if (s.coin(1, 4))
			dx = -dx;
	}
	if (given)
		x0 = R(dx * R(s.coin(1, 3) ? s.range(-40, 40) : s.real(-100, 100)));
	Block<T> Y(n);
	std::vector<L> x(n);
	std::vector<CL> y(n);
	bool varies = false;
	L top = 0;
	for (int i = 0; i < n; ++i) {
		double re, im;
		sig(i, re, im);
		Y[i] = Val<T>::make(re, im);
		x[i] = i;
		y[i] = Val<T>::get(Y[i]);
		top = std::max(top, mag(y[i]));
		varies = varies || y[i] != y[0];
	}
	s.note("%s, %d points, origin %g, spacing %g, %s", Val<T>::name(), n, double(x0), double(dx), sig.name());
	for (int q = 0; q < 10; ++q) {
		double want;
		switch (s.range(0, 5)) {
		case 0: want = s.range(0, n - 1); break;
		case 1: want = s.real(0, n - 1); break;
		case 2: want = s.range(0, n - 1) + s.pick({ -1, 1 }) * s.logreal(1e-6, 1e-1); break;
		case 3: want = -s.logreal(0.01, 30); break;
		case 4: want = n - 1 + s.logreal(0.01, 30); break;
		default: want = s.real(-2, n + 1); break;
		}
		R p = R(x0 + dx * R(want));
		T got = given == 2 ? S::eval(Y.data(), p, n, x0, dx) : given ? S::eval(Y.data(), p, n, x0) : S::eval(Y.data(), p, n);
		L tx = (L(p) - L(x0)) / L(dx);
		int k = int(std::min<L>(std::max<L>(floorl(tx), 0), n - 2));
		Point r = reference(x, y, k, tx, 8 * eps<R>);
		// the compiler may take 1 - t apart
		L apart = eps<R> * (fabsl(L(p)) + fabsl(L(x0))) / fabsl(L(dx)) * r.sens;
		// next to a point the other piece may be taken, with the same value and slope
		L delta = 4 * eps<R> * (fabsl(tx) + 1);
		apart += 16 * delta * delta * top;
		s.note("x %g (%Lg)", double(p), tx);
		close(s, "uniform", got, r.p, r.tol + apart + 3 * eps<R> * fabsl(tx) * mag(r.slope), q);
		s.label(tx < 0 ? "left" : tx > n - 1 ? "right" : tx == floorl(tx) ? "knot" : "between");
		R t = R(tx - k);
		r = reference(x, y, k, k + L(t), 8 * eps<R>);
		close(s, "piece", S::eval(Y.data(), t, k, n), r.p, r.tol, q);
	}
	s.nontrivial(varies);
}

PROP(general_float, 900000, 4500000) { general<float>(s); }
PROP(general_double, 900000, 4500000) { general<double>(s); }
PROP(general_complex, 900000, 4500000) { if (s.coin()) general<DSP::Complex<float>>(s); else general<std::complex<double>>(s); }
PROP(uniform_float, 900000, 4500000) { uniform<float>(s); }
PROP(uniform_double, 900000, 4500000) { uniform<double>(s); }
PROP(uniform_complex, 900000, 4500000) { if (s.coin()) uniform<DSP::Complex<float>>(s); else uniform<std::complex<double>>(s); }
PROP(many_general, 600, 6000) { general<double>(s, 140000); }
PROP(many_uniform, 600, 6000) { uniform<double>(s, 140000); }
