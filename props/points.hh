// point sets for the line estimators

#pragma once

typedef long double L;

template <typename T>
struct Points
{
	std::vector<T> x, y;
	bool line = false;
	Points(Src &s, int n, bool spaced = false, T x0 = 0, T dx = 1) : x(n), y(n)
	{
		int px = spaced ? 4 : s.range(0, 3), py = s.range(0, 5);
		Rng rng(s.seed());
		double unit = s.coin(1, 3) ? s.logreal(1e-3, 1e3) : 1, off = s.coin(1, 4) ? s.real(-50, 50) : 0;
		for (int i = 0; i < n; ++i) {
			switch (px) {
			case 0: x[i] = T(i); break;
			case 1: x[i] = T(rng.range(-n, n)); break;
			case 2: x[i] = T(unit * (rng.sym() + off)); break;
			case 3: x[i] = T(rng.range(0, 3)); break;
			case 4: x[i] = x0 + dx * T(i); break;
			}
		}
		if (px == 0 && s.coin(1, 3))
			for (int i = n - 1; i > 0; --i)
				std::swap(x[i], x[rng.below(i + 1)]);
		double a = s.coin() ? s.range(-5, 5) : s.real(-3, 3), b = s.coin() ? s.range(-20, 20) : s.real(-9, 9);
		double scale = s.coin(1, 3) ? s.logreal(1e-3, 1e3) : 1;
		int bad = s.skewed(0, n);
		for (int i = 0; i < n; ++i) {
			double v = 0;
			switch (py) {
			case 0: v = a * x[i] + b; break;
			case 1: v = a * x[i] + b + (rng.range(0, n - 1) < bad ? 100 * rng.sym() : 0); break;
			case 2: v = rng.sym(); break;
			case 3: v = rng.range(-3, 3); break;
			case 4: v = b; break;
			case 5: v = a * x[i] + b + rng.sym(); break;
			}
			y[i] = T(scale * v);
		}
		line = py == 0 || py == 4;
		static const char *xs[] = { "counting", "integers", "reals", "few", "spaced" }, *ys[] = { "line", "outliers", "noise", "integers", "constant", "noisy line" };
		s.note("%s, %d points, positions %s, values %s", TypeName<T>::get(), n, xs[px], ys[py]);
		s.label(xs[px]);
		s.label(ys[py]);
		if (s.verbose)
			for (int i = 0; i < n && i < 8; ++i)
				s.note("(%.9g, %.9g)", double(x[i]), double(y[i]));
	}
	bool distinct() const
	{
		for (size_t i = 1; i < x.size(); ++i)
			if (x[i] != x[0])
				return true;
		return false;
	}
};

// where the upper median of values known to within a bound can lie
struct Span
{
	std::vector<L> lo, hi;
	void add(L v, L e) { lo.push_back(v - e); hi.push_back(v + e); }
	void add(L a, L b, int) { lo.push_back(a); hi.push_back(b); }
	int count() const { return int(lo.size()); }
	static L median(std::vector<L> &v)
	{
		std::sort(v.begin(), v.end());
		return v[v.size() / 2];
	}
	void median(L &a, L &b) { a = median(lo); b = median(hi); }
};

static inline void within(Src &s, const char *name, L got, L lo, L hi)
{
	near(s, name, got, (lo + hi) / 2, (hi - lo) / 2 + 1e-18L * (fabsl(lo) + fabsl(hi)), "");
}
