// the interpolating filter of the resamplers in extended precision

#pragma once

typedef long double L;

struct Kernel
{
	int n, over;
	std::vector<L> y, m, e;
	static L bessel(L x)
	{
		L sum = 1, term = 1;
		for (int i = 1; i < 200; ++i) {
			term *= (x / 2 / i) * (x / 2 / i);
			sum += term;
			if (term < 1e-22L * sum)
				break;
		}
		return sum;
	}
	// fraction is twice cutoff over rate, unit the machine epsilon of the type under test
	Kernel(int taps, int over, L fraction, L alpha, L unit) : n(taps * over), over(over), y(n), m(n, 0), e(n)
	{
		const L pi = 3.14159265358979323846264338327950288L;
		L full = bessel(pi * alpha);
		for (int i = 0; i < n; ++i) {
			L x = L(i) / over - L(taps - 1) / 2, z = fraction * x;
			L v = z == 0 ? 1 : sinl(pi * z) / (pi * z);
			L p = L(2) * i / (n - 1) - 1, w = bessel(pi * alpha * sqrtl(std::max<L>(1 - p * p, 0))) / full;
			y[i] = fraction * v * w;
			// sine and window are off by some rounding of their arguments
			L steep = z == 0 ? 0 : fabsl(cosl(pi * z) - v) / fabsl(z);
			e[i] = unit * fraction * w * (4 + pi * pi * alpha * alpha / 2 + steep * fraction * i / over);
		}
		for (int round = 0; round < 70; ++round)
			for (int i = 1; i < n - 1; ++i)
				m[i] = (6 * (y[i+1] - 2 * y[i] + y[i-1]) - m[i-1] - m[i+1]) / 4;
	}
	L operator()(L x, L &slope, L &err, L unit) const
	{
		L tx = x * over;
		int k = int(std::min<L>(std::max<L>(floorl(tx), 0), n - 2));
		L t = tx - k, a = fabsl(t);
		L c = m[k] / 2, d = (m[k+1] - m[k]) / 6, b = y[k+1] - y[k] - (2 * m[k] + m[k+1]) / 6;
		slope = (b + t * (2 * c + t * 3 * d)) * over;
		L near = 0;
		for (int i = std::max(k - 2, 0); i <= std::min(k + 3, n - 1); ++i)
			near = std::max(near, e[i] + 2 * unit * fabsl(y[i]));
		err = near * (1.5L + 3 * a * (a < 1 ? 0 : 1) + a * a * a);
		return y[k] + t * (b + t * (c + t * d));
	}
};
