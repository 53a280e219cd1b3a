// reference sections: bilinear transform of the analogue prototypes, and bounds of the rounding errors

#pragma once

#include "value.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

struct Section
{
	L b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0;
	// s = (1 - z^-1) / (1 + z^-1) / tan(w/2) in (n2 s^2 + n1 s + n0) / (s^2 + s/Q + 1)
	void analog(L n2, L n1, L n0, L invQ, L n, L N)
	{
		L k = tanl(PI * n / N), kk = k * k;
		L a0 = 1 + k * invQ + kk;
		b0 = (n2 + n1 * k + n0 * kk) / a0;
		b1 = (2 * n0 * kk - 2 * n2) / a0;
		b2 = (n2 - n1 * k + n0 * kk) / a0;
		a1 = (2 * kk - 2) / a0;
		a2 = (1 - k * invQ + kk) / a0;
	}
	void lowpass(L n, L N, L Q) { analog(0, 0, 1, 1 / Q, n, N); }
	void highpass(L n, L N, L Q) { analog(1, 0, 0, 1 / Q, n, N); }
	void notch(L n, L N, L Q) { analog(1, 0, 1, 1 / Q, n, N); }
	void bandpass(L n, L N, L Q) { analog(0, 1 / Q, 0, 1 / Q, n, N); }
	void allpass(L n, L N, L Q) { analog(1, -1 / Q, 1, 1 / Q, n, N); }
	CL response(L f) const
	{
		CL z = std::polar<L>(1, -2 * PI * f), zz = z * z;
		return (b0 + b1 * z + b2 * zz) / (L(1) + a1 * z + a2 * zz);
	}
};

// a section that may change from step to step, run in extended precision, with a first-order bound
// of the error of an implementation with coefficient and rounding errors of unit each
struct Model
{
	// what a result loses that is too small for a normal number
	L tiny = 0;
	std::vector<CL> x, y;
	std::vector<L> in, rho, bound;
	std::vector<Section> sec;
	CL step(const Section &c, CL v, L verr, L unit)
	{
		size_t i = x.size();
		CL x1 = i > 0 ? x[i - 1] : 0, x2 = i > 1 ? x[i - 2] : 0;
		CL y1 = i > 0 ? y[i - 1] : 0, y2 = i > 1 ? y[i - 2] : 0;
		CL r = c.b0 * v + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2;
		L e1 = i > 0 ? in[i - 1] : 0, e2 = i > 1 ? in[i - 2] : 0;
		x.push_back(v);
		y.push_back(r);
		in.push_back(verr);
		sec.push_back(c);
		rho.push_back(unit * (mag(v) + 2 * mag(x1) + mag(x2) + 2 * mag(y1) + mag(y2) + mag(r)) + tiny
			+ fabsl(c.b0) * verr + fabsl(c.b1) * e1 + fabsl(c.b2) * e2);
		return r;
	}
	// contributions of all steps to the error at the end; feedback coefficients at the time of each step
	void finish()
	{
		size_t n = x.size();
		bound.assign(n, 0);
		for (size_t k = 0; k < n; ++k) {
			L g2 = 0, g1 = 1;
			bound[k] += rho[k];
			for (size_t t = k + 1; t < n; ++t) {
				L g = -sec[t].a1 * g1 - sec[t].a2 * g2;
				g2 = g1;
				g1 = g;
				bound[t] += fabsl(g) * rho[k];
			}
		}
	}
};
