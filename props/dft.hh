// signals and reference transforms in extended precision

#pragma once

typedef long double L;
struct LC { L re, im; };

static const std::vector<LC> &circle(int N)
{
	static std::map<int, std::vector<LC>> cache;
	std::vector<LC> &v = cache[N];
	if (v.empty()) {
		const L PI = 3.14159265358979323846264338327950288419716939937510582L;
		v.resize(N);
		for (int n = 0; n < N; ++n) {
			// reduced to the first octant, so that multiples of a quarter turn are exact
			int64_t q = 4 * int64_t(n) / N, r = 4 * int64_t(n) - q * N;
			L c, d;
			if (2 * r <= N) {
				c = cosl(PI / 2 * L(r) / N);
				d = sinl(PI / 2 * L(r) / N);
			} else {
				c = sinl(PI / 2 * L(N - r) / N);
				d = cosl(PI / 2 * L(N - r) / N);
			}
			v[n] = q == 0 ? LC{ c, d } : q == 1 ? LC{ -d, c } : q == 2 ? LC{ -c, -d } : LC{ d, -c };
		}
	}
	return v;
}

// one bin of the unnormalised transform
static LC bin(const std::vector<LC> &x, int k, int sign)
{
	int N = x.size();
	const std::vector<LC> &w = circle(N);
	LC sum{ 0, 0 };
	int64_t j = 0;
	for (int n = 0; n < N; ++n) {
		L c = w[j].re, d = sign * w[j].im;
		sum.re += x[n].re * c - x[n].im * d;
		sum.im += x[n].re * d + x[n].im * c;
		j += k;
		if (j >= N)
			j -= N;
	}
	return sum;
}

template <typename V>
static std::vector<LC> signal(Src &s, int N, bool real = false)
{
	std::vector<LC> x(N, LC{ 0, 0 });
	int kind = s.range(0, 7);
	static const char *names[] = { "impulse", "random", "constant", "tone", "few impulses", "small integers", "scaled random", "one part" };
	s.label(names[kind]);
	s.note("%s", names[kind]);
	Rng rng(s.seed());
	double scale = kind == 6 ? std::exp2((double)s.range(-30, 30)) : 1;
	int k = s.range(0, N - 1);
	const std::vector<LC> &w = circle(N);
	for (int n = 0; n < N; ++n) {
		double a = 0, b = 0;
		switch (kind) {
		case 0: a = n == k, b = n == k ? 2 : 0; break;
		case 1: case 6: a = rng.sym(), b = rng.sym(); break;
		case 2: a = 1, b = -0.5; break;
		case 3: a = w[int64_t(n) * k % N].re, b = w[int64_t(n) * k % N].im; break;
		case 4: if (rng.below(N) < 3) a = rng.range(-3, 3), b = rng.range(-3, 3); break;
		case 5: a = rng.range(-2, 2), b = rng.range(-2, 2); break;
		case 7: (k & 1 ? a : b) = rng.sym(); break;
		}
		x[n].re = V(a * scale);
		x[n].im = real ? V(0) : V(b * scale);
		if (real && kind == 7)
			x[n].re = V(rng.sym());
	}
	return x;
}

static L power(const std::vector<LC> &x)
{
	L p = 0;
	for (const LC &v : x)
		p += v.re * v.re + v.im * v.im;
	return p;
}

static L log2of(int N) { return log2l(L(N)); }
