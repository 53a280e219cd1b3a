// RULE: a case is non-trivial when more values than the window holds were given and the window is longer than one
// ASSUME: no overflow of the sum; windows of up to 70001 (integers), 129 (floats) and 65536 (compensated sum)
// TECH: stateful model-based testing against recomputing the window exactly
#include "dut.hh"
#include "complex.hh"
#include "sma.hh"

static const char *kinds[] = { "random", "constant", "counting", "bursts", "alternating", "drawn" };

template <typename F>
static void feed(Src &s, int num, int least, F f)
{
	int len = s.coin(3, 4) ? s.range(1, 3 * num + 4) : s.skewed(1, 1000);
	if (least)
		len = s.range(least, 2 * least);
	int kind = s.range(0, 5);
	if (len > 400 && kind == 5)
		kind = 0;
	Rng rng(s.seed());
	double c = s.real(-2, 2);
	int burst = s.range(1, 2 * num + 2);
	s.note("window %d, %d inputs, %s", num, len, kinds[kind]);
	s.label(kinds[kind]);
	for (int i = 0; i < len; ++i) {
		double x = 0;
		switch (kind) {
		case 0: x = rng.sym(); break;
		case 1: x = c; break;
		case 2: x = i + 1; break;
		case 3: x = i / burst % 3 == 0 ? rng.sym() * 1000 : rng.sym(); break;
		case 4: x = i % 2 ? c : -c; break;
		case 5: x = s.sample(); break;
		}
		f(i, x);
	}
	s.nontrivial(len > num && num > 1);
}

template <typename T, int NUM>
static void integers(Src &s, int least = 0)
{
	int pat = s.range(0, 3);
	Dirty<DSP::SMA1<T, T, NUM>> a1(pat);
	Dirty<DSP::SMA2<T, T, NUM>> a2(pat);
	Dirty<DSP::SMA2<T, T, NUM, false>> n2(pat);
	Dirty<DSP::SMA4<T, T, NUM>> a4(pat);
	Dirty<DSP::SMA4<T, T, NUM, false>> n4(pat);
	T scale = s.pick({ T(1), T(100), T(100000) });
	std::vector<T> in;
	T sum = 0;
	feed(s, NUM, least, [&](int i, double x) {
		T v = T(x * scale);
		in.push_back(v);
		sum += v;
		if (i >= NUM)
			sum -= in[i - NUM];
		T avg = sum / NUM;
		T g1 = (*a1)(v), g2 = (*a2)(v), g4 = (*a4)(v);
		CHECK(g1 == avg, "SMA1 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)g1, (long long)avg);
		CHECK(g2 == avg, "SMA2 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)g2, (long long)avg);
		CHECK(g4 == avg, "SMA4 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)g4, (long long)avg);
		T h2 = (*n2)(v), h4 = (*n4)(v);
		CHECK(h2 == sum, "sum of SMA2 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)h2, (long long)sum);
		CHECK(h4 == sum, "sum of SMA4 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)h4, (long long)sum);
	});
}

static long double mag(long double a) { return a < 0 ? -a : a; }

template <typename T, int NUM>
static void floats(Src &s, int least = 0)
{
	int pat = s.range(0, 3);
	Dirty<DSP::SMA1<T, T, NUM>> a1(pat);
	Dirty<DSP::SMA2<T, T, NUM>> a2(pat);
	Dirty<DSP::SMA3<T, T, NUM>> a3(pat);
	Dirty<DSP::SMA4<T, T, NUM>> a4(pat);
	Dirty<DSP::SMA2<T, T, NUM, false>> n2(pat);
	Dirty<DSP::SMA3<T, T, NUM, false>> n3(pat);
	Dirty<DSP::SMA4<T, T, NUM, false>> n4(pat);
	long double scale = std::exp2((double)s.range(-30, 30));
	std::vector<T> in;
	long double acc2 = 0, acc3 = 0;
	bool devs = s.coin();
	int lg = 1;
	while ((1 << lg) < NUM)
		++lg;
	CHECK(a1->abs_dev() == T(0), "absolute deviation before the first input");
	feed(s, NUM, least, [&](int i, double x) {
		T v = T(x * scale);
		in.push_back(v);
		long double sum = 0, abs = 0;
		for (int k = i < NUM ? 0 : i - NUM + 1; k <= i; ++k) {
			sum += in[k];
			abs += mag(in[k]);
		}
		acc3 += mag(v) + (i < NUM ? 0 : mag(in[i - NUM]));
		acc2 += mag(sum) + mag(v) + (i < NUM ? 0 : mag(in[i - NUM]));
		long double t1 = eps<T> * (NUM / 2 + 3) * abs, t4 = eps<T> * (lg + 3) * abs, t2 = eps<T> * 2 * acc2, t3 = eps<T> * 2 * (acc3 + abs);
		near(s, "SMA1", (*a1)(v), sum / NUM, t1 / NUM);
		near(s, "SMA2", (*a2)(v), sum / NUM, t2 / NUM);
		near(s, "SMA3", (*a3)(v), sum / NUM, t3 / NUM);
		near(s, "SMA4", (*a4)(v), sum / NUM, t4 / NUM);
		near(s, "SMA2 sum", (*n2)(v), sum, t2);
		near(s, "SMA3 sum", (*n3)(v), sum, t3);
		near(s, "SMA4 sum", (*n4)(v), sum, t4);
		if (devs) {
			long double dev = 0;
			for (int k = 0; k < NUM; ++k)
				dev += mag((i - k < 0 ? 0 : in[i - k]) - sum / NUM);
			near(s, "absolute deviation", a1->abs_dev(), dev / NUM, t1 / NUM * 2 + eps<T> * (NUM / 2 + 3) * dev / NUM);
		}
	});
}

template <typename V, int NUM>
static void complexes(Src &s, int least = 0)
{
	typedef DSP::Complex<V> T;
	int pat = s.range(0, 3);
	Dirty<DSP::SMA1<T, V, NUM>> a1(pat);
	Dirty<DSP::SMA2<T, V, NUM>> a2(pat);
	Dirty<DSP::SMA3<T, V, NUM>> a3(pat);
	Dirty<DSP::SMA4<T, V, NUM>> a4(pat);
	Rng rng(s.seed());
	std::vector<T> in;
	long double total = 0;
	bool dev = s.coin();
	feed(s, NUM, least, [&](int i, double x) {
		T v(V(x), V(rng.sym()));
		in.push_back(v);
		long double re = 0, im = 0;
		for (int k = i < NUM ? 0 : i - NUM + 1; k <= i; ++k) {
			re += in[k].real();
			im += in[k].imag();
		}
		total += mag(x) + 1;
		long double tol = eps<V> * (8 + 4 * total) * (1 + total / NUM) / NUM + eps<V> * 4 * total / NUM;
		tol = eps<V> * 4 * total;
		T g1 = (*a1)(v), g2 = (*a2)(v), g3 = (*a3)(v), g4 = (*a4)(v);
		near(s, "SMA1", g1.real(), re / NUM, tol);
		near(s, "SMA1", g1.imag(), im / NUM, tol);
		near(s, "SMA2", g2.real(), re / NUM, tol);
		near(s, "SMA2", g2.imag(), im / NUM, tol);
		near(s, "SMA3", g3.real(), re / NUM, tol);
		near(s, "SMA3", g3.imag(), im / NUM, tol);
		near(s, "SMA4", g4.real(), re / NUM, tol);
		near(s, "SMA4", g4.imag(), im / NUM, tol);
		if (dev) {
			long double d = 0;
			for (int k = 0; k < NUM; ++k) {
				long double a = (i - k < 0 ? 0 : in[i - k].real()) - re / NUM, b = (i - k < 0 ? 0 : in[i - k].imag()) - im / NUM;
				d += sqrtl(a * a + b * b);
			}
			near(s, "absolute deviation", a1->abs_dev(), d / NUM, tol * 2);
		}
	});
}

// windows long enough for the difference between a compensated and a plain running sum to show
template <int NUM>
static void compensated(Src &s)
{
	struct Big { DSP::SMA3<float, float, NUM> sma; DSP::SMA3<float, float, NUM, false> sum; };
	Dirty<Big> b(s.range(0, 3));
	std::vector<float> in;
	Rng rng(s.seed());
	double lo = s.real(-1, 1), hi = s.real(-1, 1);
	int len = s.range(NUM / 2, NUM + NUM / 2);
	s.note("window %d, %d inputs between %g and %g", NUM, len, lo, hi);
	long double sum = 0, acc = 0;
	for (int i = 0; i < len; ++i) {
		float v = lo + (hi - lo) * rng.unit();
		in.push_back(v);
		sum += v;
		acc += mag(v);
		if (i >= NUM) {
			sum -= in[i - NUM];
			acc += mag(in[i - NUM]);
		}
		float a = b->sma(v), c = b->sum(v);
		if (i % 64 == 0 || i == len - 1) {
			near(s, "compensated average", a, sum / NUM, 2 * eps<float> * (acc + mag(sum)) / NUM);
			near(s, "compensated sum", c, sum, 2 * eps<float> * (acc + mag(sum)));
		}
	}
	s.nontrivial(len > NUM);
}

typedef Sizes<1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100, 129> Lens;

PROP(ints, 600000, 9000000) { Lens::any(s, [&](auto n) { integers<int64_t, n()>(s); }); }
PROP(long_ints, 3000, 30000) { Sizes<500, 1000, 1024, 4096>::any(s, [&](auto n) { integers<int64_t, n()>(s); }); }
PROP(single, 300000, 4500000) { Lens::any(s, [&](auto n) { floats<float, n()>(s); }); }
PROP(doubles, 180000, 2400000) { Sizes<1, 2, 3, 6, 8, 15, 32, 50>::any(s, [&](auto n) { floats<double, n()>(s); }); }
PROP(complex_values, 180000, 2400000) { Sizes<1, 2, 3, 6, 8, 15, 32, 50>::any(s, [&](auto n) { complexes<float, n()>(s); }); }
PROP(compensation, 1200, 18000) { Sizes<4096, 65536>::any(s, [&](auto n) { compensated<n()>(s); }); }
PROP(marathon_ints, 48, 480) { Sizes<2, 8, 33>::any(s, [&](auto n) { integers<int64_t, n()>(s, 70000); }); }
PROP(marathon_floats, 48, 480) { Sizes<3, 8>::any(s, [&](auto n) { floats<float, n()>(s, 70000); }); }
PROP(marathon_complex, 48, 480) { Sizes<3, 8>::any(s, [&](auto n) { complexes<float, n()>(s, 70000); }); }
// windows beyond the range of 16 bits
template <int NUM>
static void wide(Src &s, bool slow)
{
	struct Fast { DSP::SMA2<int64_t, int64_t, NUM> a; DSP::SMA4<int64_t, int64_t, NUM> b; };
	Dirty<Fast> d(s.range(0, 3));
	Dirty<DSP::SMA1<int64_t, int64_t, NUM>> one(s.range(0, 3));
	int len = slow ? NUM + s.range(1, 2000) : s.range(NUM + 1, 3 * NUM);
	s.note("window %d, %d inputs", NUM, len);
	Rng rng(s.seed());
	std::vector<int64_t> in;
	int64_t sum = 0;
	for (int i = 0; i < len; ++i) {
		int64_t v = rng.range(-1000000, 1000000);
		in.push_back(v);
		sum += v - (i < NUM ? 0 : in[i - NUM]);
		int64_t want = sum / NUM, a = d->a(v), b = d->b(v);
		CHECK(a == want, "SMA2 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)a, (long long)want);
		CHECK(b == want, "SMA4 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)b, (long long)want);
		if (slow) {
			int64_t c = (*one)(v);
			CHECK(c == want, "SMA1 of %d after %d inputs: got %lld, want %lld", NUM, i + 1, (long long)c, (long long)want);
		}
	}
	s.nontrivial(true);
}
PROP(wide_windows, 24, 400) { Sizes<33000, 65536, 70001>::any(s, [&](auto n) { wide<n()>(s, false); }); }
PROP(wide_windows_sum, 8, 80) { Sizes<33000, 66000>::any(s, [&](auto n) { wide<n()>(s, true); }); }
