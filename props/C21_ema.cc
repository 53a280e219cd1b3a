// RULE: a case is non-trivial when the weight lies strictly between zero and one and the history is longer than the order
// ASSUME: weights from 0 to 1, 1 to a billion samples, cutoffs n/N up to half the rate; errors of four units of machine epsilon per step, of the weight set by a cutoff eight units times 1 + N/(2 pi n)
// TECH: model-based testing against the recursion in extended precision, weights read off the impulse response and compared with the -3 dB condition
#include "dut.hh"
#include "ema.hh"
#include "value.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

// the weight that gives -3 dB at n/N
static L exact(L n, L N)
{
	L sn = sinl(PI * n / N);
	L d = 2 * sn * sn;
	return d == 0 ? 0 : sqrtl(d * (2 + d)) - d;
}

static L power(L a, L w)
{
	L sn = sinl(w / 2);
	L b = 1 - a;
	// |1 - b e^-jw|^2 = (1 - b)^2 + 4 b sin^2(w/2)
	return a * a / (a * a + 4 * b * sn * sn);
}

// error of a weight set by a cutoff
template <typename R>
static L weight_tol(L n, L N)
{
	L w = 2 * PI * n / N;
	return 8 * eps<R> * (1 + (w > 0 ? 1 / w : 0)) + (w > 0 ? 0 : sqrtl(8 * eps<R>));
}

static void fraction(Src &s, int &n, int &N)
{
	switch (s.range(0, 3)) {
	case 0: N = s.range(2, 64); break;
	case 1: N = s.pick({ 8000, 11025, 16000, 44100, 48000, 96000 }); break;
	default: N = s.skewed(2, 1000000); break;
	}
	n = s.coin(1, 3) ? s.edgy(1, N / 2) : s.skewed(1, N / 2);
}

template <typename T>
static void history(Src &s, int least = 0)
{
	typedef typename Val<T>::real R;
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.skewed(1, 400);
	L start = 0, start_im = 0, a = 1, da = 0, lo = 0, hi = 0;
	typedef DSP::EMA<T, R> E;
	int how = s.range(0, 2);
	if (how) {
		start = R(s.sample());
		start_im = Val<T>::complex ? L(R(s.sample())) : 0;
	}
	if (how == 2)
		a = R(s.coin(1, 4) ? s.range(0, 4) / 4.0 : s.unit());
	int pat = s.range(0, 3);
	Dirty<E> none(pat), one(pat, Val<T>::make(start, start_im)), two(pat, Val<T>::make(start, start_im), R(a));
	E &d = how == 0 ? *none : how == 1 ? *one : *two;
	s.note("%s, %s, start %Lg %Lg, weight %Lg", Val<T>::name(), sig.name(), start, start_im, a);
	CL y(start, start_im);
	L err = 0, big = mag(y);
	lo = hi = start;
	bool mixed = false;
	bool constant = s.coin(1, 8);
	for (int i = 0; i < len; ++i) {
		if (s.coin(1, i ? 40 : 2)) {
			if (s.coin()) {
				int n, N;
				fraction(s, n, N);
				d.cutoff(n, N);
				a = exact(n, N);
				da = weight_tol<R>(n, N);
				s.note("cutoff %d/%d", n, N);
			} else {
				int num = s.coin() ? s.range(1, 8) : s.coin(3, 4) ? s.skewed(1, 100000) : s.skewed(1, 1000000000);
				d.samples(num);
				a = 1 / L(num);
				da = eps<R> * a;
				s.note("samples %d", num);
			}
		}
		mixed = mixed || (a > 0 && a < 1);
		double re, im;
		sig(i, re, im);
		T x = constant ? Val<T>::make(start, start_im) : Val<T>::make(re, im);
		CL xv = Val<T>::get(x);
		big = std::max(big, mag(xv));
		// whatever the weight exactly is, it stays between zero and one
		err = std::min((1 - std::max<L>(a - da, 0)) * err + da * mag(xv - y), 2 * big) + 4 * eps<R> * big + 4 * L(std::numeric_limits<R>::min());
		y += a * (xv - y);
		T got = d(x);
		close(s, "average", got, y, err + 2 * L(std::numeric_limits<R>::min()), i);
		lo = std::min(lo, xv.real());
		hi = std::max(hi, xv.real());
		L slack = 4 * eps<R> * big * std::min<L>(i + 1, a > 0 ? 1 / a : i + 1) + 2 * L(std::numeric_limits<R>::min());
		if (mixed)
			slack = 4 * eps<R> * big * (i + 1) + 2 * L(std::numeric_limits<R>::min());
		L g = Val<T>::re(got);
		CHECK(g >= lo - slack && g <= hi + slack, "%Lg leaves the range %Lg to %Lg of start value and inputs at %d", g, lo, hi, i);
	}
	s.nontrivial(mixed && len > 1);
	s.label(sig.name());
}

template <typename R>
static void cutoffs(Src &s)
{
	int n, N;
	fraction(s, n, N);
	s.note("%s, cutoff %d/%d", TypeName<R>::get(), n, N);
	Dirty<DSP::EMA<R, R>> d(s.range(0, 3));
	d->cutoff(n, N);
	R got = (*d)(R(1));
	L a = exact(n, N), tol = weight_tol<R>(n, N);
	near(s, "weight", got, a, tol);
	CHECK(got >= 0 && got <= 1, "weight %g is outside of zero to one", double(got));
	near(s, "reference", power(a, 2 * PI * L(n) / N), 0.5L, 1e-12L);
	if (tol < a / 100) {
		// d|H|^2/da is at most 1/(2a) times a constant close to one
		near(s, "power at cutoff", power(got, 2 * PI * L(n) / N), 0.5L, 2 * tol / a);
		s.nontrivial();
	}
	s.label(tol < a / 100, "resolved");
}

template <typename T, int ORDER>
static void cascade(Src &s, int least = 0)
{
	typedef typename Val<T>::real R;
	typedef DSP::EMACascade<T, R, ORDER> C;
	Dirty<C> d(s.range(0, 3));
	L factor = ORDER == 1 ? 1 : sqrtl(exp2l(1 / L(ORDER)) - 1);
	bool set = s.coin(9, 10);
	int n = 0, N = 1;
	L a = 1, da = 0;
	if (set) {
		N = s.coin(1, 3) ? s.pick({ 8000, 11025, 44100, 48000 }) : s.skewed(16, 1000000);
		int most = int(N * factor / 2 * 0.999L);
		if (most < 1)
			s.discard();
		n = s.skewed(1, most);
		L want = n / factor;
		if (fabsl(want - floorl(want) - 0.5L) < want * 4 * eps<R> + 1e-9L)
			s.discard();
		L m = floorl(want + 0.5L);
		if (2 * m > N)
			s.discard();
		a = exact(m, N);
		da = weight_tol<R>(m, N);
		d->cutoff(n, N);
		s.note("%s, order %d, cutoff %d/%d", Val<T>::name(), ORDER, n, N);
		C probe(*d);
		L first = Val<T>::re(probe(Val<T>::make(1, 0)));
		if (da < a / 50 && powl(a, ORDER) > 1e-30L) {
			L got = powl(first, 1 / L(ORDER));
			near(s, "cascade weight", got, a, da + 4 * eps<R> * a);
			L w = 2 * PI * L(n) / N;
			if (n >= 50 && w < 0.1L * factor && da < a / 500) {
				near(s, "cascade power at cutoff", powl(power(got, w), ORDER), 0.5L, 0.01L);
				s.label("power");
			}
		}
	} else {
		s.note("%s, order %d, as constructed", Val<T>::name(), ORDER);
	}
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.skewed(1, 200);
	CL y[ORDER];
	L err[ORDER] = {}, big = 0;
	for (int i = 0; i < len; ++i) {
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		CL xv = Val<T>::get(x);
		L ex = 0;
		big = std::max(big, mag(xv));
		for (int k = 0; k < ORDER; ++k) {
			err[k] = std::min((1 - std::max<L>(a - da, 0)) * err[k] + (a + da) * ex + da * mag(xv - y[k]), 2 * big) + 4 * eps<R> * big + 4 * L(std::numeric_limits<R>::min());
			y[k] += a * (xv - y[k]);
			xv = y[k];
			ex = err[k];
		}
		close(s, "cascade", (*d)(x), xv, ex + 2 * L(std::numeric_limits<R>::min()), i);
	}
	s.nontrivial(set && len > 1);
}

typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16> Orders;
typedef Types<float, double, DSP::Complex<float>, DSP::Complex<double>> Ts;

PROP(histories, 1200000, 12000000) { Ts::any(s, [&](auto t) { history<decltype(t)>(s); }); }
PROP(cutoff_float, 3000000, 30000000) { cutoffs<float>(s); }
PROP(cutoff_double, 3000000, 30000000) { cutoffs<double>(s); }
PROP(cascade_float, 180000, 1800000) { Orders::any(s, [&](auto o) { cascade<float, o()>(s); }); }
PROP(cascade_double, 180000, 1800000) { Orders::any(s, [&](auto o) { cascade<double, o()>(s); }); }
PROP(cascade_complex, 180000, 1800000) { Orders::any(s, [&](auto o) { cascade<DSP::Complex<float>, o()>(s); }); }
PROP(marathons, 64, 640) { Ts::any(s, [&](auto t) { history<decltype(t)>(s, 70000); }); }
PROP(cascade_marathons, 64, 640) { Sizes<1, 2, 5>::any(s, [&](auto o) { cascade<float, o()>(s, 70000); }); }
