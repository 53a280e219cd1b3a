// RULE: a case is non-trivial when the averaging time is above one and the input is not all zero
// ASSUME: 1 to a billion samples; six units of machine epsilon of rounding per step
// TECH: model-based testing against the recursion in extended precision, and measured decay and gain
#include "dut.hh"
#include "blockdc.hh"
#include "value.hh"

template <typename T>
static void history(Src &s, int least = 0)
{
	typedef typename Val<T>::real R;
	Dirty<DSP::BlockDC<T, R>> d(s.range(0, 3));
	Signal sig(s);
	int len = least ? s.range(least, 2 * least) : s.coin() ? s.range(1, 40) : s.skewed(1, 1000);
	s.note("%s, %s, %d values", Val<T>::name(), sig.name(), len);
	// as constructed it is the blocker of one sample
	L num = 1, err = 0, exl = 0;
	CL x1 = 0, y1 = 0;
	bool some = false, above = false;
	for (int i = 0; i < len; ++i) {
		if (s.coin(1, i ? 60 : 1)) {
			int k = s.coin() ? s.range(1, 12) : s.coin(3, 4) ? s.skewed(1, 100000) : s.skewed(1, 1000000000);
			if (i || s.coin(9, 10)) {
				d->samples(k);
				num = k;
				s.note("samples %d at %d", k, i);
			}
		}
		L a = (num - 1) / num, b = (1 + a) / 2;
		above = above || num > 1;
		double re, im;
		sig(i, re, im);
		T x = Val<T>::make(re, im);
		CL xv = Val<T>::get(x);
		CL y = b * (xv - x1) + a * y1;
		err = a * err + 6 * eps<R> * (mag(xv) + mag(x1) + mag(y1)) + 4 * L(std::numeric_limits<R>::min());
		close(s, "output", (*d)(x), y, err + 4 * L(std::numeric_limits<R>::min()), i);
		x1 = xv;
		y1 = y;
		some = some || mag(xv) > 0;
	}
	(void)exl;
	s.nontrivial(some && above);
	s.label(sig.name());
}

// a constant added to the input leaves no lasting trace, and the top passes with gain one
template <typename R>
static void settled(Src &s)
{
	int num = s.skewed(1, 300), len = 30 * num + 60;
	L offset = s.real(-100, 100), a = L(num - 1) / num;
	DSP::BlockDC<R, R> d, e;
	d.samples(num);
	e.samples(num);
	int period = s.range(2, 12);
	s.note("%s, %d samples, offset %Lg, period %d", TypeName<R>::get(), num, offset, period);
	Rng rng(s.seed());
	std::vector<R> sig(period);
	for (auto &v : sig)
		v = R(rng.sym());
	L fade = (1 + a) / 2;
	for (int i = 0; i < len; ++i) {
		R x = sig[i % period];
		L p = d(x), q = e(R(x + offset));
		near(s, "trace of a constant", q - p, offset * fade, 40 * eps<R> * (fabsl(offset) + 2) * std::min(i + 1, num));
		fade *= a;
	}
	DSP::BlockDC<R, R> f;
	f.samples(num);
	L got = 0;
	for (int i = 0; i < len; ++i)
		got = f(R(i & 1 ? -1 : 1));
	near(s, "gain at the top", fabsl(got), 1, 10 * eps<R> * num + 1e-6L);
	s.nontrivial(num > 1 && offset != 0);
}

typedef Types<float, double, DSP::Complex<float>, DSP::Complex<double>, std::complex<float>> Ts;

PROP(histories, 2400000, 24000000) { Ts::any(s, [&](auto t) { history<decltype(t)>(s); }); }
PROP(settled_float, 32000, 320000) { settled<float>(s); }
PROP(settled_double, 32000, 320000) { settled<double>(s); }
PROP(marathons, 120, 1200) { Ts::any(s, [&](auto t) { history<decltype(t)>(s, 70000); }); }
