// RULE: a case is non-trivial when the weights changed at least twice
// ASSUME: lengths 1 to 32, some of 100 and 300, step sizes from zero to two, histories of up to 150 and of about a hundred thousand inputs whose power neither underflows nor overflows; every step is judged from the weights the filter itself shows before it
// TECH: stateful testing, every step against the normalised LMS recursion in extended precision; metamorphic check that the distance to a target system does not grow
#include "dut.hh"
using std::conj;
using std::norm;
#include "lms.hh"
#include "value.hh"

template <typename T, int SIZE, typename F>
static void adapt(Src &s, int least = 0)
{
	typedef typename Val<T>::real R;
	Dirty<F> d(s.range(0, 3));
	Signal sig(s);
	Rng rng(s.seed());
	int len = least ? s.range(least, 2 * least) : s.coin(1, 3) ? s.range(1, 12) : s.range(2, 150), goal = s.range(0, 2), quiet = s.coin(1, 4) ? s.range(1, SIZE + 2) : 0;
	int gaps = s.coin(1, 4) ? s.range(1, 2 * SIZE + 3) : 0;
	bool fixed = s.coin(2, 3);
	double level = s.coin(1, 4) ? std::pow(10.0, s.range(std::is_same<R, float>::value ? -12 : -60, 6)) : 1;
	double mu0 = s.coin(1, 3) ? s.pick({ 0.0, 0.5, 1.0, 2.0 }) : s.real(0, 2);
	s.note("%s, %d weights, %d steps of size %g, %s, goal %d, quiet %d, gaps %d, level %g", Val<T>::name(), SIZE, len, mu0, sig.name(), goal, quiet, gaps, level);
	std::vector<CL> h(SIZE, CL(0, 0)), target(SIZE);
	for (int i = 0; i < SIZE; ++i)
		target[i] = Val<T>::get(Val<T>::make(rng.sym(), rng.sym()));
	const T *w = *d;
	for (int i = 0; i < SIZE; ++i)
		CHECK(Val<T>::get(w[i]) == CL(0, 0), "weight %d starts at %Lg%+Lgj", i, Val<T>::re(w[i]), Val<T>::im(w[i]));
	int changes = 0;
	for (int n = 0; n < len; ++n) {
		double re, im;
		sig(n, re, im);
		if (n < quiet || (gaps && n / gaps % 3 == 2))
			re = im = 0;
		T x = Val<T>::make(level * re, level * im);
		h.erase(h.begin());
		h.push_back(Val<T>::get(x));
		L loud = 0;
		for (const CL &v: h)
			loud += std::norm(v);
		if (loud != 0 && loud < 1e5L * L(std::numeric_limits<R>::min()))
			break;
		CL reach(0, 0);
		for (int i = 0; i < SIZE; ++i)
			reach += target[i] * h[i];
		T want = Val<T>::make(rng.sym(), rng.sym());
		if (goal)
			want = Val<T>::make(double(reach.real()), double(reach.imag()));
		CL desired = Val<T>::get(want);
		bool plain = !fixed && rng.below(3) == 0;
		R mu = plain ? R(1) : R(fixed ? mu0 : 2 * rng.unit());
		std::vector<CL> before(SIZE);
		w = *d;
		for (int i = 0; i < SIZE; ++i)
			before[i] = Val<T>::get(w[i]);
		T got = plain ? (*d)(x, want) : (*d)(x, want, mu);
		CL estimate(0, 0);
		L power = 0, terms = 0;
		for (int i = 0; i < SIZE; ++i) {
			estimate += before[i] * h[i];
			power += std::norm(h[i]);
			terms += mag(before[i]) * mag(h[i]);
		}
		CL error = desired - estimate;
		L e = eps<R> * (2 * mag(desired) + (SIZE + 8) * terms) + 64 * L(std::numeric_limits<R>::min());
		close(s, "error", got, error, e, n);
		w = *d;
		L far = 0, was = 0, loose = 0;
		for (int i = 0; i < SIZE; ++i) {
			CL next = before[i];
			L tol = 0;
			if (power != 0) {
				CL step = L(mu) / power * error * std::conj(h[i]);
				next += step;
				tol = L(mu) / power * e * mag(h[i]) + eps<R> * (2 * mag(before[i]) + (SIZE + 12) * mag(step)) + 64 * L(std::numeric_limits<R>::min());
			}
			close(s, "weight", w[i], next, tol, i);
			CL now = Val<T>::get(w[i]);
			far += std::norm(now - target[i]);
			was += std::norm(before[i] - target[i]);
			loose += tol;
			changes += i == 0 && now != before[0];
		}
		if (goal) {
			// the goal is itself rounded
			L slack = 2 * loose + 4 * eps<R> * mag(desired) * (power > 0 ? sqrtl(SIZE / power) : 0);
			CHECK(sqrtl(far) <= sqrtl(was) + slack, "distance to the target grew from %Lg to %Lg at step %d", sqrtl(was), sqrtl(far), n);
			s.label("target");
		}
		s.label(power == 0, "no power");
	}
	s.nontrivial(changes > 1);
}

template <typename T>
static void real(Src &s)
{
	Sizes<1, 2, 3, 4, 5, 8, 16, 32>::any(s, [&](auto n) { adapt<T, n(), DSP::NLMS<T, n()>>(s); });
}

template <typename T>
static void cmplx(Src &s)
{
	Sizes<1, 2, 3, 4, 5, 8, 16, 32>::any(s, [&](auto n) { adapt<T, n(), DSP::NCLMS<T, n()>>(s); });
}

PROP(real_float, 40000, 400000) { real<float>(s); }
PROP(real_double, 40000, 400000) { real<double>(s); }
PROP(complex_float, 40000, 400000) { cmplx<DSP::Complex<float>>(s); }
PROP(complex_double, 40000, 400000) { cmplx<DSP::Complex<double>>(s); }
PROP(std_complex, 40000, 400000) { cmplx<std::complex<float>>(s); }
PROP(marathons, 40, 400)
{
	if (s.coin())
		adapt<float, 3, DSP::NLMS<float, 3>>(s, 70000);
	else
		adapt<DSP::Complex<double>, 4, DSP::NCLMS<DSP::Complex<double>, 4>>(s, 70000);
}
PROP(many_weights, 120, 1200)
{
	Sizes<100, 300>::any(s, [&](auto n) {
		if (s.coin())
			adapt<double, n(), DSP::NLMS<double, n()>>(s);
		else
			adapt<DSP::Complex<float>, n(), DSP::NCLMS<DSP::Complex<float>, n()>>(s);
	});
}
