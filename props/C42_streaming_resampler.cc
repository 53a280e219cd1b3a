// RULE: a case is non-trivial when at least one input was skipped or gave two outputs
// ASSUME: filters of 5 to 65 taps with 1 to 16 samples per input, cutoff from 0.05 to half the rate, window parameter 0 to 3, differences below half the rate, histories of up to 400 and of about a hundred thousand inputs; where a threshold is met to within the accumulated rounding, either side is accepted
// TECH: model-based testing of histories against an extended-precision position model and kernel with a forward error bound
#include "dut.hh"
#include "resampler.hh"
#include "value.hh"
#include "kernel.hh"

template <typename T, typename IO, int TAPS, int OVER>
static void resample(Src &s, int least = 0)
{
	typedef typename Val<IO>::real V;
	T rate = T(s.coin(1, 3) ? 1 : s.coin() ? s.pick({ 8000, 44100, 48000 }) : s.coin(3, 4) ? s.real(0.5, 1000) : s.logreal(1e-6, 1e9));
	T cutoff = rate * T(s.coin(1, 4) ? 0.5 : s.real(0.05, 0.5)), alpha = T(s.coin(1, 3) ? s.range(0, 3) : s.real(0, 3));
	int kind = s.range(0, 4), len = least ? s.range(least, 2 * least) : s.coin(1, 3) ? s.range(1, 20) : s.range(20, 400);
	Signal sig(s);
	Rng rng(s.seed());
	T base = T(s.real(-0.49, 0.49)), small = T(s.pick({ -1, 1 }) * s.logreal(1e-3, 0.1)), exact = T(s.pick({ -0.25, 0.25, -0.125, 0.375, 0.0 }));
	s.note("%s %s, %d taps, %d per input, rate %g, cutoff %g, alpha %g, differences of kind %d (%g, %g, %g), %d inputs, %s", TypeName<T>::get(), Val<IO>::name(),
		TAPS, OVER, double(rate), double(cutoff), double(alpha), kind, double(base), double(small), double(exact), len, sig.name());
	Dirty<DSP::Resampler2<T, IO, TAPS, OVER>> d(s.range(0, 3), rate, cutoff, alpha);
	L unit = eps<T>, fine = std::max<L>(eps<T>, eps<V>);
	Kernel kernel(TAPS, OVER, 2 * L(cutoff) / L(rate), alpha, unit);
	std::vector<CL> h(TAPS, CL(0, 0));
	L pos = 0, err = 0, moved = 0;
	int emitted = 0, skipped = 0, doubled = 0;
	for (int i = 0; i < len; ++i) {
		double re, im;
		sig(i, re, im);
		IO x = Val<IO>::make(re, im);
		T diff = 0;
		switch (kind) {
		case 0: diff = rate * base; break;
		case 1: diff = rate * small; break;
		case 2: diff = rate * exact; break;
		case 3: diff = rate * T(0.49 * rng.sym()); break;
		case 4: diff = rate * T(i / 30 & 1 ? base : -base); break;
		}
		IO out[4];
		for (int j = 0; j < 4; ++j)
			out[j] = Val<IO>::make(-12345, 54321);
		int n = (*d)(out, x, diff);
		CHECK(n >= 0 && n <= 2, "%d outputs for an input", n);
		for (int j = n; j < 4; ++j)
			CHECK(Val<IO>::get(out[j]) == CL(-12345, 54321) || (!Val<IO>::complex && Val<IO>::get(out[j]) == CL(-12345, 0)), "output %d of %d was written", j, n);
		h.erase(h.begin());
		h.push_back(Val<IO>::get(x));
		if (pos < -0.5L - err || (pos < -0.5L + err && n == 0)) {
			CHECK(n == 0, "%d outputs at input %d for a position of %Lg", n, i, pos);
			pos += 1;
			err += unit;
			++skipped;
			continue;
		}
		CHECK(n > 0, "no output at input %d for a position of %Lg", i, pos);
		L delta = L(diff) / L(rate);
		for (int j = 0; ; ++j) {
			CL sum(0, 0);
			L tol = 0;
			for (int t = 0; t < TAPS; ++t) {
				L slope, e, k = t + pos, v = kernel(k, slope, e, unit), a = mag(h[t]);
				sum += v * h[t];
				tol += a * (e + fabsl(slope) * (err + 3 * unit * fabsl(k)) + fine * fabsl(v) * (2 + sqrtl(TAPS)));
			}
			close(s, "output", out[j], sum, tol + 1e-30L, i);
			++emitted;
			pos += delta;
			moved += delta;
			err += unit * (fabsl(pos) + fabsl(delta));
			bool more = pos > 0.5L + err || (pos > 0.5L - err && j + 1 < n);
			if (!more) {
				CHECK(j + 1 == n, "%d outputs instead of %d at input %d for a position of %Lg", n, j + 1, i, pos);
				break;
			}
			CHECK(j + 1 < n, "%d outputs at input %d for a position of %Lg", n, i, pos);
			pos -= 1;
			++doubled;
		}
		CHECK(fabsl(pos) <= 1 + err, "position %Lg", pos);
	}
	CHECK(emitted == len - skipped + doubled && fabsl(moved - (doubled - skipped) - pos) < 1e-9L, "%d outputs for %d inputs and a movement of %Lg", emitted, len, moved);
	s.label(skipped, "skipped");
	s.label(doubled, "doubled");
	s.nontrivial(skipped || doubled);
}

template <typename T, typename IO>
static void any(Src &s)
{
	switch (s.range(0, 9)) {
	case 0: return resample<T, IO, 5, 4>(s);
	case 1: return resample<T, IO, 9, 16>(s);
	case 2: return resample<T, IO, 15, 8>(s);
	case 3: return resample<T, IO, 16, 4>(s);
	case 4: return resample<T, IO, 21, 2>(s);
	case 5: return resample<T, IO, 33, 16>(s);
	case 6: return resample<T, IO, 7, 1>(s);
	case 7: return resample<T, IO, 12, 3>(s);
	case 8: return resample<T, IO, 19, 10>(s);
	case 9: return resample<T, IO, 65, 7>(s);
	}
}

PROP(real_float, 20000, 200000) { any<float, float>(s); }
PROP(real_double, 20000, 200000) { any<double, double>(s); }
PROP(complex_float, 20000, 200000) { any<float, DSP::Complex<float>>(s); }
PROP(complex_double, 20000, 200000) { any<double, std::complex<double>>(s); }
PROP(tones, 4000, 40000)
{
	// a tone well below the cutoff comes out at instants that advance by one minus difference over rate
	typedef std::complex<double> C;
	double f = s.real(-0.35, 0.35), rate = s.pick({ 8000, 48000 }), diff = rate * s.real(-0.2, 0.2), alpha = s.real(2, 3);
	int samples = s.range(60, 300), n = 0;
	s.note("frequency %g, rate %g, difference %g, alpha %g, %d samples", f, rate, diff, alpha, samples);
	Dirty<DSP::Resampler2<double, C, 33, 16>> d(s.range(0, 3), rate, 0.45 * rate, alpha);
	for (int i = 0; i < samples; ++i) {
		C out[2];
		int m = (*d)(out, std::polar(1.0, 6.283185307179586 * f * i), diff);
		for (int j = 0; j < m; ++j, ++n) {
			if (i < 33)
				continue;
			L at = n * (1 - L(diff) / rate) - 16;
			close(s, "tone", out[j], std::polar<L>(1, 6.28318530717958647692L * f * at), 0.01L, n);
			s.nontrivial(true);
		}
	}
}
PROP(marathons, 32, 320)
{
	if (s.coin())
		resample<double, double, 7, 4>(s, 70000);
	else
		resample<float, DSP::Complex<float>, 5, 4>(s, 70000);
}
