// RULE: a case is non-trivial when outputs are written from an input that is not zero
// ASSUME: filters of 5 to 65 taps with 1 to 16 samples per input, cutoff from 0.05 to half the rate, window parameter 0 to 3, difference below half the rate, blocks of up to 150 samples, some of 70000 to 140000; where the nearest input is a matter of rounding, either is accepted
// TECH: differential testing against direct interpolation with an extended-precision kernel and a forward error bound
#include "dut.hh"
#include "resampler.hh"
#include "value.hh"
#include "kernel.hh"

template <typename T, typename IO, int TAPS, int OVER>
static void resample(Src &s, int least = 0, bool exact = false)
{
	typedef typename Val<IO>::real V;
	T rate = T(s.coin(1, 3) ? 1 : s.coin() ? s.pick({ 8000, 44100, 48000 }) : s.coin(3, 4) ? s.real(0.5, 1000) : s.logreal(1e-6, 1e9));
	T cutoff = rate * T(s.coin(1, 4) ? 0.5 : s.real(0.05, 0.5)), alpha = T(s.coin(1, 3) ? s.range(0, 3) : s.real(0, 3));
	T diff = 0;
	switch (s.range(0, 4)) {
	case 0: break;
	case 1: diff = rate * T(s.real(-1e-3, 1e-3)); break;
	case 2: diff = rate * T(s.real(-0.5, 0.5)); break;
	case 3: diff = rate * T(s.pick({ -0.5, -0.25, 0.25, 0.5, 1.0 })); break;
	case 4: diff = rate * T(s.pick({ -1, 1 }) * s.logreal(1e-4, 0.3)); break;
	}
	if (exact) {
		// a ratio without rounding
		int den = 1 << s.range(4, 12), num = s.range(den / 2, 2 * den);
		cutoff *= T(num) / rate;
		rate = T(num);
		diff = T(den - num);
	}
	int samples = least ? s.range(least, 2 * least) : s.coin(1, 6) ? s.range(0, TAPS + 2) : s.range(TAPS, 150), stride = s.coin(1, 3) ? s.range(2, 4) : 1;
	Signal sig(s);
	s.note("%s %s, %d taps, %d per input, rate %g, cutoff %g, alpha %g, difference %g, %d samples, stride %d, %s", TypeName<T>::get(), Val<IO>::name(),
		TAPS, OVER, double(rate), double(cutoff), double(alpha), double(diff), samples, stride, sig.name());
	size_t room = samples ? size_t(samples - 1) * stride + 1 : 0;
	Block<IO> in(room), out(room);
	const IO gap = Val<IO>::make(-12345.0, 54321.0), poison = Val<IO>::make(1e20, -1e20);
	std::vector<CL> x(samples);
	bool any = false;
	for (size_t i = 0; i < room; ++i) {
		out[i] = gap;
		in[i] = poison;
		if (i % stride)
			continue;
		double re, im;
		sig(int(i / stride), re, im);
		in[i] = Val<IO>::make(re, im);
		x[i / stride] = Val<IO>::get(in[i]);
		any = any || mag(x[i / stride]) > 0;
	}
	Dirty<DSP::Resampler<T, TAPS, OVER>> d(s.range(0, 3), rate, cutoff, alpha);
	for (int round = s.coin(1, 8); round >= 0; --round) {
		if (stride == 1 && s.coin())
			(*d)(out.data(), in.data(), diff, samples);
		else
			(*d)(out.data(), in.data(), diff, samples, stride);
	}
	L unit = eps<T>, fine = std::max<L>(eps<T>, eps<V>);
	Kernel kernel(TAPS, OVER, 2 * L(cutoff) / L(rate), alpha, unit);
	L ratio = L(rate) / (L(rate) + L(diff));
	std::vector<bool> written(room, false);
	bool wrote = false;
	for (int i = 0; i < samples - TAPS; ++i) {
		L pos = i * ratio, off = (exact ? 0 : 3 * unit * pos) + 1e-15L * pos;
		long lo = long(ceill(pos - 0.5L - off)), hi = long(floorl(pos + 0.5L + off));
		size_t at = size_t(i + (TAPS - 1) / 2) * stride;
		bool inside = false, outside = false, good = false;
		CL best_want(0, 0);
		L best = 0, best_tol = 0;
		for (long s0 = lo; s0 <= hi; ++s0) {
			if (s0 < 0 || s0 + TAPS > samples) {
				outside = true;
				continue;
			}
			CL sum(0, 0);
			L tol = 0;
			for (int j = 0; j < TAPS; ++j) {
				L slope, err, k = s0 + j - pos, v = kernel(k, slope, err, unit), a = mag(x[s0 + j]);
				sum += v * x[s0 + j];
				tol += a * (err + fabsl(slope) * (off + 3 * unit * fabsl(k)) + fine * fabsl(v) * (2 + sqrtl(TAPS)));
			}
			CL got = Val<IO>::get(out[at]);
			L miss = std::max(fabsl(got.real() - sum.real()), fabsl(got.imag() - sum.imag())) / (tol + 1e-30L);
			if (!inside || miss < best) {
				best = miss;
				best_want = sum;
				best_tol = tol;
			}
			inside = true;
		}
		written[at] = true;
		if (outside && Val<IO>::get(out[at]) == Val<IO>::get(gap))
			good = true;
		if (!good) {
			CHECK(inside, "output %d was written although its filter leaves the block", int(at / stride));
			close(s, "output", out[at], best_want, best_tol + 1e-30L, i);
			wrote = true;
		}
		s.label(lo != hi, "either side");
		s.label(outside, "outside");
	}
	for (size_t i = 0; i < room; ++i)
		if (!written[i])
			CHECK(Val<IO>::get(out[i]) == Val<IO>::get(gap), "output at %d was changed", int(i));
	s.nontrivial(wrote && any);
}

template <typename T, typename IO>
static void any(Src &s)
{
	switch (s.range(0, 9)) {
	case 0: return resample<T, IO, 5, 4>(s);
	case 1: return resample<T, IO, 9, 16>(s);
	case 2: return resample<T, IO, 15, 8>(s);
	case 3: return resample<T, IO, 16, 4>(s);
	case 4: return resample<T, IO, 21, 2>(s);
	case 5: return resample<T, IO, 33, 16>(s);
	case 6: return resample<T, IO, 7, 1>(s);
	case 7: return resample<T, IO, 12, 3>(s);
	case 8: return resample<T, IO, 19, 10>(s);
	case 9: return resample<T, IO, 65, 7>(s);
	}
}

PROP(real_float, 36000, 360000) { any<float, float>(s); }
PROP(real_double, 36000, 360000) { any<double, double>(s); }
PROP(complex_float, 36000, 360000) { any<float, DSP::Complex<float>>(s); }
PROP(complex_double, 36000, 360000) { any<double, std::complex<double>>(s); }

PROP(large_blocks, 24, 240) { if (s.coin()) resample<double, double, 5, 4>(s, 70000); else resample<double, DSP::Complex<double>, 7, 1>(s, 70000); }
PROP(exact_ratio, 120, 1200) { if (s.coin()) resample<float, float, 5, 4>(s, 6000, true); else resample<float, DSP::Complex<float>, 7, 1>(s, 6000, true); }

PROP(tones, 4000, 40000)
{
	// what all that is for: a tone well below the cutoff comes out at the corrected instants
	typedef std::complex<double> C;
	double f = s.real(-0.35, 0.35), rate = s.pick({ 8000, 48000 }), diff = rate * s.real(-0.02, 0.02), alpha = s.real(2, 3);
	int samples = s.range(40, 200);
	s.note("frequency %g, rate %g, difference %g, alpha %g, %d samples", f, rate, diff, alpha, samples);
	Block<C> in(samples), out(samples);
	for (int i = 0; i < samples; ++i)
		in[i] = std::polar(1.0, 6.283185307179586 * f * i);
	Dirty<DSP::Resampler<double, 33, 16>> d(s.range(0, 3), rate, 0.45 * rate, alpha);
	(*d)(out.data(), in.data(), diff, samples);
	for (int i = 0; i < samples - 33; ++i) {
		double at = i * rate / (rate + diff);
		if (at + 34 > samples)
			break;
		close(s, "tone", out[i+16], std::polar<L>(1, 6.28318530717958647692L * f * (at + 16)), 0.01L, i);
		s.nontrivial(true);
	}
}
