#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, state=None):
    if len(title) > 80: print("LONG", title)
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


NOTEST = "No existing test touches this component; "
IN, HI, CO = ["inputs"], ["histories", "inputs"], ["configurations", "inputs"]

prop("C01", "The FFT equals the discrete Fourier transform for every supported length",
     "For every transform length that is a product of primes up to 31, in both directions and for single and double precision complex values, the fast Fourier transform returns the unnormalised discrete Fourier transform of its input to within rounding error growing only slowly with the length. The input is left untouched, exactly as many values as the length are written, and a forward transform followed by a backward one returns the input times the length.",
     CO, "all 31-smooth lengths, both signs, all finite inputs", NOTEST + "a test can sample a few lengths, but each radix, each pair of radices and each direction has its own hand-unrolled code.",
     ["fft.hh"], [("mixed-radix decimation in time butterflies", "fft.hh Dit<...>"), ("radix selection", "fft.hh split()"), ("twiddle factors", "fft.hh FastFourierTransform")])
prop("C02", "The real-input transform returns the one-sided spectrum",
     "For every even length N whose half is a product of primes up to 31, the real-to-half-complex transform returns N/2+1 bins: bins 1 to N/2-1 equal the discrete Fourier transform of the real input, and bins 0 and N/2 equal half of it, so that 2/N times the real part of the one-sided synthesis sum reproduces the input. The input is left untouched and nothing beyond bin N/2 is written.",
     CO, "all supported even lengths, all finite real inputs", NOTEST + "the packing trick has to be right for every bin, for even and odd half lengths.",
     ["fft.hh"], [("half-length transform and recombination", "fft.hh RealToHalfComplexTransform")])
prop("C03", "Zero padding in the frequency domain is band-limited interpolation",
     "For every pair of input length and larger output length, interpolation by frequency-domain zero padding returns the values of the trigonometric interpolant of the input (the Nyquist term of an even length split evenly between both signs) at the equally spaced output positions, with unchanged amplitude. In particular, where an output position coincides with an input position, the input value is returned, and a call does not depend on earlier calls.",
     ["configurations", "inputs", "histories"], "all supported length pairs, odd and even, all inputs, repeated calls", NOTEST + "the placement of bins differs between odd and even lengths and for small expansion ratios.",
     ["fdzp.hh", "fft.hh"], [("bin placement and scaling", "fdzp.hh FDZP::operator()")])
prop("C04", "Complex arithmetic agrees with the field of complex numbers",
     "Addition, subtraction, multiplication, division (complex by complex, complex by real, real by complex), negation, conjugation, squared magnitude, magnitude, argument, polar construction, equality and the compound assignments of the complex type agree with exact complex arithmetic to within a few units in the last place of the operands' magnitude, for all finite operands whose products neither overflow nor underflow. Compound assignments also work when an operand is assigned to itself, and integer component types are exact.",
     IN, "all finite operands in range, all operators", NOTEST + "a sign error in one operator shows only for operands with non-zero imaginary parts.",
     ["complex.hh"], [("operators", "complex.hh")])
prop("C05", "Sine and cosine on the unit circle are accurate to rounding for every n/N",
     "For every N from 1 to two hundred million and every n from -N to N, the unit circle sine and cosine of n/N of a turn, and the angle in radians, are within three units of machine precision (for the angle: four, relative to it) of the true values in single and double precision, both at run time and in constant expressions. The mathematical constants (multiples of pi, roots) are the correctly rounded values in every precision.",
     IN, "all pairs n, N with |n| <= N, all precisions", "The existing test stops at N = 5000; larger N reach other integer ranges and rounding.",
     ["unit_circle.hh", "const.hh"], [("octant reduction in integers", "unit_circle.hh UnitCircle::cos, sin"), ("polynomial kernels", "unit_circle.hh"), ("constants", "const.hh")])
prop("C06", "The arctangent approximations are accurate in all quadrants and magnitudes",
     "For all finite arguments, atan and atan2 are within ten units of machine precision of the true angle, relative to it, in single and double precision, atan is odd, and atan2 returns an angle between -pi and pi in the right quadrant whatever the magnitudes of its arguments. On the axes it returns 0, pi, or plus or minus half pi, at the origin 0, and the result never has the opposite sign of the first argument, even when the quotient of the arguments overflows or underflows.",
     IN, "all finite pairs (y, x)", "The existing test only visits points of the unit circle with N <= 5000; ratios, magnitudes and interval borders elsewhere are not reached.",
     ["atan2.hh"], [("range reduction and rational kernel", "atan2.hh atan_approx, atan_kernel"), ("quadrant selection", "atan2.hh atan2")])
prop("C07", "The CORDIC arctangent is within one LSB at full range and degrades as 1/r",
     "For every pair of 8-bit or 16-bit signed arguments other than the origin, the fixed-point arctangent differs from the true angle (full turn = full integer range, modulo a turn) by less than 1.25 LSB plus a fraction (0.3 for 8, 0.9 for 16 bits) of full scale divided by the magnitude of the argument. For every representable angle, the result for the nearest point on the full-scale circle is within 1 LSB of that angle.",
     IN, "all (y, x) pairs of 8 and 16 bit", "The existing test visits only the rounded full-scale circle, 2^16 of the 2^32 argument pairs.",
     ["cordic.hh"], [("shift-and-add rotations and angle table", "cordic.hh CORDIC::atan2")])
prop("C08", "Decibel and power-of-ten conversions are accurate over the whole range",
     "For every exponent whose power of ten is a normal number below half the largest one, the power-of-ten function is right to a relative error of a few units of machine precision times one plus the size of the exponent, and scaling by a power of two is exact wherever that power and the result are normal numbers. Converting a positive ratio to decibels is right to about 1e4 units of machine precision (plus the truncation of its series for extreme ratios), is monotonic at that resolution, and converting back returns the ratio.",
     IN, "all exponents and all positive ratios in the normal range, float and double", NOTEST + "errors hide in ranges that ordinary ratios do not reach.",
     ["exp.hh", "decibel.hh"], [("rational approximation and scaling", "exp.hh exp10, ldexp"), ("root and series", "decibel.hh decibel"), ("inverse", "decibel.hh idecibel")])
prop("C09", "Compensated summation keeps the error independent of the number of terms",
     "For every sequence of finite terms in any order, the compensated sum differs from the exact sum by at most a few units of machine precision times the sum of the magnitudes of the terms, however many terms there are and however their magnitudes vary, also when the program is built with the project's fast-math flags. The query without a new term returns the running sum, the test whether a term changes the sum says so exactly when neither the sum nor its compensation changed, a copy continues independently, and summing a range equals feeding its elements one by one after the initial value.",
     HI, "all term sequences, both precisions, the project's compiler flags", "The existing test is one fixed series; loss of compensation for other orders of magnitude or sign patterns is not seen.",
     ["kahan.hh"], [("compensated addition", "kahan.hh Kahan::operator()"), ("range sum", "kahan.hh kahan_sum")])
prop("C10", "All moving averages return the mean of exactly the last N inputs",
     "For every window length and every input history, with zeros standing for inputs before the first, each of the four moving averages returns the mean (or the sum, where normalisation is switched off) of exactly the last N inputs; with integers all agree exactly with integer division of the exact sum. With floats the recomputing and the tree variant do not drift (error bounded by the current window alone), and the running sums stay within their accumulated rounding, which for the compensated one does not grow with the window length; the recomputing variant's absolute deviation is the mean absolute difference of the window to its average.",
     HI, "all window lengths, histories and element types", NOTEST + "drift and windowing errors need particular lengths, long histories or a large dynamic range.",
     ["sma.hh", "delay.hh", "swa.hh", "kahan.hh"], [("windows", "sma.hh SMA1 SMA2 SMA3 SMA4"), ("delay line", "delay.hh"), ("tree", "swa.hh")])
prop("C11", "The sliding window accelerator reduces exactly the last N inputs",
     "For every window length, every associative and commutative operation with an identity element and every input history, the sliding window accelerator returns the reduction of the last N inputs, each exactly once, with the identity standing for inputs before the first.",
     HI, "all window lengths, operations and histories", "It is used as the reference of the moving extrema test, which only compares it with code under test for minimum and maximum of random integers; sums, gcds or modular products are not tried.",
     ["swa.hh"], [("implicit binary tree update", "swa.hh SWA::operator()")])
prop("C12", "Moving minimum and maximum are the extrema of the last N inputs",
     "For every window length, element type and input history, including repeated values, monotone runs, constant stretches and the extreme values of the type, the moving minimum and the moving maximum return the smallest and the largest of the last N inputs (of all inputs so far while fewer than N were given).",
     HI, "all window lengths and histories", "The existing test uses uniformly random 32-bit integers, which practically never repeat within a window, and no floating-point or narrow types.",
     ["movext.hh", "delay.hh", "stack.hh"], [("two monotone stacks and a delay line", "movext.hh MovExt::operator()"), ("initial values", "movext.hh MovMin MovMax")])
prop("C13", "The fixed-size deque behaves like an unbounded deque up to its capacity",
     "For every capacity and every sequence of pushes and pops at both ends, clears, copies and queries that stays within the capacity, front, back, size, capacity, empty and full agree with a reference deque. A push to a full deque and a pop or access of an empty one are caught by an assertion.",
     HI, "all capacities and operation histories", "The existing random test never calls clear() or full() in a history, nor an operation that must be refused.",
     ["deque.hh"], [("ring buffer indices", "deque.hh Deque")])
prop("C14", "The fixed-size stack behaves like an unbounded stack up to its capacity",
     "For every capacity and every sequence of pushes, pops, clears, copies and queries that stays within the capacity, top, first (the oldest element), size, capacity, empty and full agree with a reference stack. A push to a full stack and a pop or access of an empty one are caught by an assertion.",
     HI, "all capacities and operation histories", NOTEST + "only the moving extrema use it, with two operations.",
     ["stack.hh"], [("array and position", "stack.hh Stack")])
prop("C15", "The delay line returns the input of exactly N calls before",
     "For every length and element type and every input history, the digital delay line returns the value passed exactly N calls before, and the initial value (zero by default) for the first N calls.",
     HI, "all lengths and histories, also much longer than the line", NOTEST + "only indirectly used by the moving extrema test, always with an initial value.",
     ["delay.hh"], [("ring position", "delay.hh Delay::operator()")])
prop("C16", "The bip buffer gives contiguous access to exactly the last N values",
     "For every length and every history of insertions and queries, the pointer returned gives the last N values in order, oldest first and newest last, with zeros for values before the first; querying without inserting returns the same view without changing it. All N values lie inside the buffer object.",
     HI, "all lengths and histories", NOTEST + "wrap-around of the two write positions needs histories longer than twice the length.",
     ["bip_buffer.hh"], [("two mirrored write positions", "bip_buffer.hh BipBuffer::operator()")])
prop("C17", "Sorting returns an ordered permutation of the input",
     "For every array of every length, including empty, constant, sorted, reversed, organ-pipe, sawtooth and few-valued ones, quick sort leaves the elements in ascending order and is a permutation of the input: nothing is lost, duplicated or invented, and nothing outside the array is touched.",
     IN, "all arrays of ordered element types", "The existing test sorts large random arrays of integers and checks the order but not that the elements are those of the input.",
     ["quick.hh"], [("median of five, three-way partition, insertion sort below 33 elements", "quick.hh QUICK::sort, partition, median, insertion")])
prop("C18", "Selection returns the k-th smallest element and partitions around it",
     "For every non-empty array and every valid rank k, quick select returns the value that position k has in the sorted array, leaves that value at position k with nothing larger before and nothing smaller after it, and only permutes the elements. An empty array or a rank beyond the end is caught by an assertion.",
     IN, "all arrays and ranks", "The existing test checks the partition around a[k] but not that the array is still a permutation, nor structured inputs or ranks at the ends of small arrays.",
     ["quick.hh"], [("partition loop", "quick.hh QUICK::select"), ("precondition", "quick.hh quick_select")])
prop("C19", "Window functions have their defined values, symmetry and range",
     "For every window length of at least two and every position inside it, the Rect, Hann, Hamming, Lanczos, Blackman (exact, one- and three-parameter), Gauss and Kaiser windows return their textbook values to within rounding, in single and double precision. They are symmetric, the rectangular window is zero outside, Hann, Lanczos and Kaiser stay between zero and one up to rounding, and no value inside a window is ever non-finite.",
     CO, "all lengths >= 2, positions and parameters (Kaiser alpha up to 3)", NOTEST + "edges, centres and odd or even lengths take different paths.",
     ["window.hh", "unit_circle.hh", "kahan.hh"], [("window formulas", "window.hh"), ("Bessel series", "window.hh Kaiser::i0")])
prop("C20", "FIR filter designs are the ideal impulse responses, and Coeffs normalises them",
     "For every number of taps and every cutoff between zero and half the sampling rate, the low-pass, high-pass, band-pass and Hilbert-transform designs return the ideal impulse response centred on the taps, the rational-cutoff designs agree with the floating-point ones, low-pass plus high-pass is the full-band response and band-pass is the difference of two low-passes. The coefficient helper holds the product of the given functions at every tap, returns zero outside, and normalisation makes the magnitude of the sum of the taps one over the given divisor without changing their proportions.",
     CO, "all tap counts, positions and cutoffs", NOTEST + "the centre tap and even tap counts are special, rational designs reduce angles in integers.",
     ["filter.hh", "coeffs.hh", "utils.hh"], [("impulse responses", "filter.hh"), ("coefficient array", "coeffs.hh Coeffs")])
prop("C21", "The exponential moving average is a unity-gain low-pass at its cutoff",
     "For every setting and history, the exponential moving average follows its recursion from the given start value, never leaves the range spanned by start value and inputs, passes constants unchanged and settles to them; set by a number of samples s it moves by 1/s of the difference, and set by a cutoff n/N its gain at that frequency is -3 dB. Every cascade up to order 16 is the composition of equal stages with the cutoff shifted so that the whole has -3 dB at n/N (to a few percent for low cutoffs with n large enough to be representable), starting from zero.",
     HI, "all settings, orders and histories", NOTEST + "the per-order correction factors and the cutoff formula are only visible in the frequency response.",
     ["ema.hh", "utils.hh"], [("recursion", "ema.hh EMA"), ("cutoff formula and cascade factors", "ema.hh cutoff_alpha, cascade_factor")])
prop("C22", "Biquad sections have the frequency response their name promises",
     "For every frequency strictly between zero and half the sampling rate and every positive quality factor, the biquad is stable and its response is: low-pass with unity gain at DC, zero at half the sampling rate and gain Q at the corner; high-pass mirrored; notch with zero at the frequency and unity at both ends; band-pass with unity at the frequency and zeros at both ends, both with bandwidth set by Q given in decibels; all-pass with unity magnitude everywhere and half a turn at the frequency. Fed with any real or complex history it equals the direct evaluation of that transfer function, and an unconfigured section passes its input unchanged.",
     HI, "all kinds, frequencies, Q values and input histories", NOTEST + "a wrong coefficient shows only in the response at particular frequencies.",
     ["biquad.hh", "decibel.hh", "unit_circle.hh"], [("coefficients", "biquad.hh Biquad::lowpass .. allpass"), ("recursion", "biquad.hh Biquad::operator()")])
prop("C23", "Biquad cascades are Butterworth filters",
     "For every number of sections and every cutoff strictly between zero and half the sampling rate, the squared magnitude of the response of the low-pass cascade at frequency f is 1/(1+(tan(pi f)/tan(pi fc))^(4 sections)) and that of the high-pass cascade its mirror image, so the gain is -3 dB at the cutoff for every order and the response is monotone. The cascade's response to any input history is that of the sections one after another.",
     CO, "all orders, cutoffs and frequencies", NOTEST + "the pole angles differ for each order and section.",
     ["biquad.hh"], [("section quality factors", "biquad.hh BiquadCascade::lowpass, highpass")])
prop("C24", "The DC blocker removes the mean and keeps unity gain at the top",
     "For every setting and input history, real or complex, the DC blocker follows y = (1+a)/2 (x - x1) + a y1 with a = (s-1)/s from a zero start, so any constant decays to zero like a^n, adding a constant to an input that starts from it leaves no lasting trace, and an alternating signal passes with gain one.",
     HI, "all settings and histories", NOTEST + "the settings and long-term behaviour are not sampled anywhere.",
     ["blockdc.hh"], [("recursion", "blockdc.hh BlockDC")])
prop("C25", "The normalizer turns any sinusoid with offset into a unit sinusoid",
     "For every amplitude, offset and frequency, once settled, the sine normalizer set to a number of samples that covers many periods returns a sinusoid of amplitude one and mean zero within the ripple of its averaging, independently of the scale of the input, and the I/Q normalizer does so for both components independently. At every step the output is the DC-blocked input divided by the square root of twice the running mean of its square, which starts at one half.",
     HI, "all amplitudes, offsets, frequencies and histories", NOTEST + "settling and component mix-ups need long histories with different components.",
     ["normalize.hh", "blockdc.hh", "ema.hh"], [("DC block, mean square, division", "normalize.hh NormalizeSine, NormalizeIQ")])
prop("C26", "The oscillator produces the exact phase ramp with unit magnitude forever",
     "For every frequency setting, by integer ratio, by angle or by normalised frequency, the k-th output of the oscillator after start or reset is the unit phasor at k times the step, starting at one; its magnitude stays one to within rounding for any number of steps and its phase error grows at most linearly with a few units of machine precision per step. Changing the frequency continues from the current phase, and reset restarts at one without changing the frequency.",
     HI, "all frequencies and histories of steps, changes and resets", NOTEST + "magnitude or phase drift needs long histories.",
     ["phasor.hh", "unit_circle.hh"], [("complex rotation and renormalisation", "phasor.hh Phasor::operator()")])
prop("C27", "Quarter-rate down conversion equals mix, half-band filter, decimate",
     "For every tap count, window parameter and input history, the complex down converter returns for each pair of inputs what mixing with a complex oscillator at a quarter of the sampling rate, filtering with the Kaiser-windowed half-band low-pass and keeping every second value gives, to within rounding, with the oscillator starting at j on the first input and the filter centred on input number 2k+1-(taps-1)/2 for pair k. A real tone near a quarter of the sampling rate comes out as a single complex tone at the difference frequency.",
     HI, "all tap counts, window parameters and input histories", NOTEST + "sign alternation and the symmetric tap folding need several pairs to show.",
     ["cdc.hh", "filter.hh", "window.hh"], [("polyphase half-band", "cdc.hh CDC::operator()")])
prop("C28", "The Hilbert transformer returns the delayed input and its windowed transform",
     "For every tap count, window parameter and input history, the real part of the discrete Hilbert transformer's output is the input delayed by half the taps plus one (the value just given counts from the next call on), and the imaginary part is the convolution of the input with the Kaiser-windowed ideal Hilbert response at the same delay, to within rounding. A real tone in mid-band therefore gives an analytic signal turning in the positive direction.",
     HI, "all tap counts, window parameters and input histories", NOTEST + "a sign or index error in the folded taps is only visible with generic inputs.",
     ["hilbert.hh", "window.hh"], [("antisymmetric folded taps", "hilbert.hh Hilbert::operator()")])
prop("C29", "The FM demodulators return the phase step relative to the bandwidth",
     "For every bandwidth and every input history of non-zero complex values starting from phase zero, the first three demodulators return the wrapped phase difference of successive inputs divided by pi times the bandwidth, independent of amplitude, and agree with each other except at a difference of exactly half a turn. The two without arctangent return, for constant amplitude, the sine of the phase difference, and half the sum of the sines of the last two phase differences, with the same scale.",
     HI, "all bandwidths, amplitudes and phase histories", NOTEST + "wrap-around at half a turn and the memory of the last inputs need specific histories.",
     ["fmd.hh"], [("wrap-around", "fmd.hh FMD1"), ("quotient and product", "fmd.hh FMD2 FMD3"), ("arctangent-free variants", "fmd.hh FMD4 FMD5")])
prop("C30", "The AM demodulator divides by a clamped average with attack and decay",
     "For every setting and input history, the AM demodulator returns ((1+m) A/g - 1)/m where A is the magnitude of the input, m the modulation index and g a gain reference that moves towards A by the attack fraction when A is not below it and by the decay fraction when it is, limited to the configured range at every step. A carrier of constant magnitude within the range therefore settles to an output of one, and magnitudes outside the range are not amplified or attenuated beyond the limits.",
     HI, "all settings and input histories", NOTEST + "attack, decay and both limits act only in parts of a history.",
     ["amd.hh", "utils.hh"], [("gain tracking", "amd.hh AMD1::operator()")])
prop("C31", "The triggers follow their switching rules for every history",
     "For every pair of thresholds and every history, the Schmitt trigger switches on only when the input exceeds the high threshold and off only when it falls below the low one, keeping its state in between and exactly at the thresholds, from the given start state; given a single threshold it uses plus and minus that value. The edge triggers fire exactly when the input differs from the previous one (initially the given start value) in their direction.",
     HI, "all thresholds, start states and histories", NOTEST + "equality with a threshold and start states are corner cases.",
     ["trigger.hh"], [("state", "trigger.hh SchmittTrigger, FallingEdgeTrigger, RisingEdgeTrigger")])
prop("C32", "WAV files written can be read back with the same samples and parameters",
     "For every format (8 and 16 bit integer, 32 bit float), channel count, rate, stride and split of the data into write and silence calls, the closed file is a well-formed WAV file whose sizes match its content, and reading it returns the same rate, channels, bits and number of frames and the same samples, in any split into read and skip calls: floats bit by bit, integers to within half a quantisation step of the value clipped to the representable range. The file does not depend on how the data was split, strides leave the gaps alone, the reader stays good until more frames are requested than exist, and a writer that cannot write is not good.",
     HI, "all formats, signals, strides and call histories", NOTEST + "round trips over formats, strides and call sequences are not sampled.",
     ["wav.hh", "pcm.hh"], [("header and sample encoding", "wav.hh WriteWAV"), ("header parser and sample decoding", "wav.hh ReadWAV")])
prop("C33", "The WAV reader handles any file: it decodes it or reports it as not good",
     "For every sequence of bytes, opening it as a WAV file terminates without a crash or memory error and either reports not good, or the file has a consistent header of one of the supported formats and rate, channels, bits and frames are the header's. The supported layouts are a format chunk of 16 bytes, or one of 18 bytes and a fact chunk, directly followed by the data chunk, for any of the sample formats. Every well-formed file of a supported format is accepted, including streams of unknown length, for which the number of frames is reported as unknown; a truncated or inconsistent header, an unsupported format or a missing file is reported as not good.",
     IN, "all byte sequences", NOTEST + "malformed headers are an unbounded input space.",
     ["wav.hh"], [("header parser", "wav.hh ReadWAV constructor")])
prop("C34", "Netpbm images written can be read back with the same pixels",
     "For every size, colour or greyscale, maximum value up to 255, stride and split into calls, the file written is a well-formed binary Netpbm file with one byte per component, and reading it returns the same size and kind and pixel values that differ from those written (clipped to zero to one) by no more than half a quantisation step on the sRGB scale. Encoding is monotone, black and white are exact, every byte read and written again is the same byte, and a writer that cannot write is not good.",
     CO, "all sizes, kinds, maximum values and pixel values", NOTEST + "the gamma curves have a linear and a power segment whose border depends on the maximum value.",
     ["netpbm.hh", "pel.hh"], [("sRGB encoding", "netpbm.hh WritePNM::srgb"), ("decoding", "netpbm.hh ReadPNM::linear")])
prop("C35", "The Netpbm reader handles any file: it decodes it or reports it as not good",
     "For every sequence of bytes, opening it as a Netpbm file terminates without a crash or memory error and either reports not good, or the header names a supported kind and its width, height and a maximum value from 1 to 255, with pixel data starting right after the single white space that follows. Headers of the supported kinds with any layout of blanks, tabs, newlines and comments (from a # after white space to the end of the line) before each number are accepted; other kinds, truncated headers, zero sizes, sizes beyond the range of an int and maximum values out of range are reported as not good.",
     IN, "all byte sequences", NOTEST + "header layouts and malformed headers are an unbounded input space.",
     ["netpbm.hh"], [("header parser", "netpbm.hh ReadPNM constructor")])
prop("C36", "The uniform natural cubic spline is the natural interpolating spline",
     "For every number of knots, values, origin, spacing and stride, the uniform spline passes through all knots, is twice continuously differentiable, has zero curvature at both ends, and equals the unique natural cubic interpolant between the knots; outside it continues the first and last cubic piece. It reproduces straight lines everywhere and is linear in the knot values, real or complex.",
     CO, "all knot counts, values and evaluation points", NOTEST + "every interval and the extrapolation on both sides matter.",
     ["spline.hh"], [("tridiagonal solution and evaluation", "spline.hh UniformNaturalCubicSpline")])
prop("C37", "The cubic Hermite spline interpolates with averaged finite-difference slopes",
     "For every set of at least three points with increasing positions, uniform or not, the Hermite spline passes through all points, is continuously differentiable with the mean of the neighbouring difference quotients as slope at inner points and the one-sided quotient at the ends, is the cubic these values and slopes determine on every interval, and continues the end pieces outside. The uniform and the general form agree on equally spaced points, and straight lines are reproduced.",
     CO, "all point sets and evaluation points", NOTEST + "interval search, the end intervals and extrapolation take different paths.",
     ["spline.hh"], [("basis functions, slopes, interval selection", "spline.hh CubicHermiteSpline")])
prop("C38", "Linear regression returns the least-squares line",
     "For every set of at least two points with different positions, given explicitly or as origin and spacing, simple linear regression returns the slope, intercept and zero crossing of the least-squares line to within the rounding that the conditioning of the data implies, and evaluation lies on that line. Both forms agree on equally spaced data, exact lines are recovered, and an empty regression is zero.",
     IN, "all point sets", NOTEST + "offsets, spacings and scales interact with the two formulas.",
     ["regression.hh"], [("normal equations around the mean", "regression.hh SimpleLinearRegression")])
prop("C39", "The Theil-Sen estimator returns the median of all pairwise slopes",
     "For every set of points that fits the estimator and has at least two different positions, the slope is the upper median of the slopes of all pairs of points with different positions, the intercept the upper median of the residuals for that slope, the zero crossing follows from both, and evaluation lies on that line. The inputs are not modified, the order of the points does not matter, and up to the breakdown fraction of outliers on an exact line does not change the result. More points than fit never overrun the estimator.",
     IN, "all point sets, orders and outliers", NOTEST + "repeated positions, even pair counts and outliers need generated data.",
     ["theil_sen.hh", "quick.hh"], [("pairwise slopes and selection", "theil_sen.hh TheilSenEstimator::compute")])
prop("C40", "The repeated median estimators return medians of medians",
     "For every set of points that fits the estimator and has at least two different positions, both repeated median estimators return as slope the upper median over all points of the upper median of the slopes to all points at other positions; the first returns as intercept the same double median of the intercepts of these lines, the second the upper median of the residuals, and zero crossing and evaluation follow. The inputs are not modified, the order of the points does not matter, and just under half outliers on an exact line do not change the result. Of more points than fit, the first ones that fit are used.",
     IN, "all point sets, orders and outliers", NOTEST + "repeated positions, even counts and outliers need generated data.",
     ["repeated_median.hh", "quick.hh"], [("nested selection", "repeated_median.hh compute")])
prop("C41", "The block resampler evaluates the input at the corrected sampling instants",
     "For every rate, cutoff, window parameter, rate difference, stride and block length, output j (from half the filter length on) of the block resampler is the input interpolated by the Kaiser-windowed sinc at position h + (j-h) rate/(rate+difference), h being half the filter length, as long as the filter lies inside the block; other outputs and the gaps of a stride are not touched, and nothing outside the block is read. Tones below the cutoff therefore keep amplitude and are shifted in frequency by that ratio, and without a difference they are reproduced.",
     CO, "all rates, differences, strides, block lengths and signals", NOTEST + "block ends, rounding of positions and strides need generated configurations.",
     ["resampler.hh", "spline.hh", "window.hh"], [("interpolated filter and position", "resampler.hh Resampler")])
prop("C42", "The streaming resampler emits samples at the corrected instants",
     "For every rate, cutoff, window parameter and history of inputs with a rate difference per input below half the rate, the streaming resampler emits zero, one or two outputs per input, so that each output is the history interpolated by the Kaiser-windowed sinc at an instant that advances by one input minus difference/rate per output and always stays within half an input of the centre of the filter (plus one step). Over any history the number of outputs matches the accumulated difference, and the history before the first input is zero.",
     HI, "all rates, differences and histories", NOTEST + "skips and repeats happen only when the accumulated difference crosses a threshold.",
     ["resampler.hh", "spline.hh", "window.hh"], [("position accumulator", "resampler.hh Resampler2")])
prop("C43", "The adaptive filters follow the normalised LMS recursion and identify systems",
     "For every filter length, step size and history of inputs and desired values, real or complex, the normalised LMS filters return the error of the current estimate before adapting and then change the weights by step times error times conjugated input history over the power of the history, leaving them unchanged while the history is all zero. With step one the a-posteriori error is zero, with a step between zero and two the distance to a noise-free target system never grows, and the weights are readable oldest input first.",
     HI, "all lengths, step sizes and histories", NOTEST + "conjugation and ordering errors need complex, non-symmetric systems.",
     ["lms.hh", "bip_buffer.hh"], [("estimate, power and update", "lms.hh NLMS, NCLMS")])
prop("C44", "The helper functions and calculus blocks are exact to rounding",
     "For all finite arguments, signum, linear interpolation, clamping, the normal density, sinc and delta return their defined values to within rounding: interpolation hits both ends exactly, clamping returns a value in range and leaves values in range alone, sinc is one at zero and vanishes at other integers, the density is symmetric. The integrator returns start value plus the sum of all inputs, the differentiator the difference to the previous input or start value, and one undoes the other.",
     HI, "all arguments and histories", NOTEST + "special values and start values are corner cases.",
     ["utils.hh", "calculus.hh"], [("helpers", "utils.hh"), ("running sum and difference", "calculus.hh")])
prop("C45", "Objects are independent: no shared state, copies continue on their own",
     "For every stateful block (filters, averages, extrema, buffers, oscillators, demodulators, triggers, estimators, adaptive filters, resamplers, transforms), the outputs of an object depend only on the calls made on that object: interleaving calls on other objects of the same kind changes nothing, a copy taken at any point continues exactly like the original, and a freshly constructed object does not depend on what its memory held before.",
     HI, "all blocks, histories, interleavings and copy points", NOTEST + "state shared between objects or left unset shows only with several objects in one history.",
     ["ema.hh", "sma.hh", "biquad.hh", "phasor.hh", "lms.hh", "movext.hh", "resampler.hh", "fft.hh", "fdzp.hh"], [("state held in members set by constructors", "all stateful classes")])

NOTE = "Generated inputs, configurations and histories against an independent oracle (reference model, exact or extended-precision evaluation, round trip or metamorphic relation); each case runs in a build with the project's own flags (g++ -O2 -ffast-math) or in a clang build with address and undefined-behaviour sanitizers. No proof of absence: assurance is that of the cases counted in the evidence file. Tolerances and input domains are stated in DESIGN.md."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    have = {fn[:3] for fn in os.listdir(os.path.join(HERE, "props")) if fn.endswith(".cc")}
    tech = {}
    for p in P:
        fs = [fn for fn in sorted(os.listdir(os.path.join(HERE, "props"))) if fn.startswith(p["id"]) and fn.endswith(".cc")]
        for fn in fs:
            for l in open(os.path.join(HERE, "props", fn)):
                if l.startswith("// TECH: "):
                    tech[p["id"]] = l[9:].strip()
    m = {
        "version": 1, "setup_cmd": "python3 run.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": tech.get(p["id"], "property-based testing against a reference model"),
            "level": "exploration", "level_note": NOTE,
        } for p in P if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in have],
        "notes": "All checks are property-based tests with shrinking and replay (engine/), see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
