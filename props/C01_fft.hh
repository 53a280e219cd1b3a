#include "dut.hh"
#include "complex.hh"
#include "fft.hh"
#include "dft.hh"

template <typename V, int N>
static void transform(Src &s)
{
	typedef DSP::Complex<V> C;
	int sign = s.coin() ? 1 : -1;
	s.note("%s, length %d, sign %d", TypeName<V>::get(), N, sign);
	std::vector<LC> x = signal<V>(s, N);
	Block<C> in(N), out(N + 2), back(N);
	for (int n = 0; n < N; ++n)
		in[n] = C(V(x[n].re), V(x[n].im));
	const C guard(V(12345), V(-54321));
	for (int n = 0; n < N + 2; ++n)
		out[n] = guard;
	int pat = s.range(0, 3);
	// the last value in front of a redzone, or with a guard value on both sides
	bool exact = s.coin();
	Block<C> tight(N);
	C *o = exact ? tight.data() : out.data() + 1;
	{
		Dirty<DSP::FastFourierTransform<N, C, -1>> fwd(pat);
		Dirty<DSP::FastFourierTransform<N, C, 1>> bwd(pat);
		if (sign < 0) {
			(*fwd)(o, in.data());
			(*bwd)(back.data(), o);
		} else {
			(*bwd)(o, in.data());
			(*fwd)(back.data(), o);
		}
	}
	CHECK(out[0] == guard && out[N + 1] == guard, "length %d: wrote outside of the output", N);
	for (int n = 0; n < N; ++n)
		CHECK(in[n] == C(V(x[n].re), V(x[n].im)), "length %d: input was changed at %d", N, n);
	L p = power(x);
	L tol = eps<V> * (2 + log2of(N)) * sqrtl(N * p);
	int all = N <= 64 ? N : 1 + 8192 / N;
	int first = N <= 64 ? 0 : s.range(0, N - 1), step = N <= 64 ? 1 : s.range(1, N - 1);
	for (int i = 0, k = first; i < all; ++i, k = (k + step) % N) {
		LC want = bin(x, k, sign);
		std::string where = pbt::format("(bin %d of %d, sign %d)", k, N, sign);
		near(s, "real part", o[k].real(), want.re, tol, where);
		near(s, "imaginary part", o[k].imag(), want.im, tol, where);
	}
	L q = 0;
	for (int k = 0; k < N; ++k) {
		CHECK(pbt::finite(o[k].real()) && pbt::finite(o[k].imag()), "length %d: bin %d is not finite", N, k);
		q += L(o[k].real()) * o[k].real() + L(o[k].imag()) * o[k].imag();
	}
	near(s, "energy", q, N * p, 8 * eps<V> * (2 + log2of(N)) * N * p + std::numeric_limits<V>::min());
	for (int n = 0; n < N; ++n) {
		near(s, "there and back", back[n].real(), N * x[n].re, 2 * N * tol / sqrtl(N), pbt::format("(value %d of %d)", n, N));
		near(s, "there and back", back[n].imag(), N * x[n].im, 2 * N * tol / sqrtl(N), pbt::format("(value %d of %d)", n, N));
	}
	s.nontrivial(N > 1 && p > 0);
}
