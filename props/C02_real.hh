#include "dut.hh"
#include "complex.hh"
#include "fft.hh"
#include "dft.hh"

template <typename V, int N>
static void transform(Src &s)
{
	typedef DSP::Complex<V> C;
	s.note("%s, length %d", TypeName<V>::get(), N);
	Dirty<DSP::RealToHalfComplexTransform<N, C>> rft(s.range(0, 3));
	int rounds = s.range(1, 2);
	for (int r = 0; r < rounds; ++r) {
		std::vector<LC> x = signal<V>(s, N, true);
		Block<V> in(N);
		for (int n = 0; n < N; ++n)
			in[n] = V(x[n].re);
		const C guard(V(12345), V(-54321));
		Block<C> out(N / 2 + 3), tight(N / 2 + 1);
		for (int n = 0; n < N / 2 + 3; ++n)
			out[n] = guard;
		bool exact = s.coin();
		C *o = exact ? tight.data() : out.data() + 1;
		(*rft)(o, in.data());
		CHECK(out[0] == guard && out[N / 2 + 2] == guard, "length %d: wrote outside of the output", N);
		for (int n = 0; n < N; ++n)
			CHECK(in[n] == V(x[n].re), "length %d: input was changed at %d", N, n);
		L p = power(x);
		L tol = eps<V> * (4 + log2of(N)) * sqrtl(N * p);
		int B = N / 2 + 1, all = N <= 128 ? B : 2 + 16384 / N;
		int first = N <= 128 ? 0 : s.range(0, B - 1), step = N <= 128 ? 1 : s.range(1, B - 1);
		for (int i = 0, k = first; i < all; ++i, k = (k + step) % B) {
			LC want = bin(x, k, -1);
			L f = k == 0 || k == N / 2 ? 0.5L : 1;
			std::string where = pbt::format("(bin %d of %d)", k, N);
			near(s, "real part", o[k].real(), f * want.re, tol, where);
			near(s, "imaginary part", o[k].imag(), f * want.im, tol, where);
		}
		// the one-sided synthesis sum returns the input, at a few positions
		const std::vector<LC> &w = circle(N);
		for (int i = 0; i < 3; ++i) {
			int n = s.range(0, N - 1);
			L sum = 0;
			for (int k = 0; k < B; ++k) {
				LC e = w[int64_t(n) * k % N];
				sum += L(o[k].real()) * e.re - L(o[k].imag()) * e.im;
			}
			near(s, "synthesis", sum * 2 / N, x[n].re, 4 * tol / sqrtl(N), pbt::format("(value %d of %d)", n, N));
		}
		s.nontrivial(N > 2 && p > 0);
	}
}
