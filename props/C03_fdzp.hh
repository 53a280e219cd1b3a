#include "dut.hh"
#include "complex.hh"
#include "fdzp.hh"
#include "dft.hh"

static const L PI = 3.14159265358979323846264338327950288419716939937510582L;

// weight of input n at position m: real part only, the Nyquist term is split evenly
static std::vector<L> kernel(int OUT, int IN)
{
	// position difference (m * IN - n * OUT) / (IN * OUT) of a turn, at all multiples of 1/(IN * OUT)
	std::vector<L> d(IN * OUT), table(IN * OUT);
	for (int t = 0; t < IN * OUT; ++t)
		table[t] = cosl(2 * PI * L(t) / (L(IN) * OUT));
	for (int t = 0; t < IN * OUT; ++t) {
		if (IN > 1000) {
			// the same sum in closed form
			L den = IN & 1 ? sinl(PI * L(t) / (L(IN) * OUT)) : tanl(PI * L(t) / (L(IN) * OUT));
			d[t] = t ? sinl(PI * L(t) / OUT) / (IN * den) : 1;
			continue;
		}
		L sum = 1;
		for (int k = 1; 2 * k <= IN; ++k) {
			int64_t a = int64_t(t) * k % (int64_t(IN) * OUT);
			L c = table[a];
			sum += 2 * k == IN ? c : 2 * c;
		}
		d[t] = sum / IN;
	}
	return d;
}

template <typename V, int OUT, int IN>
static void interpolate(Src &s)
{
	typedef DSP::Complex<V> C;
	static const std::vector<L> ker = kernel(OUT, IN);
	s.note("%s, %d to %d", TypeName<V>::get(), IN, OUT);
	Dirty<DSP::FDZP<OUT, IN, C>> fdzp(s.range(0, 3));
	int rounds = s.range(1, 3);
	for (int r = 0; r < rounds; ++r) {
		std::vector<LC> x = signal<V>(s, IN);
		Block<C> in(IN), out(OUT + 2), tight(OUT);
		for (int n = 0; n < IN; ++n)
			in[n] = C(V(x[n].re), V(x[n].im));
		const C guard(V(12345), V(-54321));
		for (int n = 0; n < OUT + 2; ++n)
			out[n] = guard;
		C *o = s.coin() ? tight.data() : out.data() + 1;
		(*fdzp)(o, in.data());
		CHECK(out[0] == guard && out[OUT + 1] == guard, "%d to %d: wrote outside of the output", IN, OUT);
		for (int n = 0; n < IN; ++n)
			CHECK(in[n] == C(V(x[n].re), V(x[n].im)), "%d to %d: input was changed at %d", IN, OUT, n);
		L p = power(x);
		// spectrum and synthesis each within the bound of the transform
		L tol = 2 * eps<V> * (4 + log2of(IN) + log2of(OUT)) * sqrtl(p);
		for (int m = 0; m < OUT; ++m) {
			LC want{ 0, 0 };
			for (int n = 0; n < IN; ++n) {
				int64_t t = (int64_t(m) * IN - int64_t(n) * OUT) % (int64_t(IN) * OUT);
				L k = ker[t < 0 ? t + int64_t(IN) * OUT : t];
				want.re += x[n].re * k;
				want.im += x[n].im * k;
			}
			std::string where = pbt::format("(%d to %d, output %d, call %d)", IN, OUT, m, r);
			near(s, "real part", o[m].real(), want.re, tol, where);
			near(s, "imaginary part", o[m].imag(), want.im, tol, where);
		}
		// input positions that are output positions
		for (int n = 0; n < IN; ++n)
			if ((int64_t(n) * OUT) % IN == 0)
				near(s, "input values", o[n * OUT / IN].real(), x[n].re, tol, pbt::format("(%d to %d, input %d)", IN, OUT, n));
		s.nontrivial(IN > 1 && p > 0);
		s.label(IN & 1, "odd input length");
		s.label(!(IN & 1), "even input length");
	}
}

template <int A, int B> struct Pair { static constexpr int out = A, in = B; };
