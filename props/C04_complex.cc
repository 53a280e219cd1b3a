// RULE: a case is non-trivial when no component of the operands is zero
// ASSUME: magnitudes between 2^-30 and 2^30, and values times a power of two up to 2^12 either way in single and 2^200 in double precision, so that products neither overflow nor underflow; division only by non-zero values
// TECH: property-based testing against extended-precision complex arithmetic
#include "dut.hh"
#include "complex.hh"

typedef long double L;
struct LC { L re, im; };

static L mag(L a) { return a < 0 ? -a : a; }
static L abs2(LC a) { return a.re * a.re + a.im * a.im; }

template <typename T>
static T component(Src &s)
{
	switch (s.range(0, 5)) {
	case 0: return T(s.range(0, 6) - 3);
	case 1: return T((s.coin() ? -1 : 1) * s.logreal(0x1p-30, 0x1p30));
	default: return T(s.real(-2, 2));
	}
}

template <typename T>
static DSP::Complex<T> value(Src &s)
{
	T a = component<T>(s), b = component<T>(s);
	if (s.coin(1, 8))
		b = s.coin() ? a : -a;
	return DSP::Complex<T>(a, b);
}

template <typename T> static LC up(DSP::Complex<T> a) { return LC{ L(a.real()), L(a.imag()) }; }

template <typename T>
static void close(Src &s, const char *what, DSP::Complex<T> got, LC want, L tr, L ti)
{
	near(s, what, got.real(), want.re, tr, "(real part)");
	near(s, what, got.imag(), want.im, ti, "(imaginary part)");
}

template <typename T>
static void arithmetic(Src &s)
{
	typedef DSP::Complex<T> C;
	C a = value<T>(s), b = value<T>(s);
	T r = component<T>(s);
	if (s.coin(1, 4)) {
		// the same values, all of them small or large
		int most = sizeof(T) > 4 ? 200 : 12;
		T k = std::ldexp(T(1), s.range(-most, most)), l = std::ldexp(T(1), s.range(-most, most));
		a = C(a.real() * k, a.imag() * k);
		b = C(b.real() * l, b.imag() * l);
		r *= s.coin() ? k : l;
		s.label("scaled");
	}
	LC A = up(a), B = up(b);
	L R = r, e = eps<T>;
	s.note("a = %.9g%+.9gi, b = %.9g%+.9gi, r = %.9g", (double)A.re, (double)A.im, (double)B.re, (double)B.im, (double)R);
	bool bz = A.re == 0 || A.im == 0 || B.re == 0 || B.im == 0 || R == 0;
	LC sum{ A.re + B.re, A.im + B.im }, diff{ A.re - B.re, A.im - B.im };
	L tr = e * (mag(A.re) + mag(B.re)), ti = e * (mag(A.im) + mag(B.im));
	close(s, "a+b", a + b, sum, tr, ti);
	close(s, "a-b", a - b, diff, tr, ti);
	close(s, "-a", -a, LC{ -A.re, -A.im }, 0, 0);
	close(s, "+a", +a, A, 0, 0);
	close(s, "conj", conj(a), LC{ A.re, -A.im }, 0, 0);
	LC prod{ A.re * B.re - A.im * B.im, A.re * B.im + A.im * B.re };
	L pr = 4 * e * (mag(A.re * B.re) + mag(A.im * B.im)), pi = 4 * e * (mag(A.re * B.im) + mag(A.im * B.re));
	close(s, "a*b", a * b, prod, pr, pi);
	close(s, "r*a", r * a, LC{ R * A.re, R * A.im }, 2 * e * mag(R * A.re), 2 * e * mag(R * A.im));
	near(s, "norm", norm(a), abs2(A), 4 * e * abs2(A));
	near(s, "abs", abs(a), sqrtl(abs2(A)), 4 * e * sqrtl(abs2(A)));
	{
		C c(a);
		C ret = (c += b);
		close(s, "a+=b", c, sum, tr, ti);
		close(s, "result of a+=b", ret, sum, tr, ti);
		c = a;
		ret = (c -= b);
		close(s, "a-=b", c, diff, tr, ti);
		close(s, "result of a-=b", ret, diff, tr, ti);
		c = a;
		ret = (c *= b);
		close(s, "a*=b", c, prod, pr, pi);
		close(s, "result of a*=b", ret, prod, pr, pi);
		c = a;
		ret = (c *= r);
		close(s, "a*=r", c, LC{ R * A.re, R * A.im }, 2 * e * mag(R * A.re), 2 * e * mag(R * A.im));
		close(s, "result of a*=r", ret, LC{ R * A.re, R * A.im }, 2 * e * mag(R * A.re), 2 * e * mag(R * A.im));
		c = a;
		c += c;
		close(s, "a+=a", c, LC{ 2 * A.re, 2 * A.im }, 0, 0);
		c = a;
		c -= c;
		close(s, "a-=a", c, LC{ 0, 0 }, 0, 0);
		c = a;
		c *= c;
		close(s, "a*=a", c, LC{ A.re * A.re - A.im * A.im, 2 * A.re * A.im }, 4 * e * abs2(A), 4 * e * mag(2 * A.re * A.im));
	}
	if (r != T(0)) {
		LC q{ A.re / R, A.im / R };
		close(s, "a/r", a / r, q, 4 * e * mag(q.re), 4 * e * mag(q.im));
		C c(a);
		C ret = (c /= r);
		close(s, "a/=r", c, q, 4 * e * mag(q.re), 4 * e * mag(q.im));
		close(s, "result of a/=r", ret, q, 4 * e * mag(q.re), 4 * e * mag(q.im));
	}
	if (abs2(B) != 0) {
		L n = abs2(B);
		LC q{ (A.re * B.re + A.im * B.im) / n, (A.im * B.re - A.re * B.im) / n };
		L t = 8 * e * sqrtl(abs2(A) / n);
		close(s, "a/b", a / b, q, t, t);
		C c(a);
		C ret = (c /= b);
		close(s, "a/=b", c, q, t, t);
		close(s, "result of a/=b", ret, q, t, t);
		c = b;
		c /= c;
		close(s, "b/=b", c, LC{ 1, 0 }, 8 * e, 8 * e);
		LC rq{ R * B.re / n, -R * B.im / n };
		close(s, "r/b", r / b, rq, 8 * e * mag(rq.re), 8 * e * mag(rq.im));
	}
	s.nontrivial(!bz);
}

PROP(arithmetic_float, 1500000, 20000000) { arithmetic<float>(s); }
PROP(arithmetic_double, 1500000, 20000000) { arithmetic<double>(s); }

template <typename T>
static void structure(Src &s)
{
	typedef DSP::Complex<T> C;
	T a = T(s.range(-5, 5)), b = T(s.range(-5, 5)), c = T(s.range(-5, 5)), d = T(s.range(-5, 5));
	s.note("(%d,%d) (%d,%d)", int(a), int(b), int(c), int(d));
	Dirty<C> zero(s.range(0, 3));
	CHECK(zero->real() == T(0) && zero->imag() == T(0), "default is not zero");
	Dirty<C> real(s.range(0, 3), a);
	CHECK(real->real() == a && real->imag() == T(0), "conversion from a real value");
	C x(a, b), y(c, d);
	CHECK(x.real() == a && x.imag() == b, "components");
	CHECK((x == y) == (a == c && b == d), "equality");
	CHECK((x != y) == (a != c || b != d), "inequality");
	C z(x);
	z.real(c);
	CHECK(z.real() == c && z.imag() == b, "setting the real part");
	z.imag(d);
	CHECK(z.real() == c && z.imag() == d && z == y, "setting the imaginary part");
	C ret = (z = a);
	CHECK(z.real() == a && z.imag() == T(0) && ret == z, "assignment of a real value");
	static_assert(std::is_same<typename C::value_type, T>::value, "value type");
	s.nontrivial(b != T(0) && d != T(0));
}

PROP(structure_float, 200000, 1000000) { structure<float>(s); }
PROP(structure_int, 200000, 1000000) { structure<int>(s); }

PROP(integers, 600000, 5000000)
{
	typedef DSP::Complex<int> C;
	int m = s.pick({ 4, 100, 20000 });
	int a = s.range(-m, m), b = s.range(-m, m), c = s.range(-m, m), d = s.range(-m, m), r = s.range(-m, m);
	C x(a, b), y(c, d);
	s.note("(%d,%d) (%d,%d) %d", a, b, c, d, r);
	CHECK((x + y) == C(a + c, b + d), "sum");
	CHECK((x - y) == C(a - c, b - d), "difference");
	CHECK((x * y) == C(a * c - b * d, a * d + b * c), "product");
	CHECK((r * x) == C(r * a, r * b), "product with a real number");
	CHECK(norm(x) == a * a + b * b, "norm");
	CHECK(conj(x) == C(a, -b), "conjugate");
	CHECK(-x == C(-a, -b), "negation");
	C z(x);
	z *= y;
	CHECK(z == x * y, "compound product");
	z = x;
	z += y;
	CHECK(z == x + y, "compound sum");
	z = x;
	z -= y;
	CHECK(z == x - y, "compound difference");
	if (r) {
		CHECK((r * x) / r == x, "division by a real number");
		z = r * x;
		z /= r;
		CHECK(z == x, "compound division by a real number");
	}
	if (c || d) {
		if (m <= 100) {
			CHECK((x * y) / y == x, "exact division");
			z = x * y;
			z /= y;
			CHECK(z == x, "compound exact division");
		}
	}
	s.nontrivial(a && b && c && d);
}

constexpr DSP::Complex<double> ca(3, -4), cb(1, 2);
static_assert((ca * cb) == DSP::Complex<double>(11, 2), "constant product");
static_assert((ca + cb) == DSP::Complex<double>(4, -2), "constant sum");
static_assert(norm(ca) == 25, "constant norm");
