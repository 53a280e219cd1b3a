// argument and polar form, with whatever arctangent is visible to the complex type

template <typename T>
static void angles(Src &s)
{
	T r = T(s.coin() ? s.real(0.1, 10) : s.logreal(0x1p-30, 0x1p30));
	int N = s.range(1, 1000), n = s.range(-N, N);
	T phi = s.coin() ? T(s.real(-3.2, 3.2)) : T(3.14159265358979323846264338327950288L * n / N);
	s.note("r = %.9g, phi = %.17g", double(r), double(phi));
	DSP::Complex<T> p = DSP::polar(r, phi);
	near(s, "polar", p.real(), (long double)r * cosl(phi), 4 * eps<T> * r, "(real part)");
	near(s, "polar", p.imag(), (long double)r * sinl(phi), 4 * eps<T> * r, "(imaginary part)");
	DSP::Complex<T> m = DSP::polar(-r, phi);
	near(s, "negative polar", m.real(), -(long double)r * cosl(phi), 4 * eps<T> * r, "(real part)");
	near(s, "negative polar", m.imag(), -(long double)r * sinl(phi), 4 * eps<T> * r, "(imaginary part)");
	if (p.real() != T(0) || p.imag() != T(0)) {
		near(s, "abs of polar", abs(p), r, 8 * eps<T> * r);
		if (p.imag() != T(0)) {
			long double want = atan2l(p.imag(), p.real());
			near(s, "arg", arg(p), want, 12 * eps<T>);
		} else {
			near(s, "arg on the real axis", arg(p), p.real() < 0 ? 3.14159265358979323846264338327950288L : 0, 12 * eps<T>);
		}
	}
	s.nontrivial(r != T(0) && phi != T(0));
}
