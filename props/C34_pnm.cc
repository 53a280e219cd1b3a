// RULE: a case is non-trivial when pixels were written, in more than one call, and read back
// ASSUME: images of up to 600 pixels, some of 67600 to 270400 pixels, maximum values 1 to 255, values up to 1e30; files live in memory; half a quantisation step plus 0.1 percent of a step in single and 0.01 percent in double precision
// TECH: round-trip testing of generated images through an independent parser and sRGB curve in extended precision
#include "dut.hh"
#include "netpbm.hh"
#include "file.hh"

typedef long double L;

static L encode(L v)
{
	v = v < 0 ? 0 : v > 1 ? 1 : v;
	return v <= 0.04045L / 12.92L ? v * 12.92L : 1.055L * powl(v, 1 / 2.4L) - 0.055L;
}

static L decode(L c)
{
	return c <= 0.04045L ? c / 12.92L : powl((c + 0.055L) / 1.055L, 2.4L);
}

static int maximum(Src &s)
{
	return s.coin(1, 3) ? 255 : s.coin() ? s.edgy(1, 255) : s.range(1, 255);
}

template <typename T>
static void round_trip(Src &s, int least = 0, int shape = 0)
{
	const L half = std::is_same<T, float>::value ? 0.501L : 0.5001L;
	bool mono = s.coin();
	int max = maximum(s), comps = mono ? 1 : 3;
	int width = least ? s.range(least, 2 * least) : s.skewed(1, 40), height = least ? s.range(least, 2 * least) : s.skewed(1, 15), pixels = width * height;
	if (shape) {
		pixels = s.range(200 * least, 400 * least);
		width = shape == 1 ? pixels : 1;
		height = shape == 1 ? 1 : pixels;
	}
	int how = s.range(0, 2);
	if (how == 0) {
		mono = false;
		comps = 3;
	}
	if (how < 2)
		max = 255;
	Rng rng(s.seed());
	int kind = s.range(0, 6);
	std::vector<T> data(pixels * comps);
	for (auto &v : data) {
		switch (kind) {
		case 0: v = T(rng.unit()); break;
		case 1: v = T(1.4 * rng.unit() - 0.2); break;
		case 2: v = T(decode(L(rng.below(2 * max + 1)) / (2 * max))); break;
		case 3: v = T(rng.unit() * 0.01); break;
		case 4: v = T(rng.below(2) ? rng.below(2) : rng.sym() * std::pow(10.0, rng.range(0, 30))); break;
		case 5: v = T(0.0031308 * (1 + 0.02 * rng.sym())); break;
		case 6: v = T(decode((rng.below(max) + 0.5L + (rng.below(2) ? 1 : -1) * powl(10, -1 - 4 * L(rng.unit()))) / max)); break;
		}
	}
	s.note("%s, %s %dx%d, maximum %d, kind %d", TypeName<T>::get(), mono ? "greyscale" : "colour", width, height, max, kind);
	MemFile f;
	if (s.coin(1, 4))
		f.set(std::string(s.range(1, 5000), 'x'));
	DSP::WritePNM<T> *w = how == 0 ? new DSP::WritePNM<T>(f.path(), width, height) : how == 1 ? new DSP::WritePNM<T>(f.path(), width, height, mono)
		: new DSP::WritePNM<T>(f.path(), width, height, mono, max);
	DSP::WritePEL<T> *pw = w;
	CHECK(pw->good() && pw->mono() == mono && pw->width() == width && pw->height() == height, "writer has wrong parameters");
	int calls = 0;
	for (int at = 0; at < pixels; ++calls) {
		int num = s.coin(2, 3) ? s.range(0, pixels - at) : pixels - at;
		int over = s.coin() ? -1 : comps + s.range(0, 3);
		int stride = over < 0 ? comps : over;
		Block<T> buf(num ? stride * (num - 1) + comps : 0);
		for (size_t i = 0; i < buf.size(); ++i)
			buf[i] = T(0.77);
		for (int i = 0; i < num; ++i)
			for (int c = 0; c < comps; ++c)
				buf[stride * i + c] = data[(at + i) * comps + c];
		if (over < 0)
			pw->write(buf.data(), num);
		else
			pw->write(buf.data(), num, over);
		at += num;
		CHECK(pw->good(), "writer is not good after %d pixels", at);
	}
	if (s.coin())
		delete pw;
	else
		delete w;
	std::string file = f.get();
	// independent look at the file
	int kindnum = 0, fw = 0, fh = 0, fm = 0, n = 0;
	CHECK(sscanf(file.c_str(), "P%d %d %d %d%n", &kindnum, &fw, &fh, &fm, &n) == 4, "header cannot be parsed");
	CHECK(kindnum == (mono ? 5 : 6) && fw == width && fh == height && fm == max, "header says P%d %d %d %d", kindnum, fw, fh, fm);
	++n;
	CHECK(isspace((unsigned char)file[n - 1]) && int(file.size()) == n + pixels * comps, "file has %d bytes after the header, want %d", int(file.size()) - n, pixels * comps);
	for (size_t i = 0; i < data.size(); ++i) {
		int code = (unsigned char)file[n + i];
		CHECK(code <= max, "code %d is above the maximum %d", code, max);
		near(s, "code", L(code), encode(data[i]) * max, half, s.verbose ? pbt::format("(component %d, value %.17g)", int(i), double(data[i])) : "");
		if (data[i] <= 0)
			CHECK(code == 0, "black is %d", code);
		if (data[i] >= 1)
			CHECK(code == max, "white is %d of %d", code, max);
	}
	// reading
	DSP::ReadPNM<T> *r = new DSP::ReadPNM<T>(f.path());
	DSP::ReadPEL<T> *pr = r;
	CHECK(pr->good() && pr->mono() == mono && pr->width() == width && pr->height() == height, "reader: good %d, mono %d, %dx%d", pr->good(), pr->mono(), pr->width(), pr->height());
	for (int at = 0; at < pixels;) {
		int num = s.coin(2, 3) ? s.range(0, pixels - at) : pixels - at;
		int over = s.coin() ? -1 : comps + s.range(0, 3);
		int stride = over < 0 ? comps : over;
		Block<T> buf(num ? stride * (num - 1) + comps : 0);
		for (size_t i = 0; i < buf.size(); ++i)
			buf[i] = T(55);
		if (over < 0)
			pr->read(buf.data(), num);
		else
			pr->read(buf.data(), num, over);
		for (size_t i = 0; i < buf.size(); ++i) {
			int p = int(i) / stride, c = int(i) % stride;
			if (c >= comps) {
				CHECK(buf[i] == T(55), "gap of the stride was touched");
				continue;
			}
			int k = (at + p) * comps + c;
			L want = decode(L((unsigned char)file[n + k]) / max);
			near(s, "decoded", buf[i], want, 16 * eps<T> * want, s.verbose ? pbt::format("(component %d)", k) : "");
			near(s, "round trip in steps", encode(buf[i]) * max, encode(data[k]) * max, half, s.verbose ? pbt::format("(component %d)", k) : "");
		}
		at += num;
		CHECK(pr->good(), "reader is not good after %d of %d pixels", at, pixels);
	}
	if (s.coin()) {
		T over[3];
		pr->read(over, 1);
		CHECK(!pr->good(), "reader is good after reading beyond the end");
	}
	delete pr;
	s.nontrivial(calls > 1 && pixels > 1);
	s.label(mono ? "greyscale" : "colour");
}

// every byte survives, and decoding and encoding are monotone
template <typename T>
static void codes(Src &s)
{
	const L half = std::is_same<T, float>::value ? 0.501L : 0.5001L;
	bool mono = s.coin();
	int max = maximum(s), comps = mono ? 1 : 3;
	int width = (max + 1 + comps - 1) / comps;
	std::string head = pbt::format("P%d %d 1 %d\n", mono ? 5 : 6, width, max), data;
	bool up = s.coin();
	for (int i = 0; i < width * comps; ++i)
		data += char(up ? std::min(i, max) : std::max(max - i, 0));
	s.note("%s, %s, maximum %d", TypeName<T>::get(), mono ? "greyscale" : "colour", max);
	MemFile a, b;
	a.set(head + data);
	Block<T> buf(width * comps);
	{
		DSP::ReadPNM<T> r(a.path());
		CHECK(r.good(), "a well-formed file is not good");
		r.read(buf.data(), width);
		CHECK(r.good(), "reader is not good at the end of the data");
		DSP::WritePNM<T> w(b.path(), width, 1, mono, max);
		w.write(buf.data(), width);
	}
	for (size_t i = 1; i < buf.size(); ++i)
		CHECK(data[i] == data[i - 1] || (up ? buf[i] > buf[i - 1] : buf[i] < buf[i - 1]), "decoding is not monotone at %d of %d", int(i), max);
	std::string file = b.get();
	CHECK(file.size() > data.size() && file.substr(file.size() - data.size()) == data, "file changes when read and written again");
	s.nontrivial(max > 1);
}

// strides shorter than a pixel: values are shared by neighbouring pixels, down to one pixel that is repeated
template <typename T>
static void overlapping(Src &s)
{
	bool mono = s.coin(1, 3);
	int comps = mono ? 1 : 3, pixels = s.skewed(1, 40), stride = s.range(0, comps - 1);
	s.note("%s, %s, %d pixels, stride %d", TypeName<T>::get(), mono ? "greyscale" : "colour", pixels, stride);
	Rng rng(s.seed());
	Block<T> part(stride * (pixels - 1) + comps), whole(comps * pixels), got(comps * pixels), over(stride * (pixels - 1) + comps);
	for (size_t i = 0; i < part.size(); ++i)
		part[i] = T(rng.unit());
	for (int n = 0; n < pixels; ++n)
		for (int k = 0; k < comps; ++k)
			whole[comps * n + k] = part[stride * n + k];
	MemFile a, b;
	{
		DSP::WritePNM<T> w(a.path(), pixels, 1, mono), v(b.path(), pixels, 1, mono);
		w.write(part.data(), pixels, stride);
		v.write(whole.data(), pixels);
	}
	CHECK(a.get() == b.get(), "stride %d does not write the values it names", stride);
	DSP::ReadPNM<T> r(a.path()), q(a.path());
	r.read(over.data(), pixels, stride);
	q.read(got.data(), pixels);
	CHECK(r.good() && q.good(), "reader is not good");
	// the last one written stays
	for (int n = 0; n < pixels; ++n)
		for (int k = 0; k < comps; ++k)
			whole[stride * n + k] = got[comps * n + k];
	for (size_t i = 0; i < over.size(); ++i)
		CHECK(over[i] == whole[i], "value %d read with stride %d: got %.17g, want %.17g", int(i), stride, double(over[i]), double(whole[i]));
	s.nontrivial(pixels > 1);
}

PROP(overlapping_float, 20000, 200000) { overlapping<float>(s); }
PROP(overlapping_double, 20000, 200000) { overlapping<double>(s); }
PROP(floats, 200000, 2000000) { round_trip<float>(s); }
PROP(doubles, 200000, 2000000) { round_trip<double>(s); }
PROP(large, 60, 1000) { round_trip<float>(s, 260); }
PROP(wide, 60, 1000) { round_trip<float>(s, 300, s.coin() ? 1 : 2); }
PROP(codes_float, 40000, 400000) { codes<float>(s); }
PROP(codes_double, 40000, 400000) { codes<double>(s); }
PROP(no_room, 400, 4000)
{
	bool mono = s.coin();
	int comps = mono ? 1 : 3, pixels = 100000 / comps, num = s.range(1, pixels);
	s.note("%s, %d pixels at a time", mono ? "greyscale" : "colour", num);
	MemFile f;
	f.fill();
	Block<float> buf(num * comps);
	for (size_t i = 0; i < buf.size(); ++i)
		buf[i] = 0.25f;
	{
		DSP::WritePNM<float> w(f.path(), pixels, 1, mono);
		for (int n = 0; n < pixels; n += num)
			w.write(buf.data(), num);
		CHECK(!w.good(), "writer is good though nothing can be written");
	}
	CHECK(f.get().empty(), "there is something in the file");
	s.nontrivial();
}
