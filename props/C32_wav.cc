// RULE: a case is non-trivial when samples were written, in more than one call, and read back
// ASSUME: 1 to 9 channels, some files of up to 1000, rates whose byte rate fits 31 bits, up to 3000 frames, some of 70000 to 140000, values up to 1e30; files live in memory; double samples without denormals
// TECH: round-trip testing of generated call histories through an independent parser of the file format and the reader
#include "dut.hh"
#include "wav.hh"
#include "file.hh"
#include <memory>

typedef long double L;

struct Format { int rate, bits, channels, written_bits; };

static Format format(Src &s)
{
	Format f;
	f.channels = s.coin(1, 80) ? s.pick({ 16, 64, 255, 256, 300, 1000 }) : s.coin(1, 4) ? s.range(1, 9) : s.range(1, 2);
	f.written_bits = s.coin(15, 16) ? s.pick({ 8, 16, 32 }) : s.pick({ 24, 0, 64, 12, 1, -8, 33 });
	f.bits = f.written_bits == 8 || f.written_bits == 16 ? f.written_bits : 32;
	int most = 2147483647 / (f.channels * f.bits / 8);
	f.rate = s.coin(2, 3) ? s.pick({ 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000 }) : s.skewed(1, most);
	return f;
}

template <typename T>
static T sample(Rng &rng, int kind, const Format &f)
{
	int factor = f.bits == 8 ? 127 : 32767;
	switch (kind) {
	case 0: return T(rng.sym());
	case 1: return T(1.2 * rng.sym());
	// on or half way between the steps
	case 2: return T(int(rng.below(2 * factor + 8)) - factor - 4) / T(factor);
	case 3: return (T(int(rng.below(2 * factor + 8)) - factor - 4) + T(0.5)) / T(factor);
	case 4: return rng.below(3) ? T(rng.sym()) : T(rng.sym() * std::pow(10.0, rng.range(0, 30)));
	case 5: return T(int(rng.below(5)) - 2);
	default: return rng.below(2) ? T(rng.sym() * 1e-3) : T(rng.sym() < 0 ? -1 : 1);
	}
}

template <typename T> struct Special { static bool get(Rng &, T &) { return false; } };
template <> struct Special<float>
{
	// any bit pattern that is not a signalling NaN
	static bool get(Rng &rng, float &v)
	{
		uint32_t u = uint32_t(rng());
		if ((u & 0x7f800000) == 0x7f800000 && (u & 0x007fffff))
			u |= 0x00400000;
		memcpy(&v, &u, 4);
		return true;
	}
};

// one call: num frames of data, or of silence
struct Call { bool silence; int num, stride; };

static std::vector<Call> split(Src &s, int frames, int channels, const std::vector<bool> &quiet)
{
	std::vector<Call> calls;
	for (int at = 0; at < frames;) {
		Call c;
		int run = 1;
		while (at + run < frames && quiet[at + run] == quiet[at])
			++run;
		c.silence = quiet[at];
		c.num = s.coin(1, 3) ? run : s.range(s.coin(1, 8) ? 0 : 1, run);
		c.stride = s.coin(2, 3) ? -1 : channels + s.range(0, 3);
		calls.push_back(c);
		at += c.num;
	}
	return calls;
}

template <typename T>
static void write(const char *path, const Format &f, const std::vector<Call> &calls, const std::vector<T> &data, bool base)
{
	DSP::WriteWAV<T> *w = new DSP::WriteWAV<T>(path, f.rate, f.written_bits, f.channels);
	DSP::WritePCM<T> *p = w;
	int at = 0;
	CHECK(p->good(), "writer is not good");
	CHECK(p->rate() == f.rate && p->channels() == f.channels, "writer has rate %d and %d channels", p->rate(), p->channels());
	for (auto &c : calls) {
		if (c.silence) {
			p->silence(c.num);
		} else {
			int stride = c.stride < 0 ? f.channels : c.stride;
			Block<T> buf(c.num ? stride * (c.num - 1) + f.channels : 0);
			for (size_t i = 0; i < buf.size(); ++i)
				buf[i] = T(77);
			for (int n = 0; n < c.num; ++n)
				for (int k = 0; k < f.channels; ++k)
					buf[stride * n + k] = data[(at + n) * f.channels + k];
			if (c.stride < 0)
				p->write(buf.data(), c.num);
			else
				p->write(buf.data(), c.num, c.stride);
		}
		at += c.num;
		CHECK(p->good(), "writer is not good after %d frames", at);
	}
	if (base)
		delete p;
	else
		delete w;
}

template <typename T>
static bool same(T a, T b)
{
	return !memcmp(&a, &b, sizeof(T));
}

template <typename T>
static void round_trip(Src &s, int most, int least = 0)
{
	Format f = format(s);
	if (least && f.channels > 9)
		f.channels = 2;
	int frames = least ? s.range(least, most) : s.coin(1, 20) ? 0 : s.skewed(1, most);
	Rng rng(s.seed());
	int kind = s.range(0, 6);
	bool special = f.bits == 32 && s.coin(1, 3);
	std::vector<T> data(frames * f.channels);
	for (auto &v : data)
		if (!special || !Special<T>::get(rng, v))
			v = sample<T>(rng, kind, f);
	std::vector<bool> quiet(frames);
	bool gaps = s.coin(1, 3), now = s.coin();
	for (int i = 0; i < frames; ++i) {
		if (gaps && rng.below(least ? least / 8 : 8) == 0)
			now = !now;
		quiet[i] = gaps && now;
		if (quiet[i])
			for (int k = 0; k < f.channels; ++k)
				data[i * f.channels + k] = 0;
	}
	s.note("%s, rate %d, bits %d, channels %d, %d frames, kind %d%s", TypeName<T>::get(), f.rate, f.written_bits, f.channels, frames, kind, special ? ", any bits" : "");
	MemFile a, b;
	if (s.coin(1, 4))
		a.set(std::string(s.range(1, 5000), 'x'));
	auto calls = split(s, frames, f.channels, quiet);
	write(a.path(), f, calls, data, s.coin());
	std::string file = a.get();
	write(b.path(), f, split(s, frames, f.channels, quiet), data, s.coin());
	CHECK(file == b.get(), "the file depends on how the data was split");
	// independent look at the file
	int bytes = f.bits / 8, head = f.bits == 32 ? 58 : 44, size = frames * f.channels * bytes;
	CHECK(int(file.size()) == head + size, "file has %d bytes, want %d", int(file.size()), head + size);
	CHECK(file.substr(0, 4) == "RIFF" && file.substr(8, 8) == "WAVEfmt ", "wrong chunk names");
	CHECK(int(le(file, 4, 4)) == head + size - 8, "chunk size %u, want %d", le(file, 4, 4), head + size - 8);
	int fmt = f.bits == 32 ? 18 : 16;
	CHECK(int(le(file, 16, 4)) == fmt, "format chunk of %u bytes", le(file, 16, 4));
	CHECK(le(file, 20, 2) == (f.bits == 32 ? 3u : 1u), "audio format %u", le(file, 20, 2));
	CHECK(int(le(file, 22, 2)) == f.channels, "%u channels, want %d", le(file, 22, 2), f.channels);
	CHECK(int(le(file, 24, 4)) == f.rate, "rate %u, want %d", le(file, 24, 4), f.rate);
	CHECK(int(le(file, 28, 4)) == f.rate * f.channels * bytes, "byte rate %u", le(file, 28, 4));
	CHECK(int(le(file, 32, 2)) == f.channels * bytes, "block size %u", le(file, 32, 2));
	CHECK(int(le(file, 34, 2)) == f.bits, "%u bits per sample", le(file, 34, 2));
	if (f.bits == 32) {
		CHECK(le(file, 36, 2) == 0 && file.substr(38, 4) == "fact" && le(file, 42, 4) == 4, "wrong fact chunk");
		CHECK(int(le(file, 46, 4)) == frames, "fact says %u frames, want %d", le(file, 46, 4), frames);
	}
	CHECK(file.substr(head - 8, 4) == "data" && int(le(file, head - 4, 4)) == size, "data chunk of %u bytes, want %d", le(file, head - 4, 4), size);
	// what the reader has to return
	L factor = f.bits == 8 ? 127 : f.bits == 16 ? 32767 : 1;
	std::vector<T> want(data.size());
	for (size_t i = 0; i < data.size(); ++i) {
		if (f.bits == 32) {
			float v = float(data[i]);
			unsigned u, got = le(file, head + 4 * i, 4);
			memcpy(&u, &v, 4);
			CHECK(u == got, "sample %d is %08x, want %08x", int(i), got, u);
			want[i] = T(v);
		} else {
			int raw = int(le(file, head + bytes * i, bytes));
			if (f.bits == 8)
				raw -= 128;
			else if (raw > 32767)
				raw -= 65536;
			L v = L(data[i]), lo = f.bits == 8 ? -128 : -32768, hi = factor;
			v = std::min(std::max(v * factor, lo), hi);
			near(s, "quantisation in steps", L(raw), v, 0.503L, s.verbose ? pbt::format("(sample %d, value %.17g)", int(i), double(data[i])) : "");
			want[i] = T(raw / factor);
		}
	}
	// reading in any split
	DSP::ReadWAV<T> *r = new DSP::ReadWAV<T>(a.path());
	DSP::ReadPCM<T> *p = r;
	CHECK(p->good(), "reader is not good");
	CHECK(p->rate() == f.rate && p->channels() == f.channels && r->bits() == f.bits, "reader has rate %d, %d channels, %d bits", p->rate(), p->channels(), r->bits());
	CHECK(p->frames() == (frames ? frames : -1), "reader has %d frames, want %d", p->frames(), frames);
	int at = 0, reads = 0;
	bool fresh = true;
	while (at < frames || fresh) {
		fresh = false;
		int num = s.coin(2, 3) ? s.range(0, std::min(frames - at, 40)) : frames - at;
		if (s.coin(1, 4)) {
			p->skip(num);
			at += num;
			CHECK(p->good(), "reader is not good after skipping to %d of %d", at, frames);
			continue;
		}
		int over = s.coin(1, 2) ? -1 : f.channels + s.range(0, 3);
		int stride = over < 0 ? f.channels : over;
		Block<T> buf(num ? stride * (num - 1) + f.channels : 0);
		for (size_t i = 0; i < buf.size(); ++i)
			buf[i] = T(55);
		if (over < 0)
			p->read(buf.data(), num);
		else
			p->read(buf.data(), num, over);
		for (size_t i = 0; i < buf.size(); ++i) {
			int n = int(i) / stride, k = int(i) % stride;
			if (k >= f.channels) {
				CHECK(buf[i] == T(55), "gap of the stride was touched");
				continue;
			}
			T w = want[(at + n) * f.channels + k];
			if (f.bits == 32)
				CHECK(same(buf[i], w), "frame %d channel %d: got %.17g, want %.17g", at + n, k, double(buf[i]), double(w));
			else
				near(s, "sample", buf[i], w, 2 * L(std::numeric_limits<T>::epsilon()) * fabsl(L(w)), s.verbose ? pbt::format("(frame %d channel %d)", at + n, k) : "");
		}
		at += num;
		++reads;
		CHECK(p->good(), "reader is not good after %d of %d frames", at, frames);
	}
	if (s.coin()) {
		Block<T> buf(f.channels);
		p->read(buf.data(), 1);
		CHECK(!p->good(), "reader is good after reading beyond the end");
	}
	delete p;
	s.nontrivial(frames && calls.size() > 1 && reads);
	s.label(gaps, "silence");
	s.label(f.bits == 8 ? "8 bit" : f.bits == 16 ? "16 bit" : "float");
}

// every code of the integer formats survives being read and written again
template <typename T>
static void codes(Src &s)
{
	int bits = s.coin() ? 8 : 16;
	int channels = s.range(1, 3), frames = s.range(1, 200);
	Rng rng(s.seed());
	std::string data;
	int span = bits == 8 ? 256 : 65536, first = int(rng.below(span));
	for (int i = 0; i < frames * channels; ++i)
		put_le(data, unsigned(s.coin(1, 40) ? rng.below(span) : (first + i) % span), bits / 8);
	std::string file = "RIFF";
	put_le(file, unsigned(36 + data.size()), 4);
	file += "WAVEfmt ";
	put_le(file, 16, 4);
	put_le(file, 1, 2);
	put_le(file, channels, 2);
	put_le(file, 8000, 4);
	put_le(file, 8000 * channels * bits / 8, 4);
	put_le(file, channels * bits / 8, 2);
	put_le(file, bits, 2);
	file += "data";
	put_le(file, unsigned(data.size()), 4);
	file += data;
	s.note("%s, %d bits, %d channels, %d frames", TypeName<T>::get(), bits, channels, frames);
	MemFile a, b;
	a.set(file);
	Block<T> buf(frames * channels);
	{
		DSP::ReadWAV<T> r(a.path());
		CHECK(r.good() && r.frames() == frames, "a well-formed file is not good");
		r.read(buf.data(), frames);
		CHECK(r.good(), "reader is not good at the end of the data");
		DSP::WriteWAV<T> w(b.path(), r.rate(), r.bits(), r.channels());
		w.write(buf.data(), frames);
	}
	CHECK(b.get() == file, "file changes when read and written again");
	s.nontrivial();
}

// strides shorter than a frame: values are shared by neighbouring frames, down to one frame that is repeated
template <typename T>
static void overlapping(Src &s)
{
	int bits = s.pick({ 8, 16, 32 }), channels = s.range(1, 6), frames = s.skewed(1, 40), stride = s.range(0, channels - 1);
	s.note("%s, bits %d, channels %d, %d frames, stride %d", TypeName<T>::get(), bits, channels, frames, stride);
	Rng rng(s.seed());
	Block<T> part(stride * (frames - 1) + channels), whole(channels * frames), got(channels * frames), over(stride * (frames - 1) + channels);
	for (size_t i = 0; i < part.size(); ++i)
		part[i] = T(rng.sym());
	for (int n = 0; n < frames; ++n)
		for (int k = 0; k < channels; ++k)
			whole[channels * n + k] = part[stride * n + k];
	MemFile a, b;
	{
		DSP::WriteWAV<T> w(a.path(), 8000, bits, channels), v(b.path(), 8000, bits, channels);
		w.write(part.data(), frames, stride);
		v.write(whole.data(), frames);
	}
	CHECK(a.get() == b.get(), "stride %d does not write the values it names", stride);
	DSP::ReadWAV<T> r(a.path()), q(a.path());
	r.read(over.data(), frames, stride);
	q.read(got.data(), frames);
	CHECK(r.good() && q.good(), "reader is not good");
	// the last one written stays
	for (int n = 0; n < frames; ++n)
		for (int k = 0; k < channels; ++k)
			whole[stride * n + k] = got[channels * n + k];
	for (size_t i = 0; i < over.size(); ++i)
		CHECK(over[i] == whole[i], "value %d read with stride %d: got %.17g, want %.17g", int(i), stride, double(over[i]), double(whole[i]));
	s.nontrivial(frames > 1 && channels > 1);
}

PROP(overlapping_float, 20000, 200000) { overlapping<float>(s); }
PROP(overlapping_double, 20000, 200000) { overlapping<double>(s); }
PROP(floats, 300000, 1500000) { round_trip<float>(s, 300); }
PROP(doubles, 300000, 1500000) { round_trip<double>(s, 300); }
PROP(longer, 20000, 100000) { round_trip<float>(s, 3000); }
PROP(huge, 60, 1000) { round_trip<float>(s, 140000, 70000); }
PROP(codes_float, 200000, 1000000) { codes<float>(s); }
PROP(codes_double, 200000, 1000000) { codes<double>(s); }
PROP(no_room, 400, 4000)
{
	int bits = s.pick({ 8, 16, 32 }), channels = s.range(1, 6), frames = 100000 / channels, num = s.range(1, frames);
	bool silent = s.coin();
	s.note("bits %d, channels %d, %d frames of %s at a time", bits, channels, num, silent ? "silence" : "data");
	MemFile f;
	f.fill();
	Block<float> buf(num * channels);
	for (size_t i = 0; i < buf.size(); ++i)
		buf[i] = 0.25f;
	{
		DSP::WriteWAV<float> w(f.path(), 8000, bits, channels);
		for (int n = 0; n < frames; n += num) {
			if (silent)
				w.silence(num);
			else
				w.write(buf.data(), num);
		}
		CHECK(!w.good(), "writer is good though nothing can be written");
	}
	CHECK(f.get().empty(), "there is something in the file");
	s.nontrivial();
}
