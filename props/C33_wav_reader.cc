// RULE: a case is non-trivial when the bytes start like a WAV file (RIFF, WAVE, fmt)
// ASSUME: supported layouts are a format chunk of 16 bytes, or of 18 bytes followed by a fact chunk, then the data chunk; where a header asks for a rate, byte rate or chunk size beyond 31 bits or a block size beyond 15 bits, consistently, either answer is allowed; files live in memory
// TECH: grammar-based generation and mutation of files against an independent parser, with coverage-guided fuzzing in the thorough tier
#include "dut.hh"
#include "wav.hh"
#include "file.hh"

typedef long double L;

struct Header { bool ok = false, unsure = false; int rate = 0, channels = 0, bits = 0, frames = -1, head = 0; };

static Header parse(const std::string &b)
{
	Header h;
	size_t at = 0;
	auto name = [&](const char *n) {
		bool r = b.size() >= at + 4 && !b.compare(at, 4, n, 4);
		at += 4;
		return r;
	};
	auto num = [&](int n) {
		int64_t v = -1;
		if (b.size() >= at + n)
			v = le(b, int(at), n);
		at += n;
		return v;
	};
	if (!name("RIFF"))
		return h;
	int64_t riff = num(4);
	if (!name("WAVE") || !name("fmt "))
		return h;
	int64_t fmt = num(4);
	if (fmt != 16 && fmt != 18)
		return h;
	int64_t audio = num(2), channels = num(2), rate = num(4), byte_rate = num(4), block = num(2), bits = num(2);
	if (!((audio == 1 && (bits == 8 || bits == 16)) || (audio == 3 && bits == 32)))
		return h;
	if (channels < 1)
		return h;
	bool unsure = channels > 32767 || rate > 2147483647 || rate < 1;
	int64_t bytes = bits / 8;
	if (((bytes * channels) & 65535) != block)
		return h;
	unsure = unsure || bytes * channels > 32767;
	if (unsure ? ((rate * bytes * channels) & 0xffffffffll) != byte_rate : rate * bytes * channels != byte_rate)
		return h;
	unsure = unsure || rate * bytes * channels > 2147483647;
	int64_t frames = -1;
	if (fmt == 18) {
		if (num(2) != 0 || !name("fact") || num(4) != 4)
			return h;
		frames = int(num(4));
	}
	if (!name("data"))
		return h;
	int64_t size = num(4);
	if (at > b.size())
		return h;
	int64_t overhead = int64_t(at) - 8;
	if (size == 0 || size > 2147483647 || riff == 0 || riff > 2147483647) {
		frames = -1;
	} else {
		if (size + overhead != riff)
			return h;
		if (fmt == 16)
			frames = size / (bytes * channels);
	}
	h.ok = true;
	h.unsure = unsure;
	h.rate = int(rate);
	h.channels = int(channels);
	h.bits = int(bits);
	h.frames = int(frames);
	h.head = int(at);
	return h;
}

template <typename T>
static void judge(Src &s, const std::string &bytes)
{
	MemFile f;
	f.set(bytes);
	Header h = parse(bytes);
	s.nontrivial(bytes.size() >= 16 && !bytes.compare(0, 4, "RIFF") && !bytes.compare(8, 8, "WAVEfmt "));
	Dirty<DSP::ReadWAV<T>> r(s.range(0, 3), f.path());
	bool good = r->good();
	if (!h.unsure)
		CHECK(good == h.ok, "%s file of %d bytes is reported as %sgood", h.ok ? "well-formed" : "broken", int(bytes.size()), good ? "" : "not ");
	s.label(h.ok ? "well-formed" : "broken");
	s.label(h.unsure, "extreme");
	if (!good)
		return;
	CHECK(h.ok, "file that is not well-formed is good");
	CHECK(r->rate() == h.rate && r->bits() == h.bits && r->frames() == h.frames, "got rate %d, %d bits and %d frames, want %d, %d and %d",
		r->rate(), r->bits(), r->frames(), h.rate, h.bits, h.frames);
	if (h.unsure)
		return;
	CHECK(r->channels() == h.channels, "got %d channels, want %d", r->channels(), h.channels);
	// the samples that are there, and one frame more
	int bpf = h.channels * h.bits / 8;
	int have = int(bytes.size() - h.head) / bpf, at = 0;
	if (h.channels > 4000)
		return;
	Block<T> buf(h.channels);
	if (have && s.coin(1, 3)) {
		at = s.range(0, have);
		r->skip(at);
		CHECK(r->good(), "not good after skipping to %d of %d frames", at, have);
	}
	for (int n = 0; at < have && n < 20; ++at, ++n) {
		r->read(buf.data(), 1);
		CHECK(r->good(), "not good after %d of %d frames", at + 1, have);
		for (int c = 0; c < h.channels; ++c) {
			int bytes_per = h.bits / 8;
			unsigned u = le(bytes, h.head + at * bpf + c * bytes_per, bytes_per);
			if (h.bits == 32) {
				float v;
				memcpy(&v, &u, 4);
				if ((u & 0x7f800000) == 0x7f800000 || (u & 0x7f800000) == 0)
					continue;
				CHECK(buf[c] == T(v), "frame %d channel %d: got %.9g, want %.9g", at, c, double(buf[c]), double(v));
			} else {
				L v = h.bits == 8 ? (int(u) - 128) / 127.L : int16_t(u) / 32767.L;
				near(s, "sample", buf[c], v, 2 * L(std::numeric_limits<T>::epsilon()) * fabsl(v));
			}
		}
	}
	if (at == have) {
		r->read(buf.data(), 1);
		CHECK(!r->good(), "good after reading beyond the end");
	}
}

// a header with every field as it should be, or not
static std::string structured(Src &s)
{
	int wrong = s.coin() ? 0 : s.range(1, 2);
	// fields to get wrong
	bool bad[18] = {};
	for (int i = 0; i < wrong; ++i)
		bad[s.range(0, 17)] = true;
	auto odd = [&](int bits) -> unsigned {
		unsigned m = bits == 16 ? 0xffff : 0xffffffff;
		switch (s.range(0, 3)) {
		case 0: return s.pick({ 0u, 1u, 2u, 3u, 4u, 8u, 14u, 16u, 18u, 24u, 32u, 36u, 40u, 50u, 58u, 64u }) & m;
		case 1: return (0u - unsigned(s.range(1, 4))) & m;
		case 2: return (s.coin() ? 0x80000000u : 0x7fffffffu) >> (32 - bits) & m;
		default: return unsigned(s.seed()) & m;
		}
	};
	auto tag = [&](const char *n, bool wrong_one) {
		std::string t(n);
		if (wrong_one)
			t[s.range(0, 3)] ^= char(1 << s.range(0, 7));
		return t;
	};
	int bits = s.pick({ 8, 16, 32 });
	int channels = s.coin(1, 8) ? s.skewed(1, 40000) : s.range(1, 6);
	unsigned rate = s.coin(2, 3) ? unsigned(s.pick({ 8000, 44100, 48000 })) : s.coin(1, 8) ? unsigned(s.seed()) : unsigned(s.skewed(1, 10000000));
	bool ext = s.coin() ? bits == 32 : s.coin();
	int bytes = bits / 8;
	int frames = s.skewed(0, 30);
	int64_t size = int64_t(frames) * channels * bytes;
	if (size > 4000) {
		frames = 0;
		size = 0;
	}
	if (s.coin(1, 10))
		size += s.range(1, 3);
	std::string b = tag("RIFF", bad[0]);
	unsigned head = ext ? 58 : 44;
	bool stream = s.coin(1, 6);
	put_le(b, bad[1] ? odd(32) : stream ? s.pick({ 0u, 0xffffffffu, 36u, 50u }) : unsigned(head - 8 + size + (bad[17] ? s.range(-20, 20) : 0)), 4);
	b += tag("WAVE", bad[2]) + tag("fmt ", bad[3]);
	put_le(b, bad[4] ? odd(32) : ext ? 18 : 16, 4);
	put_le(b, bad[5] ? odd(16) : bits == 32 ? 3 : 1, 2);
	put_le(b, bad[6] ? odd(16) : channels, 2);
	put_le(b, bad[7] ? odd(32) : rate, 4);
	put_le(b, bad[8] ? odd(32) : rate * channels * bytes, 4);
	put_le(b, bad[9] ? odd(16) : channels * bytes, 2);
	put_le(b, bad[10] ? odd(16) : bits, 2);
	if (ext) {
		put_le(b, bad[11] ? odd(16) : 0, 2);
		b += tag("fact", bad[12]);
		put_le(b, bad[13] ? odd(32) : 4, 4);
		put_le(b, bad[14] ? odd(32) : unsigned(frames), 4);
	}
	b += tag("data", bad[15]);
	put_le(b, bad[16] ? odd(32) : stream ? s.pick({ 0xffffffffu, 0u, 0x80000000u }) : unsigned(size), 4);
	Rng rng(s.seed());
	int real = s.coin(3, 4) ? int(size) : s.range(0, 200);
	for (int i = 0; i < real; ++i)
		b += char(rng());
	return b;
}

static std::string mutated(Src &s)
{
	std::string b = structured(s);
	for (int i = 0, n = s.range(0, 3); i < n && b.size(); ++i) {
		int at = s.range(0, int(std::min<size_t>(b.size(), 60)) - 1);
		switch (s.range(0, 5)) {
		case 0: b[at] ^= char(1 << s.range(0, 7)); break;
		case 1: b[at] = char(s.range(0, 255)); break;
		case 2: b.erase(at, s.range(1, 8)); break;
		case 3: b.insert(at, s.range(1, 8), char(s.range(0, 255))); break;
		case 4: b.resize(at); break;
		case 5: b.insert(std::min<size_t>(36, b.size()), std::string("LIST\4\0\0\0abcd", 12)); break;
		}
	}
	return b;
}

// truncation of a correct file at every place
static std::string truncated(Src &s)
{
	std::string b = structured(s);
	b.resize(s.range(0, int(std::min<size_t>(b.size(), 64))));
	return b;
}

static std::string raw(Src &s)
{
	std::string b;
	int n = s.skewed(0, 80);
	for (int i = 0; i < n; ++i)
		b += s.coin() ? "RIFFWAVEfmt data\0\1\3\10\20\40\22"[s.range(0, 22)] : char(s.range(0, 255));
	return b;
}

static void show(Src &s, const std::string &b)
{
	std::string t;
	for (size_t i = 0; i < b.size() && i < 64; ++i)
		t += pbt::format("%02x", (unsigned char)b[i]);
	s.note("%d bytes %s", int(b.size()), t.c_str());
}

PROP(headers, 750000, 3750000) { auto b = structured(s); show(s, b); judge<float>(s, b); }
PROP(mutations, 750000, 3750000) { auto b = mutated(s); show(s, b); judge<double>(s, b); }
PROP(truncations, 150000, 750000) { auto b = truncated(s); show(s, b); judge<float>(s, b); }
PROP(bytes, 150000, 750000) { auto b = raw(s); show(s, b); judge<float>(s, b); }
PROP(missing, 500, 2500)
{
	const char *path = s.pick({ "/nonexistent/file.wav", "", "/proc/self/fd", "/proc/self/fd/99999" });
	Dirty<DSP::ReadWAV<float>> r(s.range(0, 3), path);
	CHECK(!r->good(), "reader of '%s' is good", path);
	DSP::WriteWAV<float> w(s.pick({ "/nonexistent/file.wav", "", "/proc/self/fd" }), 8000, 16, 1);
	CHECK(!w.good(), "writer to a file that cannot be made is good");
	s.note("%s", path);
}
