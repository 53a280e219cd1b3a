// RULE: a case is non-trivial when the bytes start with P5 or P6 and white space
// ASSUME: white space is blank, tab and newline (other characters isspace() knows may or may not be accepted, as may comments without white space before them); numbers above 2147483639 cannot be sizes; files live in memory
// TECH: grammar-based generation and mutation of files against an independent parser, with coverage-guided fuzzing in the thorough tier
#include "dut.hh"
#include "netpbm.hh"
#include "file.hh"

typedef long double L;

struct Header { bool ok = false, unsure = false, mono = false; int64_t num[3] = { 0, 0, 0 }; int head = 0; };

static bool blank(int c) { return c == ' ' || c == '\t' || c == '\n'; }

static Header parse(const std::string &b)
{
	Header h;
	size_t at = 0;
	auto peek = [&]() { return at < b.size() ? (unsigned char)b[at] : -1; };
	if (b.size() < 3 || b[0] != 'P' || (b[1] != '5' && b[1] != '6'))
		return h;
	h.mono = b[1] == '5';
	at = 2;
	for (int i = 0; i < 3; ++i) {
		bool any = false;
		while (true) {
			int c = peek();
			if (blank(c)) {
				++at;
				any = true;
			} else if (c == '\r' || c == '\v' || c == '\f') {
				h.unsure = true;
				++at;
				any = true;
			} else if (c == '#') {
				if (!any)
					h.unsure = true;
				any = true;
				while (at < b.size() && b[at] != '\n')
					++at;
				if (at == b.size())
					return h;
				++at;
			} else {
				break;
			}
		}
		if (!any)
			return h;
		int digits = 0;
		for (; peek() >= '0' && peek() <= '9'; ++at, ++digits)
			h.num[i] = std::min<int64_t>(10 * h.num[i] + (b[at] - '0'), int64_t(1) << 40);
		if (!digits)
			return h;
	}
	int c = peek();
	if (c == '\r' || c == '\v' || c == '\f')
		h.unsure = true;
	else if (!blank(c))
		return h;
	++at;
	for (int i = 0; i < 2; ++i) {
		if (h.num[i] < 1 || h.num[i] > 2147483647)
			return h;
		if (h.num[i] > 2147483639)
			h.unsure = true;
	}
	if (h.num[2] < 1 || h.num[2] > 255)
		return h;
	h.ok = true;
	h.head = int(at);
	return h;
}

static L decode(L c)
{
	return c <= 0.04045L ? c / 12.92L : powl((c + 0.055L) / 1.055L, 2.4L);
}

template <typename T>
static void judge(Src &s, const std::string &b)
{
	std::string t;
	for (size_t i = 0; i < b.size() && i < 80; ++i)
		t += b[i] > 32 && b[i] < 127 && b[i] != '\\' ? pbt::format("%c", b[i]) : pbt::format("\\%03o", (unsigned char)b[i]);
	s.note("%d bytes '%s'", int(b.size()), t.c_str());
	MemFile f;
	f.set(b);
	Header h = parse(b);
	s.nontrivial(b.size() > 2 && b[0] == 'P' && (b[1] == '5' || b[1] == '6') && blank(b[2]));
	Dirty<DSP::ReadPNM<T>> r(s.range(0, 3), f.path());
	bool good = r->good();
	if (!h.unsure)
		CHECK(good == h.ok, "%s file of %d bytes is reported as %sgood", h.ok ? "well-formed" : "broken", int(b.size()), good ? "" : "not ");
	s.label(h.ok ? "well-formed" : "broken");
	s.label(h.unsure, "either");
	if (!good)
		return;
	CHECK(h.ok, "file that is not well-formed is good");
	CHECK(r->mono() == h.mono && r->width() == h.num[0] && r->height() == h.num[1], "got %s %dx%d, want %s %dx%d",
		r->mono() ? "greyscale" : "colour", r->width(), r->height(), h.mono ? "greyscale" : "colour", int(h.num[0]), int(h.num[1]));
	int comps = h.mono ? 1 : 3, have = int(b.size() - h.head) / comps;
	T buf[3];
	int at = 0;
	for (; at < have && at < 20; ++at) {
		r->read(buf, 1);
		CHECK(r->good(), "not good after %d of %d pixels", at + 1, have);
		for (int c = 0; c < comps; ++c) {
			L want = decode(L((unsigned char)b[h.head + at * comps + c]) / h.num[2]);
			near(s, "pixel", buf[c], want, 16 * eps<T> * want);
		}
	}
	if (at == have) {
		r->read(buf, 1);
		CHECK(!r->good(), "good after reading beyond the end");
	}
}

static std::string gap(Src &s)
{
	std::string b;
	do {
		switch (s.range(0, 7)) {
		default: b += " \n\t "[s.range(0, 3)]; break;
		case 6: b += '\n'; break;
		case 7:
			b += b.empty() ? "\n#" : "#";
			for (int i = 0, n = s.range(0, 6); i < n; ++i)
				b += " #P59\t0"[s.range(0, 6)];
			b += '\n';
		}
	} while (s.coin(1, 3));
	return b;
}

static std::string structured(Src &s)
{
	int wrong = s.coin(1, 3) ? s.range(1, 9) : 0;
	bool mono = s.coin();
	std::string b = mono ? "P5" : "P6";
	if (wrong == 1)
		b[s.range(0, 1)] = char(s.pick({ '0', '1', '2', '3', '4', '7', '8', '9', 'p', 'Q', ' ', '\n' }));
	for (int i = 0; i < 3; ++i) {
		b += wrong == 2 + i ? "" : gap(s);
		int64_t v = i < 2 ? s.skewed(1, 100000) : s.edgy(1, 255);
		if (wrong == 5 + i) {
			switch (s.range(0, 5)) {
			case 0: v = 0; break;
			case 1: v = s.range(256, 70000); break;
			case 2: v = s.range64(0, int64_t(1) << 34); break;
			case 3: v = (int64_t(1) << 32) + s.range(0, 300); break;
			case 4: v = -s.range(1, 300); break;
			case 5: v = s.range64(2147483630, 2147483660); break;
			}
		}
		if (wrong == 8 && s.coin(1, 3))
			b += s.pick({ "-", "+", "x", ".", "1e" });
		if (s.coin(1, 10))
			b += std::string(s.range(1, 12), '0');
		b += std::to_string(v);
	}
	b += wrong == 9 ? s.pick({ "", "#", "x", "\r", "#c\n", "." }) : s.pick({ "\n", " ", "\t" });
	Rng rng(s.seed());
	int n = s.skewed(0, 60);
	for (int i = 0; i < n; ++i)
		b += i < 3 && rng.below(3) == 0 ? "# \n\t1"[rng.below(5)] : char(rng());
	return b;
}

static std::string mutated(Src &s)
{
	std::string b = structured(s);
	for (int i = 0, n = s.range(0, 3); i < n && b.size(); ++i) {
		int at = s.range(0, int(std::min<size_t>(b.size(), 40)) - 1);
		switch (s.range(0, 4)) {
		case 0: b[at] = "P56 \n\t#0123459\r-x"[s.range(0, 16)]; break;
		case 1: b[at] = char(s.range(0, 255)); break;
		case 2: b.erase(at, s.range(1, 4)); break;
		case 3: b.insert(at, s.range(1, 3), "P56 \n\t#0123459\r-x"[s.range(0, 16)]); break;
		case 4: b.resize(at); break;
		}
	}
	return b;
}

static std::string raw(Src &s)
{
	std::string b = s.coin(3, 4) ? "P5 " : "";
	for (int i = 0, n = s.skewed(0, 40); i < n; ++i)
		b += s.coin(15, 16) ? "P56 \n\t#0123459"[s.range(0, 13)] : char(s.range(0, 255));
	return b;
}

PROP(headers, 1500000, 7500000) { judge<float>(s, structured(s)); }
PROP(mutations, 1500000, 7500000) { judge<double>(s, mutated(s)); }
PROP(bytes, 1000000, 5000000) { judge<float>(s, raw(s)); }
PROP(missing, 500, 2500)
{
	const char *path = s.pick({ "/nonexistent/file.pnm", "", "/proc/self/fd", "/proc/self/fd/99999" });
	Dirty<DSP::ReadPNM<float>> r(s.range(0, 3), path);
	CHECK(!r->good(), "reader of '%s' is good", path);
	DSP::WritePNM<float> w(s.pick({ "/nonexistent/file.pnm", "", "/proc/self/fd" }), 1, 1);
	CHECK(!w.good(), "writer to a file that cannot be made is good");
	s.note("%s", path);
}
