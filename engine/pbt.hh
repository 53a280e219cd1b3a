/*
Small property-based testing engine used by all checks in /verif/props.

Every random decision of a case is drawn from a Src, which records it as a bounded integer.
A case is therefore fully described by its sequence of choices: replaying the sequence replays
the case, and shrinking works on the sequence (choice 0 is always the simplest alternative, and
a sequence that is too short is extended with zeros).
*/

#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csetjmp>
#include <map>
#include <new>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline std::string vformat(const char *fmt, va_list ap)
{
	char buf[4096];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	return buf;
}

__attribute__((format(printf, 1, 2)))
inline std::string format(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string r = vformat(fmt, ap);
	va_end(ap);
	return r;
}

__attribute__((format(printf, 1, 2), noreturn, noinline, cold))
inline void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string r = vformat(fmt, ap);
	va_end(ap);
	throw Fail{r};
}

struct Rng
{
	uint64_t x;
	explicit Rng(uint64_t seed) : x(seed) {}
	uint64_t operator()()
	{
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? (*this)() % n : (*this)(); }
	int range(int lo, int hi) { return lo + int(below(uint64_t(int64_t(hi) - lo + 1))); }
	// uniform in [-1, 1)
	double sym() { return double(int64_t((*this)()) >> 11) * 0x1p-52; }
	// uniform in [0, 1)
	double unit() { return double((*this)() >> 11) * 0x1p-53; }
};

struct Stats
{
	uint64_t evals = 0, nontrivial = 0, discards = 0;
	std::map<std::string, uint64_t> labels;
	std::map<std::string, double> tracks;
	std::vector<std::string> samples;
};

class Src
{
	Rng rng;
	const std::vector<uint64_t> *given;
	const uint8_t *bytes;
	size_t pos, nbytes;
public:
	std::vector<uint64_t> rec;
	Stats *stats;
	bool nontriv, verbose;
	std::string notes;
	std::vector<const char *> labels_;

	Src(uint64_t seed, Stats *st, bool verb = false) : rng(seed), given(nullptr), bytes(nullptr),
		pos(0), nbytes(0), stats(st), nontriv(false), verbose(verb) { rec.reserve(256); }
	Src(const std::vector<uint64_t> &g, Stats *st, bool verb = false) : rng(0), given(&g), bytes(nullptr),
		pos(0), nbytes(0), stats(st), nontriv(false), verbose(verb) {}
	Src(const uint8_t *data, size_t size, Stats *st) : rng(0), given(nullptr), bytes(data),
		pos(0), nbytes(size), stats(st), nontriv(false), verbose(false) {}

	// uniform in [0, max], 0 is the simplest
	uint64_t draw(uint64_t max)
	{
		uint64_t v;
		if (given) {
			v = pos < given->size() ? (*given)[pos] : 0;
			++pos;
			if (v > max)
				v = max;
		} else if (bytes) {
			v = 0;
			for (uint64_t m = max; m; m >>= 8)
				v = (v << 8) | (pos < nbytes ? bytes[pos++] : 0);
			if (max != UINT64_MAX)
				v %= max + 1;
		} else {
			v = max == UINT64_MAX ? rng() : rng() % (max + 1);
		}
		rec.push_back(v);
		return v;
	}
	// lo is the simplest
	int range(int lo, int hi) { return int(int64_t(lo) + int64_t(draw(uint64_t(int64_t(hi) - int64_t(lo))))); }
	int64_t range64(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + draw(uint64_t(hi) - uint64_t(lo))); }
	// true with probability num/den, false is the simplest
	bool coin(int num = 1, int den = 2) { return int(draw(uint64_t(den - 1))) >= den - num; }
	template <typename T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size() - 1)]; }
	// small values are more likely, everything in [lo, hi] is possible
	int skewed(int lo, int hi)
	{
		uint64_t span = uint64_t(int64_t(hi) - lo);
		int bits = 0;
		while (bits < 63 && (span >> bits))
			++bits;
		int b = range(0, bits);
		uint64_t m = b >= 63 ? span : ((uint64_t(1) << b) - 1);
		return lo + int(draw(m < span ? m : span));
	}
	// value near one of the ends, or anywhere
	int edgy(int lo, int hi)
	{
		int64_t span = int64_t(hi) - lo;
		int w = span < 3 ? int(span) : 3;
		switch (range(0, 3)) {
		case 0: return lo + range(0, w);
		case 1: return hi - range(0, w);
		default: return range(lo, hi);
		}
	}
	double unit() { return double(draw((uint64_t(1) << 53) - 1)) * 0x1p-53; }
	double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
	// log-uniform in [lo, hi]
	double logreal(double lo, double hi) { return std::exp2(real(std::log2(lo), std::log2(hi))); }
	// a sample of a signal with a magnitude of order one, or zero
	double sample()
	{
		switch (range(0, 5)) {
		case 0: return range(0, 8) - 4;
		case 1: return double(range(0, 256) - 128) / 64;
		case 2: return (coin() ? -1 : 1) * logreal(0x1p-20, 8);
		default: return real(-1, 1);
		}
	}
	uint64_t seed() { return draw(UINT64_MAX); }
	void nontrivial(bool b = true) { nontriv = nontriv || b; }
	void label(const char *l) { labels_.push_back(l); }
	void label(bool b, const char *l) { if (b) labels_.push_back(l); }
	__attribute__((format(printf, 2, 3)))
	void note(const char *fmt, ...)
	{
		if (!verbose || notes.size() > 2000)
			return;
		va_list ap;
		va_start(ap, fmt);
		notes += vformat(fmt, ap);
		va_end(ap);
		notes += "; ";
	}
	void track(const char *name, double ratio)
	{
		if (!stats)
			return;
		double &t = stats->tracks[name];
		if (ratio > t)
			t = ratio;
	}
	[[noreturn]] void discard() { throw Discard(); }
};

// works with -ffast-math
inline bool finite(double v)
{
	uint64_t u;
	memcpy(&u, &v, 8);
	return ((u >> 52) & 2047) != 2047;
}
inline bool finite(float v)
{
	uint32_t u;
	memcpy(&u, &v, 4);
	return ((u >> 23) & 255) != 255;
}
inline bool finite(long double v)
{
	uint16_t e;
	memcpy(&e, reinterpret_cast<char *>(&v) + 8, 2);
	return (e & 32767) != 32767;
}

// |got - want| <= tol, with the ratio of error and tolerance recorded under a name
template <typename G>
inline void near(Src &s, const char *name, G got, long double want, long double tol, const std::string &where = "")
{
	if (!finite(got))
		fail("%s: got a value that is not finite, want %.18Lg %s", name, want, where.c_str());
	if (!finite(want))
		fail("%s: reference is not finite %s", name, where.c_str());
	long double err = (long double)got - want;
	if (err < 0)
		err = -err;
	if (err > tol)
		fail("%s: got %.18Lg, want %.18Lg, error %.3Lg, tolerance %.3Lg %s", name, (long double)got, want, err, tol, where.c_str());
	s.track(name, tol > 0 ? double(err / tol) : 0);
}

extern sigjmp_buf trap_env;
extern volatile bool trap_armed;

// whether calling f is stopped by an assertion
template <typename F>
bool traps(F f)
{
	if (sigsetjmp(trap_env, 1)) {
		trap_armed = false;
		return true;
	}
	trap_armed = true;
	f();
	trap_armed = false;
	return false;
}

#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

typedef void (*Body)(Src &);

struct Prop
{
	const char *name;
	Body body;
	uint64_t quick, thorough;
	Prop *next;
	static Prop *&list() { static Prop *l = nullptr; return l; }
	Prop(const char *n, Body b, uint64_t q, uint64_t t) : name(n), body(b), quick(q), thorough(t), next(list()) { list() = this; }
};

// PROP(name, cases of the quick tier, cases of the thorough tier) { ... Src &s ... }
#define PROP(NAME, QUICK, THOROUGH) \
	static void prop_##NAME(::pbt::Src &s); \
	static ::pbt::Prop prop_reg_##NAME(#NAME, prop_##NAME, QUICK, THOROUGH); \
	static void prop_##NAME([[maybe_unused]] ::pbt::Src &s)

// An object constructed in memory filled with a pattern, so that members left unset are noticed.
template <typename T>
class Dirty
{
	unsigned char *mem;
	T *obj;
public:
	template <typename... A>
	explicit Dirty(int pattern, A &&...a)
	{
		static const unsigned char pat[4] = { 0xff, 0x55, 0x00, 0x7f };
		size_t al = alignof(T) < sizeof(void *) ? sizeof(void *) : alignof(T);
		mem = static_cast<unsigned char *>(aligned_alloc(al, (sizeof(T) + al - 1) / al * al));
		memset(mem, pat[pattern & 3], sizeof(T));
		asm volatile("" : : "r"(mem) : "memory");
		obj = new (mem) T(static_cast<A &&>(a)...);
	}
	Dirty(const Dirty &) = delete;
	Dirty &operator=(const Dirty &) = delete;
	~Dirty() { obj->~T(); free(mem); }
	T *operator->() { return obj; }
	T &operator*() { return *obj; }
};

// exact-size heap block, so that the sanitizer sees every access outside of it
template <typename T>
class Block
{
	T *p;
	size_t n;
public:
	explicit Block(size_t n_) : n(n_)
	{
		p = static_cast<T *>(malloc(n ? n * sizeof(T) : 1));
		for (size_t i = 0; i < n; ++i)
			new (p + i) T();
	}
	Block(const Block &) = delete;
	Block &operator=(const Block &) = delete;
	~Block() { free(p); }
	T *data() { return p; }
	T &operator[](size_t i) { return p[i]; }
	size_t size() const { return n; }
};

}

using pbt::Src;
using pbt::Rng;
using pbt::near;
using pbt::Dirty;
using pbt::Block;
