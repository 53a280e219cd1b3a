/*
Driver: runs, replays and shrinks the properties linked into this program.
*/

#include "pbt.hh"
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>

using namespace pbt;

static const Src *current_src = nullptr;
static const char *current_test = "";
static const char *crash_file = nullptr;
static volatile uint64_t case_count = 0;

static std::vector<Prop *> props()
{
	std::vector<Prop *> v;
	for (Prop *p = Prop::list(); p; p = p->next)
		v.push_back(p);
	std::sort(v.begin(), v.end(), [](Prop *a, Prop *b) { return strcmp(a->name, b->name) < 0; });
	return v;
}

static uint64_t hash_str(const char *s)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (; *s; ++s)
		h = (h ^ (unsigned char)*s) * 0x100000001b3ull;
	return h;
}

static uint64_t hash_rec(uint64_t h, const std::vector<uint64_t> &v)
{
	for (uint64_t x : v) {
		h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull;
		h ^= h >> 33;
	}
	return h;
}

static void put(int fd, const char *s)
{
	if (write(fd, s, strlen(s)) < 0)
		return;
}

static void dump_choices(const char *why)
{
	if (!crash_file || !current_src)
		return;
	int fd = open(crash_file, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0)
		return;
	char buf[64];
	put(fd, "test ");
	put(fd, current_test);
	put(fd, "\nwhy ");
	put(fd, why);
	put(fd, "\nchoices");
	for (uint64_t v : current_src->rec) {
		snprintf(buf, sizeof(buf), " %llu", (unsigned long long)v);
		put(fd, buf);
	}
	put(fd, "\n");
	close(fd);
}

namespace pbt {
sigjmp_buf trap_env;
volatile bool trap_armed = false;
}

static void on_signal(int sig)
{
	if (trap_armed && sig == SIGABRT)
		siglongjmp(trap_env, 1);
	char buf[64];
	snprintf(buf, sizeof(buf), "killed by signal %d", sig);
	dump_choices(buf);
	_exit(3);
}

// assertions of the library: expected ones return to traps(), others are crashes
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *)
#ifdef __THROW
	__THROW
#endif
{
	if (trap_armed)
		siglongjmp(trap_env, 1);
	char buf[512];
	snprintf(buf, sizeof(buf), "assertion failed: %s (%s:%u)", expr, file, line);
	fprintf(stderr, "%s\n", buf);
	dump_choices(buf);
	_exit(3);
}

static uint64_t tick_case = ~uint64_t(0);
static int tick_count = 0, tick_limit = 40;

static void on_tick(int)
{
	if (tick_case != case_count) {
		tick_case = case_count;
		tick_count = 0;
		return;
	}
	if (++tick_count >= tick_limit && current_src) {
		dump_choices("does not terminate");
		_exit(3);
	}
}

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { dump_choices("sanitizer report"); }
#endif

static void install()
{
	static char stack[65536];
	stack_t ss;
	memset(&ss, 0, sizeof(ss));
	ss.ss_sp = stack;
	ss.ss_size = sizeof(stack);
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = on_signal;
	sa.sa_flags = SA_ONSTACK;
	sigaction(SIGABRT, &sa, nullptr);
#ifdef HAVE_ASAN
	__sanitizer_set_death_callback(on_death);
#else
	sigaction(SIGSEGV, &sa, nullptr);
	sigaction(SIGBUS, &sa, nullptr);
	sigaction(SIGFPE, &sa, nullptr);
	sigaction(SIGILL, &sa, nullptr);
#endif
	struct sigaction st;
	memset(&st, 0, sizeof(st));
	st.sa_handler = on_tick;
	st.sa_flags = SA_RESTART;
	sigaction(SIGVTALRM, &st, nullptr);
	struct itimerval it;
	it.it_interval.tv_sec = it.it_value.tv_sec = 1;
	it.it_interval.tv_usec = it.it_value.tv_usec = 0;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

enum Result { PASS, FAILED, DISCARDED };

static Result run_one(Prop *p, Src &src, std::string &msg)
{
	current_test = p->name;
	current_src = &src;
	case_count = case_count + 1;
	Result r = PASS;
	try {
		p->body(src);
	} catch (const Fail &f) {
		msg = f.msg;
		r = FAILED;
	} catch (const Discard &) {
		r = DISCARDED;
	}
	current_src = nullptr;
	return r;
}

#ifdef PBT_FUZZER

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	static std::vector<Prop *> list = props();
	static bool once = false;
	if (!once) {
		once = true;
		crash_file = getenv("PBT_CRASH");
		const char *only = getenv("PBT_TEST");
		if (only) {
			std::vector<Prop *> l;
			for (Prop *p : list)
				if (!strcmp(p->name, only))
					l.push_back(p);
			list = l;
		}
		if (list.empty())
			abort();
	}
	if (size < 1)
		return 0;
	Prop *p = list[data[0] % list.size()];
	Src src(data + 1, size - 1, nullptr);
	std::string msg;
	if (run_one(p, src, msg) == FAILED) {
		current_src = &src;
		dump_choices("property failed");
		fprintf(stderr, "FAILED %s: %s\n", p->name, msg.c_str());
		_exit(3);
	}
	return 0;
}

#else

static std::string json_str(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c < 32 || c > 126) {
			r += format("\\u%04x", c);
		} else {
			r += c;
		}
	}
	return r + "\"";
}

static double wall()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}

static void write_fail(const char *file, const char *test, const std::string &why, const std::vector<uint64_t> &rec, uint64_t index = 0)
{
	FILE *f = fopen(file, "w");
	if (!f)
		return;
	fprintf(f, "test %s\nwhy ", test);
	for (unsigned char c : why)
		fputc(c < 32 ? ' ' : c, f);
	fprintf(f, "\nchoices");
	for (uint64_t v : rec)
		fprintf(f, " %llu", (unsigned long long)v);
	fprintf(f, "\nindex %llu\n", (unsigned long long)index);
	fclose(f);
}

static bool read_fail(const char *file, std::string &test, std::vector<uint64_t> &rec)
{
	FILE *f = fopen(file, "r");
	if (!f)
		return false;
	std::string all;
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
		all.append(buf, n);
	fclose(f);
	size_t a = all.find("test "), c = all.rfind("\nchoices");
	if (a != 0 || c == std::string::npos)
		return false;
	test = all.substr(5, all.find('\n') - 5);
	const char *q = all.c_str() + c + 8;
	for (;;) {
		char *e;
		while (*q == ' ')
			++q;
		if (*q < '0' || *q > '9')
			break;
		rec.push_back(strtoull(q, &e, 10));
		q = e;
	}
	return true;
}

static Prop *find(const std::string &name)
{
	for (Prop *p : props())
		if (name == p->name)
			return p;
	fprintf(stderr, "no test %s\n", name.c_str());
	exit(2);
}

static bool still_fails(Prop *p, std::vector<uint64_t> &c, std::string &msg)
{
	Src src(c, nullptr);
	std::string m;
	if (run_one(p, src, m) != FAILED)
		return false;
	// keep what was really used
	std::vector<uint64_t> r = src.rec;
	while (!r.empty() && !r.back())
		r.pop_back();
	c = r;
	msg = m;
	return true;
}

static void shrink(Prop *p, std::vector<uint64_t> &best, std::string &msg, double budget)
{
	double end = wall() + budget;
	if (!still_fails(p, best, msg))
		return;
	bool progress = true;
	while (progress && wall() < end) {
		progress = false;
		for (size_t k = best.size() ? best.size() / 2 : 0; k >= 1 && wall() < end; k /= 2)
			for (size_t i = best.size(); i-- > 0 && wall() < end;) {
				if (i + k > best.size())
					continue;
				std::vector<uint64_t> t(best);
				t.erase(t.begin() + i, t.begin() + i + k);
				if (still_fails(p, t, msg) && (t.size() < best.size() || t < best)) {
					best = t;
					progress = true;
				}
			}
		for (size_t k = 8; k >= 1 && wall() < end; k /= 2)
			for (size_t i = 0; i + k <= best.size() && wall() < end; i += k) {
				std::vector<uint64_t> t(best);
				bool any = false;
				for (size_t j = i; j < i + k; ++j)
					any = any || t[j], t[j] = 0;
				if (any && still_fails(p, t, msg) && t < best) {
					best = t;
					progress = true;
				}
			}
		for (size_t i = 0; i < best.size() && wall() < end; ++i) {
			uint64_t lo = 0, hi = best[i];
			while (lo < hi && i < best.size() && wall() < end) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> t(best);
				t[i] = mid;
				if (still_fails(p, t, msg) && t.size() <= best.size() && t < best) {
					best = t;
					hi = mid;
					progress = true;
				} else {
					lo = mid + 1;
				}
			}
		}
	}
}

int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	std::vector<std::string> pos;
	for (int i = 2; i < argc; ++i) {
		if (!strncmp(argv[i], "--", 2) && i + 1 < argc) {
			opt[argv[i] + 2] = argv[i + 1];
			++i;
		} else {
			pos.push_back(argv[i]);
		}
	}
	if (opt.count("ticks"))
		tick_limit = atoi(opt["ticks"].c_str());
	if (mode == "list") {
		for (Prop *p : props())
			printf("%s %llu %llu\n", p->name, (unsigned long long)p->quick, (unsigned long long)p->thorough);
		return 0;
	}
	if (mode == "replay" || mode == "shrink") {
		std::string test, msg;
		std::vector<uint64_t> rec;
		if (pos.empty() || !read_fail(pos[0].c_str(), test, rec)) {
			fprintf(stderr, "cannot read replay file\n");
			return 2;
		}
		Prop *p = find(test);
		if (opt.count("crash"))
			crash_file = strdup(opt["crash"].c_str());
		install();
		if (mode == "shrink") {
			shrink(p, rec, msg, 20);
			std::vector<uint64_t> keep(rec);
			Src src(keep, nullptr, true);
			run_one(p, src, msg);
			write_fail(pos[1].c_str(), p->name, msg + " [" + src.notes + "]", rec);
			return 0;
		}
		Src src(rec, nullptr, true);
		Result r = run_one(p, src, msg);
		printf("%s %s\n%s\ncase: %s\n", p->name, r == FAILED ? "FAILED" : r == PASS ? "passed" : "discarded", msg.c_str(), src.notes.c_str());
		return r == FAILED ? 1 : 0;
	}
	if (mode != "run") {
		fprintf(stderr, "usage: run|replay|shrink|list\n");
		return 2;
	}
	uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
	bool thorough = opt["tier"] == "thorough";
	double scale = opt.count("scale") ? atof(opt["scale"].c_str()) : 1;
	unsigned shard = opt.count("shard") ? atoi(opt["shard"].c_str()) : 0;
	unsigned shards = opt.count("shards") ? atoi(opt["shards"].c_str()) : 1;
	uint64_t from = opt.count("from") ? strtoull(opt["from"].c_str(), nullptr, 10) : 0;
	std::string out = opt["out"];
	std::string crash = out + ".crash";
	crash_file = crash.c_str();
	install();
	FILE *hf = opt.count("hashes") ? fopen(opt["hashes"].c_str(), "wb") : nullptr;
	std::string js = "{\"tests\":{";
	bool failed = false, first = true;
	for (Prop *p : props()) {
		if (opt.count("test") && opt["test"] != p->name)
			continue;
		Stats st;
		std::unordered_set<uint64_t> seen;
		double n = double(thorough ? p->thorough : p->quick) * scale;
		uint64_t cases = n < 1 ? 1 : uint64_t(n);
		uint64_t base = seed * 0x9e3779b97f4a7c15ull ^ hash_str(p->name);
		std::string msg;
		double t0 = wall();
		for (uint64_t c = shard; c < cases; c += shards) {
			if (c < from)
				continue;
			uint64_t cs = Rng(base + c * 0xd1342543de82ef95ull)();
			Src src(cs, &st);
			Result r = run_one(p, src, msg);
			if (r == DISCARDED) {
				++st.discards;
				continue;
			}
			++st.evals;
			for (const char *l : src.labels_)
				++st.labels[l];
			if (r == FAILED) {
				std::vector<uint64_t> rec = src.rec;
				write_fail((out + ".fail").c_str(), p->name, msg, rec, c);
				failed = true;
				break;
			}
			if (src.nontriv) {
				++st.nontrivial;
				uint64_t h = hash_rec(hash_str(p->name), src.rec);
				if (hf && seen.size() < 3000000 && seen.insert(h).second)
					fwrite(&h, 8, 1, hf);
				if (shard == 0 && st.samples.size() < 3) {
					Src again(cs, nullptr, true);
					std::string m;
					run_one(p, again, m);
					st.samples.push_back(again.notes);
				}
			}
		}
		js += format("%s%s:{\"evals\":%llu,\"nontrivial\":%llu,\"discards\":%llu,\"seconds\":%.3f,\"labels\":{", first ? "" : ",",
			json_str(p->name).c_str(), (unsigned long long)st.evals, (unsigned long long)st.nontrivial, (unsigned long long)st.discards, wall() - t0);
		first = false;
		bool f = true;
		for (auto &l : st.labels) {
			js += (f ? "" : ",") + json_str(l.first) + format(":%llu", (unsigned long long)l.second);
			f = false;
		}
		js += "},\"worst_error_over_tolerance\":{";
		f = true;
		for (auto &l : st.tracks) {
			js += (f ? "" : ",") + json_str(l.first) + format(":%.4g", l.second);
			f = false;
		}
		js += "},\"samples\":[";
		f = true;
		for (auto &l : st.samples) {
			js += (f ? "" : ",") + json_str(l);
			f = false;
		}
		js += "]}";
		if (failed)
			break;
	}
	js += "}}\n";
	if (hf)
		fclose(hf);
	FILE *f = fopen(out.c_str(), "w");
	if (!f)
		return 2;
	fwrite(js.data(), 1, js.size(), f);
	fclose(f);
	return failed ? 1 : 0;
}

#endif
