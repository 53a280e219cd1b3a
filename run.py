#!/usr/bin/env python3
"""Builds and runs the property checks in /verif/props against /repo.

run.py check ID        run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
run.py replay FILE     rebuild and replay one failing case
run.py setup           check that the tools are there
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)
BUILD = os.path.join(OUT, "build")
CORES = os.cpu_count() or 4

COMMON = ["-std=c++17", "-w", "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "props"), "-I" + REPO]
SAN = ["-gline-tables-only", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=shift,vptr", "-fno-omit-frame-pointer"]
VARIANTS = {
    # the flags of the project's own Makefile
    "fast": ["g++", "-O2", "-ffast-math", "-ftree-vectorize"],
    # strict arithmetic, memory and undefined behaviour sanitizers
    "san": ["clang++"] + SAN,
    # thorough tier only
    "o3": ["g++", "-O3", "-ffast-math", "-funroll-loops"],
    "strict": ["g++", "-O2"],
    "fuzz": ["clang++"] + SAN + ["-fsanitize=fuzzer", "-DPBT_FUZZER"],
}
# share of the registered number of cases that a variant runs
SCALE = {"fast": 1.0, "san": 0.2, "o3": 0.5, "strict": 0.5}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C.UTF-8")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


def sources(pid, tier="thorough"):
    """The tests of a property; some cost too much for the quick tier."""
    found = sorted(glob.glob(os.path.join(HERE, "props", pid + "*.cc")))
    return [f for f in found if tier != "quick" or "// TIER: thorough" not in open(f).read()]


def meta(pid):
    text = "\n".join(open(f).read() for f in sources(pid))
    rule = " ".join(re.findall(r"^// RULE: (.*)$", text, re.M))
    assume = re.findall(r"^// ASSUME: (.*)$", text, re.M)
    flags = " ".join(re.findall(r"^// FLAGS: (.*)$", text, re.M)).split()
    return rule, assume, flags


def spare(src, text, lines):
    """Removes the tests around the given lines of a source; returns the rest and their names."""
    out, gone, names, inside = [], False, [], False
    body = text.split("\n")
    for n, l in enumerate(body, 1):
        m = re.match(r"PROP\((\w+)", l)
        if m:
            end = n
            if l.count("{") == 0 or l.count("{") != l.count("}"):
                while end < len(body) and body[end - 1] != "}":
                    end += 1
            inside, last = True, end
            gone = any(n <= k <= end for k in lines)
            if gone:
                names.append(m.group(1))
        out.append("" if inside and gone else l)
        if inside and n == last:
            inside = False
    return "\n".join(out), names


def compile(cmd, budget=240):
    """Compiles a source. Tests the compiler cannot translate are left out, if others remain."""
    end, src, dropped = time.time() + budget, cmd[-3], []
    r = sh(cmd)
    first = r
    while r.returncode and time.time() < end:
        lines = {int(k) for k in re.findall(re.escape(os.path.basename(src)) + r":(\d+)", r.stdout)}
        text = open(cmd[-3]).read()
        # the library has its own complex numbers
        own = re.sub(r"(Types<.*?)((?:, std::complex<\w+>)+)>", r"\1>", text)
        rest, names = (own, ["std::complex"]) if own != text else spare(src, text, lines)
        # real numbers may be possible where complex ones are not
        real = re.sub(r"(Types<(?:(?:float|double|int), )*(?:float|double|int))((?:, DSP::Complex<\w+>)+)>", r"\1>", text)
        if own == text and real != text and "Complex<" in r.stdout:
            rest, names = real, ["DSP::Complex"]
        if not names or not re.search(r"^PROP\(", rest, re.M):
            break
        dropped += names
        copy = cmd[-1][:-2] + "." + os.path.basename(src)
        with open(copy, "w") as f:
            f.write(rest)
        cmd = cmd[:-3] + [copy, "-o", cmd[-1]]
        r = sh(cmd + (["-ferror-limit=0"] if "clang" in cmd[0] else []))
    return (first if r.returncode else r), dropped


def build(pid, variants, lost=None, tier="thorough"):
    """Returns {variant: program}; raises on a compiler error. Tests left out are added to lost."""
    srcs = sources(pid, tier)
    if not srcs:
        raise SystemExit("no sources for " + pid)
    flags = meta(pid)[2]
    jobs, progs = [], {}
    for v in variants:
        d = os.path.join(BUILD, pid, v)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in srcs + [os.path.join(HERE, "engine", "main.cc")]:
            o = os.path.join(d, os.path.basename(s)[:-3] + ".o")
            jobs.append((v, o, VARIANTS[v] + COMMON + flags + ["-c", s, "-o", o]))
        progs[v] = os.path.join(d, "run")
    # long ones first
    jobs.sort(key=lambda j: (os.path.getsize(j[2][-3]), j[0] == "san"), reverse=True)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for (v, o, c), (r, dropped) in zip(jobs, ex.map(lambda j: compile(j[2]), jobs)):
            if lost is not None:
                lost += ["%s (%s)" % (d, v) for d in dropped]
            if r.returncode:
                print(r.stdout[-4000:])
                raise RuntimeError("cannot build %s for %s" % (pid, v))
        links = {v: VARIANTS[v] + [o for w, o, _ in jobs if w == v] + ["-o", progs[v]] for v in variants}
        for v, r in zip(links, ex.map(sh, links.values())):
            if r.returncode:
                print(r.stdout[-4000:])
                raise RuntimeError("cannot link %s for %s" % (pid, v))
    return progs


def read_case(path):
    t = open(path, errors="replace").read()
    test = re.match(r"test (.*)", t).group(1)
    why = re.search(r"^why (.*)$", t, re.M)
    ch = re.search(r"^choices(.*)$", t, re.M)
    return test, why.group(1) if why else "", [int(x) for x in ch.group(1).split()] if ch else []


def write_case(path, test, why, choices):
    with open(path, "w") as f:
        f.write("test %s\nwhy %s\nchoices%s\n" % (test, why.replace("\n", " "), "".join(" %d" % c for c in choices)))


def fails(prog, path, timeout=200):
    """Whether a replay fails: None (no), or a short description."""
    try:
        r = sh([prog, "replay", path], timeout=timeout)
    except subprocess.TimeoutExpired:
        return "does not terminate"
    if r.returncode == 0:
        return None
    if r.returncode == 1:
        return r.stdout.strip()
    m = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*)", r.stdout)
    return "crash (exit %d) %s" % (r.returncode, m.group(1) if m else "")


def shrink_crash(prog, test, choices, scratch, budget=40.0):
    """Delta debugging of a crashing case, one process per attempt."""
    end = time.time() + budget
    def bad(c):
        write_case(scratch, test, "", c)
        try:
            r = sh([prog, "replay", "--ticks", "5", scratch], timeout=60)
        except subprocess.TimeoutExpired:
            return True
        return r.returncode not in (0, 1)
    best = list(choices)
    k = max(1, len(best) // 2)
    while time.time() < end:
        i = len(best) - k
        while i >= 0 and time.time() < end:
            c = best[:i] + best[i + k:]
            if bad(c):
                best = c
            i -= k
        if k == 1:
            break
        k //= 2
    for i in range(len(best)):
        for v in (0, best[i] // 2):
            if time.time() > end:
                break
            if v < best[i]:
                c = best[:i] + [v] + best[i + 1:]
                if bad(c):
                    best = c
                    break
    return best


def settle(pid, variant, prog, path, cmd=None):
    """Shrinks and replays a failing case; returns (file, reason) or None when it does not reproduce."""
    test, why, choices = read_case(path)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    out = os.path.join(OUT, "replays", "%s-%s.case" % (pid, test))
    tmp = path + ".min"
    crash = path.endswith(".crash")
    if crash:
        write_case(tmp, test, why, shrink_crash(prog, test, choices, path + ".tmp"))
    else:
        try:
            r = sh([prog, "shrink", path, tmp], timeout=120)
        except subprocess.TimeoutExpired:
            r = None
        if not os.path.exists(tmp):
            shutil.copy(path, tmp)
    for cand, need, tries in ((tmp, 3, 3), (path, 3, 3), (path, 2, 5)):
        got = [x for x in (fails(prog, cand) for _ in range(tries)) if x]
        if len(got) >= need:
            t, w, c = read_case(cand)
            write_case(out, t, got[-1] if crash else w, c)
            with open(out, "a") as f:
                f.write("property %s\nvariant %s\nreplay python3 %s/run.py replay %s\n" % (pid, variant, HERE, out))
            return out, got[-1]
    return sequence(pid, variant, prog, path, cmd, out) if cmd else None


def again(prog, args, scratch, timeout=150):
    """Runs a sequence of cases; the reason when one fails."""
    for ext in ("", ".fail", ".crash"):
        if os.path.exists(scratch + ext):
            os.remove(scratch + ext)
    try:
        r = sh([prog, "run"] + args + ["--out", scratch], timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    for ext in (".fail", ".crash"):
        if os.path.exists(scratch + ext):
            return read_case(scratch + ext)[:2]
    return None


def sequence(pid, variant, prog, path, cmd, out):
    """A failure that depends on earlier cases is replayed with them, as few as suffice."""
    test = read_case(path)[0]
    m = re.search(r"^index (\d+)$", open(path).read(), re.M)
    base = cmd[2:cmd.index("--out")]
    shards = int(base[base.index("--shards") + 1])
    tries = [base + ["--test", test, "--from", str(max(0, int(m.group(1)) - shards * n))] for n in (1, 4, 16, 64, 256, 1024, 4096) if m]
    tries += [base + ["--test", test], base]
    for args in tries:
        got = [x for x in (again(prog, args, path + ".seq") for _ in range(3)) if x and x[0] == test]
        if len(got) >= 2:
            with open(out, "w") as f:
                f.write("test %s\nwhy %s (after other cases)\nsequence %s\nproperty %s\nvariant %s\nreplay python3 %s/run.py replay %s\n" %
                        (test, got[-1][1], " ".join(args), pid, variant, HERE, out))
            return out, got[-1][1] + " (after other cases)"
    return None


def known(pid):
    """Open findings: lines 'KNOWN property=ID test=NAME match=REGEX :: text' of known_findings.txt."""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN property=(\S+) test=(\S+) match=(\S+) :: (.*)", l)
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mult = float(os.environ.get("VERIF_MULT", "1"))
    rule, assume, _ = meta(pid)
    variants = ["fast", "san"] if tier == "quick" else ["fast", "san", "o3", "strict"]
    lost = []
    progs = build(pid, variants + (["fuzz"] if tier == "thorough" else []), lost, tier)
    t_build = time.time() - t0
    work = os.path.join(BUILD, pid, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    shards = CORES if tier == "quick" else 2 * CORES
    for i, v in enumerate(variants):
        for k in range(shards):
            out = os.path.join(work, "%s.%d" % (v, k))
            jobs.append((v, out, [progs[v], "run", "--seed", str(seed * 1000003 + i * 7919), "--tier", tier, "--scale", str(SCALE[v] * mult),
                                  "--shard", str(k), "--shards", str(shards), "--out", out, "--hashes", out + ".hash",
                                  "--ticks", "120" if v == "san" else "60"]))
    limit = 780 if tier == "quick" else 6 * 3600
    def one(j):
        try:
            return sh(j[2], timeout=max(10, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            return None
    jobs.sort(key=lambda j: j[0] != "san")
    problem = None
    with cf.ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(one, jobs))
    failures = []
    tests, hashes, stats = {}, set(), {}
    for (v, out, _), r in zip(jobs, results):
        for ext in (".fail", ".crash"):
            if os.path.exists(out + ext):
                failures.append((v, out + ext))
        if r is None:
            problem = "time limit reached in %s" % out
        elif r.returncode not in (0, 1) and not os.path.exists(out + ".crash"):
            problem = "exit %s without a case in %s: %s" % (r.returncode, out, r.stdout[-500:])
        if os.path.exists(out):
            for name, d in json.load(open(out))["tests"].items():
                t = tests.setdefault(name, {"evaluations": 0, "nontrivial": 0, "discarded": 0, "seconds": 0.0, "labels": {}, "worst_error_over_tolerance": {}, "samples": []})
                t["evaluations"] += d["evals"]
                t["nontrivial"] += d["nontrivial"]
                t["discarded"] += d["discards"]
                t["seconds"] = round(t["seconds"] + d["seconds"], 2)
                for l, n in d["labels"].items():
                    t["labels"][l] = t["labels"].get(l, 0) + n
                for l, n in d["worst_error_over_tolerance"].items():
                    t["worst_error_over_tolerance"][l] = max(n, t["worst_error_over_tolerance"].get(l, 0))
                t["samples"] += d["samples"]
        if os.path.exists(out + ".hash"):
            a = array.array("Q")
            data = open(out + ".hash", "rb").read()
            a.frombytes(data[:len(data) // 8 * 8])
            hashes.update(a)
    fuzz_runs = 0
    if tier == "thorough" and not failures and not problem:
        fuzz_runs, ff, problem = fuzz(pid, progs["fuzz"], work, seed, mult)
        failures += ff
    violations, seen = [], set()
    opened = known(pid)
    for v, path in failures:
        test = read_case(path)[0]
        if test in seen:
            continue
        s = settle(pid, v, progs[v], path, next((j[2] for j in jobs if path.startswith(j[1] + ".")), None))
        if not s:
            problem = "a failure of %s does not reproduce" % test
            continue
        k = [x for x in opened if x[0] == test and re.search(x[1], s[1])]
        if k:
            continue
        seen.add(test)
        violations.append((test, v) + s)
        if len(violations) >= 3:
            break
    for test, match, text in opened:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    samples = []
    for name in sorted(tests):
        for x in tests[name].pop("samples")[:2]:
            samples.append({"test": name, "case": x[:600]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests.values()) + fuzz_runs,
            "distinct_nontrivial": len(hashes),
            "rule": rule, "samples": samples or [{"test": "-", "case": "none"}],
            "discarded": sum(t["discarded"] for t in tests.values()),
            "tests": tests, "variants": {v: " ".join(VARIANTS[v]) for v in variants},
            "build_seconds": round(t_build, 1),
        },
        "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    # usable with fewer types than before says nothing about behaviour, but most tests have to remain
    if lost:
        ev["coverage"]["tests_left_out"] = lost
        total = sum(len(re.findall(r"^PROP\(", open(s).read(), re.M)) for s in sources(pid, tier))
        if 3 * len({l.split()[0] for l in lost}) > total:
            problem = problem or "cannot build " + ", ".join(lost)
        else:
            print("NOTE: tests that do not compile were left out: " + ", ".join(lost))
    if tier == "thorough":
        ev["coverage"]["coverage_guided_runs"] = fuzz_runs
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" %
          (pid, tier, ev["coverage"]["evaluations"], len(hashes), t_build, ev["wall_s"]))
    if violations:
        for test, v, path, why in violations:
            print("%s (%s): %s" % (test, v, why[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problem:
        print("ERROR: " + problem)
        return 2
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True)
    return 0


def fuzz(pid, prog, work, seed, mult):
    """Coverage-guided campaign over the same properties, fixed number of runs, fresh corpus."""
    runs = int(400000 * mult)
    procs, fails_, total, problem = [], [], 0, None
    for k in range(CORES):
        d = os.path.join(work, "corpus%d" % k)
        os.makedirs(d)
        crash = os.path.join(work, "fuzz%d.crash" % k)
        env = dict(ENV, PBT_CRASH=crash)
        log = open(os.path.join(work, "fuzz%d.log" % k), "w")
        procs.append((k, crash, subprocess.Popen([prog, "-seed=%d" % (seed * 100 + k + 1), "-runs=%d" % runs, "-max_total_time=900", "-max_len=2048", "-len_control=20",
                                                  "-timeout=300", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + work + "/", d],
                                                 stdout=log, stderr=subprocess.STDOUT, env=env)))
    for k, crash, p in procs:
        p.wait()
        t = open(os.path.join(work, "fuzz%d.log" % k), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units: (\d+)", t)
        if m:
            total += int(m.group(1))
        if os.path.exists(crash):
            if read_case(crash)[1] == "property failed":
                os.rename(crash, crash[:-6] + ".fail")
                crash = crash[:-6] + ".fail"
            fails_.append(("san", crash))
        elif p.returncode:
            problem = "libFuzzer exit %d: %s" % (p.returncode, t[-300:])
    return total, fails_, problem


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "check":
        try:
            sys.exit(check(sys.argv[2]))
        except RuntimeError as e:
            print("ERROR: %s" % e)
            sys.exit(2)
    if cmd == "replay":
        text = open(sys.argv[2]).read()
        pid = re.search(r"^property (\S+)", text, re.M).group(1)
        v = re.search(r"^variant (\S+)", text, re.M).group(1)
        test = re.search(r"^test (.*)", text, re.M).group(1)
        quick = any("PROP(%s," % test in open(s).read() for s in sources(pid, "quick"))
        m = re.search(r"^sequence (.*)$", text, re.M)
        quick = quick and not (m and "thorough" in m.group(1))
        prog = build(pid, [v], tier="quick" if quick else "thorough")[v]
        if m:
            r = again(prog, m.group(1).split(), os.path.join(BUILD, pid, "replay"), None)
            r = r and " ".join(r)
        else:
            r = fails(prog, sys.argv[2])
        print(r or "passed")
        sys.exit(1 if r else 0)
    if cmd == "setup":
        for c in ("g++", "clang++"):
            r = sh([c, "--version"])
            print(r.stdout.splitlines()[0])
            if r.returncode:
                sys.exit(1)
        os.makedirs(BUILD, exist_ok=True)
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
