#!/usr/bin/env python3
"""mutate.py [-n MAX] [-m MULT] [-o FILE] HEADER...: single-token mutants of headers of /repo.

Every mutant is built with the project's flags only and run at a fraction of the quick tier
through the checks whose anchors name the header. What survives goes through the whole checks
and is listed for review when they are quiet about it.
"""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run

SWAP = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"],
        "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-="], "-=": ["+="], "*=": ["/="], "/=": ["*="],
        "++": ["--"], "true": ["false"], "false": ["true"], "min": ["max"], "max": ["min"], "cos": ["sin"], "sin": ["cos"],
        "real": ["imag"], "imag": ["real"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "!": [""], "abs": [""], "conj": [""]}
TOKEN = re.compile(r"\d+\.\d*\w*|\.\d+\w*|\b\d+\b|[A-Za-z_]\w*|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\+\+|--|->|::|[-+*/%<>=!&|]")


def mutants(text):
    lines = text.split("\n")
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "template", "namespace", "typedef", "using", "class", "struct", "public", "static const char")):
            continue
        code = l.split("//")[0]
        for m in TOKEN.finditer(code):
            t, a, b = m.group(), m.start(), m.end()
            rep = SWAP.get(t, [])
            if t in "<>" and code[a - 1:a] != " ":
                rep = []
            if re.fullmatch(r"\d+", t):
                rep = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
            elif re.fullmatch(r"\d*\.\d*\w*", t):
                rep = [t + " * 1.01"] if t not in ("0.", ".0", "0.0") else ["0.01"]
            for r in rep:
                yield n, "%s -> %s" % (t, r), "\n".join(lines[:n] + [l[:a] + r + l[b:]] + lines[n + 1:]), l[:a] + "[" + t + "=>" + r + "]" + l[b:]
        if re.fullmatch(r"[\w\[\]\.\->() ]+\s*[-+*/]?=[^=].*;", s) and not re.match(r"(TYPE|VALUE|int|float|double|auto|const|static|return)\b", s):
            yield n, "delete", "\n".join(lines[:n] + [";"] + lines[n + 1:]), "DELETE " + s


def related(header):
    res = []
    for l in open(os.path.join(run.HERE, "properties.jsonl")):
        p = json.loads(l)
        if header in p["anchors"]["files"] and p["id"] != "C45":
            res.append(p["id"])
    return res


def attempt(job):
    header, text, ids, mult, where = job
    d = tempfile.mkdtemp(prefix="mutate.")
    try:
        for f in glob.glob("/repo/*.hh"):
            shutil.copy(f, d)
        open(os.path.join(d, header), "w").write(text)
        built = False
        for pid in ids:
            flags = run.meta(pid)[2]
            prog = os.path.join(d, "run." + pid)
            common = [c if c != "-I" + run.REPO else "-I" + d for c in run.COMMON]
            objs = []
            for s in run.sources(pid, "quick"):
                o = os.path.join(d, os.path.basename(s) + ".o")
                r = run.sh(["g++", "-O1", "-ffast-math"] + common + flags + ["-c", s, "-o", o])
                if r.returncode:
                    break
                objs.append(o)
            if r.returncode:
                continue
            r = run.sh(["g++"] + objs + [os.environ["MAIN_O"], "-o", prog])
            if r.returncode:
                continue
            built = True
            out = os.path.join(d, "out." + pid)
            try:
                r = run.sh([prog, "run", "--seed", "5", "--tier", "quick", "--scale", str(mult), "--shard", "0", "--shards", "1", "--out", out, "--hashes", out + ".h", "--ticks", "30"], timeout=300)
            except subprocess.TimeoutExpired:
                return where, "timeout " + pid
            if r.returncode:
                return where, "killed " + pid
        return where, "SURVIVED" if built else "invalid"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(header, text, ids):
    d = tempfile.mkdtemp(prefix="mutate.")
    try:
        for f in glob.glob("/repo/*.hh"):
            shutil.copy(f, d)
        open(os.path.join(d, header), "w").write(text)
        for pid in ids + ["C45"]:
            r = subprocess.run([sys.executable, os.path.join(run.HERE, "run.py"), "check", pid], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=os.path.join(d, "out"), VERIF_SEED="5", VERIF_TIER="quick"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return "%s exit %d" % (pid, r.returncode)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-m", type=float, default=0.05)
    ap.add_argument("-o", default="/dev/stdout")
    ap.add_argument("-j", type=int, default=os.cpu_count())
    ap.add_argument("headers", nargs="+")
    a = ap.parse_args()
    m = tempfile.mkdtemp(prefix="mutate.main.")
    os.environ["MAIN_O"] = os.path.join(m, "main.o")
    r = run.sh(["g++", "-O1"] + run.COMMON + ["-c", os.path.join(run.HERE, "engine", "main.cc"), "-o", os.environ["MAIN_O"]])
    assert r.returncode == 0, r.stdout
    out = open(a.o, "a")
    for h in a.headers:
        ids = related(h)
        text = open("/repo/" + h).read()
        jobs = [(h, t, ids, a.m, "%s:%d %s" % (h, n + 1, w.strip())) for n, _, t, w in mutants(text)]
        if a.n and len(jobs) > a.n:
            jobs = random.Random(1).sample(jobs, a.n)
        count = {}
        with cf.ThreadPoolExecutor(a.j) as ex:
            results = list(ex.map(attempt, jobs))
        for job, (where, res) in zip(jobs, results):
            k = res.split()[0]
            if k == "SURVIVED":
                by = confirm(h, job[1], ids)
                k = "late" if by else k
                out.write("%s %s\n" % ("late: " + by if by else res, where))
                out.flush()
            count[k] = count.get(k, 0) + 1
        out.write("%s %s: %s\n" % (h, ",".join(ids), count))
        out.flush()
    shutil.rmtree(m)


if __name__ == "__main__":
    main()
