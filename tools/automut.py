#!/usr/bin/env python3
"""automut.py OUT FILE... : every small textual mutation of the given source files that still compiles, run against the checks that look at them; survivors are listed."""
import os, re, subprocess, sys, random
from concurrent.futures import ThreadPoolExecutor
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PUB = "src/korin/core/public/"
CH = {"L": "list.py L01", "T": "tree.py T01|tree.py T02|tree.py T03", "S": "set.py S01|set.py S02", "M": "map.py M01", "A": "array.py A02|array.py A01", "R": "strings.py R01|strings.py R02",
      "V": "value.py V01|value.py V02|holders.py V03", "C": "atomics.py C01", "X": "typefacts.py X01", "P": "alloc.py P01|alloc.py P02|alloc.py P03", "N": "mathlib.py N01|mathlib.py N02|mathlib.py N03|mathlib.py N04",
      "E": "automata.py E01|automata.py E03|automata.py E04|automata.py E02", "Q": "sorting.py Q01", "G": "moves.py G01"}
MAP = [("containers/list", "LG"), ("containers/tree", "TGSM"), ("containers/set", "SG"), ("containers/map", "MG"), ("containers/array", "GA"), ("containers/string", "R"), ("containers/pair", "MV"), ("containers/tuple", "V"),
       ("malloc", "PL"), ("platform_memory", "ALR"), ("platform_strings", "R"), ("memory_base", "P"), ("regex", "E"), ("math", "N"), ("simd", "N"), ("atomic", "C"), ("types.h", "XA"), ("utility", "XVQ"), ("enable_if", "X"),
       ("templates/function", "V"), ("templates/optional", "V"), ("templates/array", "VA"), ("templates/name", "V"), ("type_info", "V"), ("sort", "Q"), ("iterator", "AQ")]
REPL = [(r"(?<![<>=!\-+*/&|^])<(?![<=])(?=\s)", ["<=", ">"]), (r"(?<=\s)>(?![>=])(?=\s)", [">=", "<"]), (r"<=", ["<", ">="]), (r"(?<![>\-])>=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&(?=\s)", ["||"]), (r"\|\|", ["&&"]),
        (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s\w)", ["+"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\*=", ["/="]), (r"/=", ["*="]),
        (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bnullptr\b", ["this"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bnext\b", ["prev"]),
        (r"\bprev\b", ["next"]), (r"\bfirst\b", ["second"]), (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\bbegin\b", ["end"]), (r"\bend\b", ["begin"]), (r"\.x\b", [".y"]), (r"\.y\b", [".z", ".x"]), (r"\.z\b", [".x"]), (r"\.w\b", [".x"]),
        (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"!(?=[\w(])", [""]), (r"<<(?=\s\w)", [">>"]), (r">>(?=\s\w)", ["<<"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"\bcount\b", ["size"]), (r"\bsize\b", ["count"]),
        (r"\bother\b", ["(*this)"]), (r"\bmove\((\w+)\)", [r"\1"]), (r"\bforward<\w+>\((\w+)\)", [r"\1"]), (r"\bcontinue\b", ["break"]), (r"\bbreak;", [";"]), (r"\bif \((?!.*constexpr)", ["if (!!!("])]


def mutants(text):
    lines = text.split("\n")
    com = False
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            com = True
        if com:
            if "*/" in s:
                com = False
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("template") or not s or s.startswith("static_assert"):
            continue
        code = re.sub(r"//.*", "", l)
        for rx, outs in REPL:
            for m in re.finditer(rx, code):
                for o in outs:
                    n = code[:m.start()] + m.expand(o) + code[m.end():]
                    if rx.startswith(r"\bif"):
                        k = code.find("(", m.start())
                        d = 0
                        for e in range(k, len(code)):
                            d += code[e] == "("
                            d -= code[e] == ")"
                            if d == 0:
                                break
                        else:
                            continue
                        n = code[:k] + "(!(" + code[k + 1:e] + "))" + code[e + 1:]
                    if n != code:
                        yield i, n
        if re.match(r"^\s+[^{}]*;\s*$", code) and not re.match(r"^\s*(return|using|typedef|static|const|friend|template|struct|class|enum|break|continue|T \w+|\w+ \w+;|auto)\b", code):
            yield i, re.match(r"^\s*", code).group(0) + ";"
        if re.match(r"^\s+return .*;\s*$", code) and i and re.match(r"^\s+(if|else)", lines[i - 1]):
            yield i, re.match(r"^\s*", code).group(0) + ";"


tl = threading.local()
lock = threading.Lock()
done = [0, 0, 0]


def work(job):
    f, i, new, text, checks = job
    if not hasattr(tl, "d"):
        tl.d = "/tmp/am/%d" % threading.get_ident()
        os.makedirs(tl.d)
        subprocess.run("cp -a /repo/src /repo/.git %s/ 2>/dev/null || cp -a /repo/src %s/" % (tl.d, tl.d), shell=True)
    p = os.path.join(tl.d, f)
    lines = text.split("\n")
    old = lines[i]
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    res = []
    try:
        for c in checks:
            r = subprocess.run(["timeout", "300", "python3"] + ["checks/" + c.split()[0]] + c.split()[1:], cwd=HERE, env={**os.environ, "KORIN_REPO": tl.d, "KA_NOEVID": "1"}, capture_output=True, text=True)
            res.append((c.split()[-1], r.returncode))
            if r.returncode == 1 or (r.returncode == 2):
                break
            u = [l for l in r.stdout.splitlines() if l.startswith("UNDEC")]
            if u:
                res.append("%d undecided: %s" % (len(u), u[0][10:160]))
    finally:
        open(p, "w").write(text)
    with lock:
        done[0] += 1
        last = res[-1] if isinstance(res[-1], tuple) else res[-2]
        if last[1] == 1:
            done[1] += 1
        elif last[1] == 2:
            done[2] += 1
        else:
            out.write("%s:%d\n  - %s\n  + %s\n  %s\n" % (f, i + 1, old.strip(), new.strip(), [r for r in res if isinstance(r, str) or r[1]]))
            out.flush()


out = open(sys.argv[1], "w")
jobs = []
for f in sys.argv[2:]:
    f = f if f.startswith("src") else PUB + f
    text = open("/repo/" + f).read()
    key = next((v for k, v in MAP if k in f.split("core/")[1]), None)
    if key is None:
        print("no checks for", f)
        continue
    checks = [c for k in key for c in CH[k].split("|")]
    for i, new in mutants(text):
        jobs.append((f, i, new, text, checks))
lim = int(os.environ.get("LIMIT", "100000"))
random.seed(1)
if len(jobs) > lim:
    jobs = random.sample(jobs, lim)
print(len(jobs), "mutants", flush=True)
subprocess.run(["rm", "-rf", "/tmp/am"])
os.makedirs("/tmp/am")
with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
    for r in ex.map(work, jobs):
        pass
out.write("total %d caught %d ill-formed %d survived %d\n" % (done[0], done[1], done[2], done[0] - done[1] - done[2]))
out.close()
subprocess.run(["rm", "-rf", "/tmp/am"])
