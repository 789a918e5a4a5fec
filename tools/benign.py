"""benign.py <file...>: applies each behaviour preserving edit to a scratch copy of /repo and runs the checks; every check has to stay quiet.
Each edit: a line `# name | header | ID,ID`, then pairs `old` / --- / `new` separated by ====; edits are separated by lines of %%%%."""
import os, sys, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
only = os.environ.get("BENIGN")
for fn in sys.argv[1:]:
    for e in open(fn).read().split("\n%%%%\n"):
        if not e.strip():
            continue
        head, body = e.lstrip("\n").split("\n", 1)
        name, f, ids = [x.strip() for x in head[1:].split("|")]
        if only and only not in name:
            continue
        w = "/tmp/bn/%d" % os.getpid()
        subprocess.run(["mkdir", "-p", w])
        subprocess.run(["cp", "-a", "/repo/src", w])
        p = w + "/src/korin/core/" + f
        s = open(p).read()
        ok = True
        for pair in body.split("\n====\n"):
            a, b = pair.split("\n---\n") if "\n---\n" in pair else (pair.rsplit("\n---", 1)[0], "")
            a, b = a.strip("\n"), b.strip("\n")
            if s.count(a) < 1:
                print(name, "NOMATCH", a[:80])
                ok = False
                break
            s = s.replace(a, b, 1)
        if ok:
            open(p, "w").write(s)
            r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-mavx2", "-DPLATFORM_LINUX=1", "-DBUILD_DEBUG", "-I", w + "/src/korin/core/public", "-x", "c++", "-w", p], capture_output=True, text=True)
            if r.returncode:
                print(name, "does not compile", r.stderr[:300])
                ok = False
        if ok:
            out = []
            for i in ids.split(","):
                try:
                    r = subprocess.run(man[i]["quick_cmd"] if "quick_cmd" in man[i] else man[i]["quick"], shell=True, cwd=V, capture_output=True, text=True, timeout=900, env=dict(os.environ, KORIN_REPO=w, KA_NOEVID="1"))
                    line = next((l for l in r.stdout.splitlines() if "obligations" in l), "")
                    out.append("%s:%s %s" % (i, {0: "ok", 1: "ALARM", 2: "BROKEN"}.get(r.returncode, r.returncode), "" if " 0 undecided" in line else line.split(":")[-1][:60]))
                    if r.returncode:
                        out.append("\n      " + "\n      ".join(r.stdout.splitlines()[:6])[:900])
                except subprocess.TimeoutExpired:
                    out.append("%s:TIMEOUT" % i)
            print(name, "|", "; ".join(out), flush=True)
        subprocess.run(["rm", "-rf", w])
