"""mut.py <check.py>[:ID,ID..] <header> <mutations-file>
apply each mutation to a scratch copy of /repo and run the checks on it.
Mutations are separated by lines of ====; each is `old`, a line ---, `new`; a leading `@N ` picks the Nth occurrence (from 0)."""
import sys, os, subprocess
check, f = sys.argv[1:3]
check, _, ids = check.partition(":")
ids = ids.split(",") if ids else [""]
muts = open(sys.argv[3]).read().split("\n====\n")
R = "/tmp/mt/%d" % os.getpid()
os.makedirs("/tmp/mt", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", R])
p = R + "/src/korin/core/public/" + f if not f.startswith("src") else R + "/" + f
orig = open(p).read()
try:
    for m in muts:
        if not m.strip():
            continue
        a, b = m.split("\n---\n") if "\n---\n" in m else (m.rstrip("\n").removesuffix("\n---"), "")
        a, b = a.strip("\n"), b.strip("\n")
        idx = 0
        if a.startswith("@"):
            n, a = a[1:].split(" ", 1)
            idx = int(n)
        parts = orig.split(a)
        if len(parts) < idx + 2:
            print("NOMATCH", a[:60])
            continue
        s = a.join(parts[:idx + 1]) + b + a.join(parts[idx + 1:])
        open(p, "w").write(s)
        tags, lines = [], []
        for i in ids:
            r = subprocess.run(["python3", check] + ([i] if i else []), cwd="/verif", env={**os.environ, "KORIN_REPO": R, "KA_NOEVID": "1"}, capture_output=True, text=True)
            tags.append((i + ":" if i else "") + {0: "quiet", 1: "CAUGHT", 2: "BROKEN"}.get(r.returncode, str(r.returncode)))
            lines += [l for l in r.stdout.splitlines() if l.startswith("  ") or l.startswith("UNDEC") or "BROKEN" in l][:3]
            if r.stderr:
                lines.append(r.stderr[-400:])
            if r.returncode and os.environ.get("MUT_FIRST"):
                break
        print(" ".join(tags), "|", a.replace("\n", " ").replace("\t", "")[:60], "->", b.replace("\n", " ").replace("\t", "")[:60], flush=True)
        for l in lines[:4]:
            print("      ", l[:200])
finally:
    subprocess.run(["rm", "-rf", R])
