"""catch.py [-j N]: for every planted bug, run the check of its property on a scratch copy with the bug; writes tools/catch.json and the table in DESIGN.md"""
import os, sys, json, subprocess, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
man = {c.get("property") or c["id"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = V + "/tools/catch.json"
old = json.load(open(out)) if os.path.exists(out) else {}


def one(s):
    d = V + "/seeded/" + s
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/catch/" + s
    subprocess.run(["mkdir", "-p", w])
    subprocess.run(["cp", "-a", "/repo/src", w])
    try:
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-s", "-d", w, "-i", d + "/patch.diff"], capture_output=True, text=True)
            if r.returncode:
                return s, meta, "does not apply", ""
        c = man[meta["property"]]["quick_cmd"] if "quick_cmd" in man[meta["property"]] else man[meta["property"]]["quick"]
        r = subprocess.run(c, shell=True, cwd=V, capture_output=True, text=True, env=dict(os.environ, KORIN_REPO=w, KA_NOEVID="1"))
        first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("  ")), "")
        return s, meta, {0: "missed", 1: "caught", 2: "broken"}.get(r.returncode, str(r.returncode)), first
    finally:
        subprocess.run(["rm", "-rf", w])


ids = sorted(os.listdir(V + "/seeded"))
todo = [s for s in ids if "-a" in sys.argv or s not in old or old[s][0] != "caught"]
with ThreadPoolExecutor(J) as ex:
    for s, meta, res, first in ex.map(one, todo):
        old[s] = [res, re.sub(r" \[pre-state.*", "", re.sub(r"\S*tmp/catch/\S*?/src/", "src/", first))[:170]]
        print(s, res, first[:120], flush=True)
old = {k: v for k, v in old.items() if k in ids}
json.dump(old, open(out, "w"), indent=0, sort_keys=True)
rows = ["| bug | what it breaks | needs | own check | first report |", "|---|---|---|---|---|"]
for s in ids:
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    f = lambda x: str(x).replace("|", "\\|").replace("\n", " ")[:160]
    rows.append("| %s | %s | %s | %s %s | %s |" % (s, f(m["what_it_breaks"]), f(m["needs"]), m["property"], old[s][0], f(old[s][1])))
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a in t:
    t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
    open(V + "/DESIGN.md", "w").write(t)
