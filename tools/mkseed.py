#!/usr/bin/env python3
"""mkseed.py <spec.py>: plant bugs in a scratch copy, confirm them, keep them under seeded/.
spec.py defines SEEDS = [dict(id, property, file, edits=[(old,new[,n])], demo=<C++ body of main>, pre=<C++ before main>, needs, breaks)]"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# builds and runs the demonstration against the sources in the current directory
d=$(dirname "$(readlink -f "$0")")
w=$(mktemp -d /tmp/korin-demo-XXXXXX)
g++ -std=c++17 -g -O0 -w -mavx2 -DBUILD_DEBUG -DPLATFORM_LINUX=1 -I src/korin/core/public "$d/demo.cpp" \
  src/korin/core/private/hal/*.cpp src/korin/core/private/math/*.cpp src/korin/core/private/regex/*.cpp -lm -o "$w/demo"
rc=$?
if [ $rc -eq 0 ]; then timeout 60 "$w/demo"; rc=$?; fi
rm -rf "$w"
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    for s in g["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh("rm -rf " + R)
        sh("git -C /repo worktree prune; cp -a /repo " + R)
        edits = s["edits"]
        for e in edits:
            f, old, new = e[0], e[1], e[2]
            n = e[3] if len(e) > 3 else None
            p = os.path.join(R, f if f.startswith("src") else "src/korin/core/public/" + f)
            t = open(p).read()
            parts = t.split(old)
            if len(parts) < 2 or (n is None and len(parts) != 2):
                print(s["id"], "EDIT DOES NOT MATCH ONCE", len(parts) - 1, old[:60])
                break
            i = n or 0
            t = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
            open(p, "w").write(t)
        else:
            d = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            diff = sh("git -C %s diff" % R).stdout
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.cpp", "w").write(s.get("pre", "") + "\nint main()\n{\n" + s["demo"] + "\n\treturn 0;\n}\n")
            open(d + "/demo.sh", "w").write(DEMO.replace("-lm -o", s.get("flags", "") + " -lm -o"))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % d, cwd="/repo")
            b = sh("bash %s/demo.sh" % d, cwd=R)
            # the build of the copy happens with /repo's build script on a temporary swap
            ap = sh("git -C /repo apply --check %s/patch.diff" % d)
            t = "?"
            if os.environ.get("NOTEST") is None and ap.returncode == 0:
                sh("git -C /repo apply %s/patch.diff" % d)
                x = sh("bash /opt/vp/build.sh")
                y = sh("bash /opt/vp/test.sh /tmp/seedout.json")
                sh("git -C /repo checkout -- .")
                try:
                    j = json.load(open("/tmp/seedout.json"))
                    t = "build %d passed %s failed %s" % (x.returncode, len(j["passed"]), len(j["failed"]))
                except Exception as ex:
                    t = "build %d tests ? %s" % (x.returncode, ex)
                # does the property's check see it?
            c = sh("python3 checks/%s %s" % (check_of(s["property"]), s["property"]), cwd=HERE, env={**os.environ, "KORIN_REPO": R})
            print("%-10s clean=%d bug=%d apply=%d tests[%s] check=%s" % (s["id"], a.returncode, b.returncode, ap.returncode, t,
                  {0: "MISSED", 1: "caught", 2: "BROKEN"}.get(c.returncode, c.returncode)))
            if a.returncode:
                print((a.stdout + a.stderr)[-600:])
            if c.returncode == 1:
                print("    ", [l for l in c.stdout.splitlines() if l.startswith("  ")][:1])
    sh("rm -rf " + R)
    sh("bash /opt/vp/build.sh")


def check_of(pid):
    m = json.load(open(HERE + "/MANIFEST.json"))
    for c in m["checks"]:
        if c["property"] == pid:
            return c["quick_cmd"].split("checks/")[1].split()[0]
    return "none"


main()
