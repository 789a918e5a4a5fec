"""Type level facts, decided by clang's type checker over witness/traits.cpp."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.common import *


def main():
    rep = Report("X01")
    src = os.path.join(VERIF, "witness/traits.cpp")
    flags = [f for f in CXXFLAGS if not f.startswith("-g") and f not in ("-Xclang", "-disable-O0-optnone", "-fno-access-control")]
    pp = subprocess.run(["clang++"] + flags + ["-E", "-P", src], capture_output=True, text=True)
    names = re.findall(r'"WANT " (?:"[^"]*"\s*)+', pp.stdout)
    names = ["".join(re.findall(r'"([^"]*)"', n))[5:] for n in names]
    r = subprocess.run(["clang++"] + flags + ["-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", src], capture_output=True, text=True)
    bad, other = {}, []
    for l in r.stderr.splitlines():
        m = re.match(r"(\S+:\d+):\d+: error: (.*)", l)
        if not m:
            continue
        w = re.search(r"static assertion failed.*: WANT (.*)", m.group(2))
        if w:
            bad[w.group(1)] = m.group(1)
        else:
            other.append(l)
    if pp.returncode or not names or (other and not bad):
        print("ANALYSIS-BROKEN property=X01: " + "\n".join(other[:3] or [pp.stderr[-500:]]))
        sys.exit(2)
    for n in dict.fromkeys(names):
        if n in bad:
            rep.failed(n)
            rep.violation(n, "type-fact", "the type level fact does not hold (%s)" % bad.pop(n))
        else:
            rep.ok(n)
    for n, w in bad.items():
        rep.violation(n, "type-fact", "the type level fact does not hold (%s)" % w)
    rep.functions.add("templates/types.h, templates/enable_if.h, templates/utility.h, templates/atomic.h, generic/generic_platform.h")
    rep.rule("Each obligation is a static_assert in a witness translation unit that compares korin's trait with the language's own definition (<type_traits>) for one type.")
    finish(rep, 1500)


main()
