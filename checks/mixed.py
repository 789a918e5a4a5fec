"""Memory helpers on element types of which only one special member does something: that member, and no other, decides
whether elements may be handled as bytes.  Part of A02."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *

KINDS = {"D": 0, "C": 1, "A_": 2, "M": 3, "S": 4, "X": 5, "T": None}
NAMES = ["default constructor", "copy constructor", "copy assignment", "move constructor", "move assignment", "destructor"]
# which member of the type each helper's operation calls
OPS = {"ctor": {"D": 0}, "cctor": {"C": 1}, "cassign": {"A_": 2}, "up": {"A_": 2, "S": 4}, "down": {"A_": 2, "S": 4}, "dtor": {"X": 5}}
HELPER = {"ctor": "constructDefaultElements", "cctor": "constructCopyElements", "cassign": "copyElements", "up": "moveElements to the right", "down": "moveElements to the left", "dtor": "destroyElements"}


class MixSpec(ScnSpec):
    unroll = 64

    def handler(self, eng, name, dem):
        h = {"k_did": self.h_did, "k_at": self.h_at}.get(name)
        return h or super().handler(eng, name, dem)

    def h_did(self, eng, st, ins, args, dem):
        st.x["did"] = st.x.get("did", ()) + (tuple(args),)
        return [(st, None)]

    def h_at(self, eng, st, ins, args, dem):
        st.x["at"] = st.x.get("at", ()) + (args[1],)
        return [(st, None)]


def case(ck, sp, kind, op):
    x, y, z = (A(("s", c, "u")) for c in "xyz")
    names = "x" if op in ("ctor", "dtor") else "xyz"

    def pre(eng):
        st = State()
        yield "", st, sp.inputs(eng, st, None, names)

    def post(eng, label, s, v):
        out = []
        at = s.x.get("at", ())
        did = s.x.get("did", ())
        k = OPS[op].get(kind)
        e = lambda b, i: add(at[b], C(8 * i))
        pairs = {"ctor": [(e(0, 1), ZERO), (e(0, 2), ZERO)], "dtor": [(e(0, 1), ZERO), (e(0, 2), ZERO)], "up": [(e(0, 1), e(0, 0)), (e(0, 2), e(0, 1))], "down": [(e(0, 0), e(0, 1)), (e(0, 1), e(0, 2))]}.get(op)
        if pairs is None:
            pairs = [(e(0, 1), e(1, 0)), (e(0, 2), e(1, 1))]
        want = sorted(str((C(k),) + p) for p in pairs) if k is not None else []
        if sorted(str(d) for d in did) != want:
            out.append(("member", "%s of a type whose %s does something calls it %d times, expected %d times, once per element" % (HELPER[op], NAMES[KINDS[kind]] if KINDS[kind] is not None else "no member", len([d for d in did if k is None or d[0] == C(k)]), len(want))))
        got = [w[1] for w in s.x.get("saw", ())]
        exp = {"ctor": [x, C(5), C(5)] if kind == "D" else [x, None, None], "dtor": [x, None, None], "cctor": [z, x, y, x, y], "cassign": [z, x, y, x, y], "up": [x, x, y], "down": [y, z, z]}[op]
        if len(got) != len(exp):
            raise Incomplete("observations missing")
        for i, (g, w) in enumerate(zip(got, exp)):
            if w is not None and g != w:
                if isinstance(g, Undef) or not isinstance(g, Lin):
                    raise Incomplete("value unknown")
                out.append(("value", "%s: value %d is %s, expected %s" % (HELPER[op], i, show(g), show(w))))
        return out
    ck.obligation("%s of a type with its own %s" % (HELPER[op], NAMES[KINDS[kind]] if KINDS[kind] is not None else "nothing"), sp, "s_%s_%s" % (kind, op), pre, post)


def run(rep):
    ck = Checker("A02", "mixed.cpp", link=("hal",))
    ck.rep = rep
    sp = MixSpec(ck.m)
    for kind in KINDS:
        for op in OPS:
            case(ck, sp, kind, op)


if __name__ == "__main__":
    r = Report("A02")
    run(r)
    for o in r.obl:
        print(o)
    for v in r.viol:
        print(v)
