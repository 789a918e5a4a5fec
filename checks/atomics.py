"""templates/atomic.h and the platform atomics: each operation is one indivisible access."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.common import *

SH = ("R", -1, "shared")
ORD = {"unordered": 0, "monotonic": 1, "acquire": 2, "release": 2, "acq_rel": 3, "seq_cst": 4}
TYPES = {"u64": 1, "i64": 1, "u32": 1, "i32": 1, "u16": 1, "u8": 1, "p8": 8, "p1": 1, "p24": 24, "pc4": 4}


class Spec_(KSpec):
    def watch(self, st, p):
        return isinstance(p, Lin) and self.base(st, p) == SH


def run(ck, sp):
    v = A(("s", "v", "i"))

    def ob(n, t, args, new, ret, order):
        w = {"p": 8, "u64": 8, "i64": 8, "u32": 4, "i32": 4, "u16": 2, "u8": 1}[t[0] if t[0] == "p" else t]
        old = A(("s", "old", "p" if t[0] == "p" else "i" if t[0] == "i" else "u"))
        val = A(("s", "v", "i" if t[0] in "pi" else "u")) if "v" in args else None

        def pre(eng):
            st = State()
            st.mem[SH] = Region("input", C(w), {"name": "shared"})
            st.mem[SH].cells[0] = (w, old)
            a = [A(SH)]
            for x in args:
                a.append(val if x == "v" else C(ck.m.K[x]))
            yield "", st, a

        def same(s, a, b):
            if isinstance(a, Undef):
                return False
            return a == b or s.facts.zero(sub(a, b)) or fold(a, w) == fold(b, w)

        def post(eng, label, s, r):
            out = []
            acc = [e for e in s.events if e[0] in ("aload", "astore", "rmw", "cas", "plain") and sp.watch(s, e[2] if e[0] == "plain" else e[1])]
            if any(e[0] == "cas" for e in acc):
                raise Incomplete("compare and swap loop")
            acc = [e for e in acc if not (e[0] == "aload" and e[2] is None)]
            want_new, want_ret = new(old, val), ret(old, val)
            if n == "ctor":
                acc = []
            else:
                if len(acc) != 1:
                    out.append(("indivisible", "%d accesses to the shared value: %s" % (len(acc), ", ".join("%s at %s" % (e[0], e[-1]) for e in acc))))
                for e in acc:
                    if e[0] == "plain":
                        out.append(("atomicity", "the shared value is %s without an atomic access at %s" % ("read" if e[1] == "load" else "written", e[-1])))
                    else:
                        o = e[4] if e[0] == "rmw" else e[-2]
                        if ORD.get(o, 0) < order:
                            out.append(("ordering", "the access at %s is only %s" % (e[-1], o)))
            c = s.mem[SH].cells.get(0)
            if c is None:
                raise Incomplete("shared cell")
            if not same(s, c[1], want_new):
                out.append(("value", "the shared value becomes %s, expected %s" % (T.show(c[1]), T.show(want_new))))
            if want_ret is not None and not same(s, r, want_ret):
                out.append(("result", "returns %s, expected %s" % (r if isinstance(r, Undef) else T.show(r), T.show(want_ret))))
            return out
        ck.obligation("%s[%s]" % (n + "".join("-" + x for x in args if len(x) > 1), t), sp, ("a_" if not n.startswith("p_") else "") + n + "_" + t, pre, post)

    keep = lambda o, x: o
    for t, k in TYPES.items():
        up = lambda o, x, k=k: add(o, scale(x, k))
        dn = lambda o, x, k=k: sub(o, scale(x, k))
        one = lambda s, k=k: (lambda o, x: add(o, C(s * k)))
        setv, none = (lambda o, x: x), (lambda o, x: None)
        SEQ, RLX = 4, 1
        for n, args, order in (("load", "", SEQ), ("loadOrd", ["seq"], SEQ), ("loadOrd", ["rlx"], RLX), ("conv", "", SEQ), ("p_read", "", SEQ), ("p_readRlx", "", RLX)):
            ob(n, t, args, keep, keep, order)
        for n, args, order in (("store", "v", SEQ), ("storeOrd", ["v", "seq"], SEQ), ("storeOrd", ["v", "rlx"], RLX), ("p_store", "v", SEQ), ("p_storeRlx", "v", RLX)):
            ob(n, t, args, setv, none, order)
        ob("assign", t, "v", setv, setv, SEQ)
        ob("ctor", t, "v", setv, none, SEQ)
        ob("preInc", t, "", one(1), one(1), SEQ)
        ob("postInc", t, "", one(1), keep, SEQ)
        ob("preDec", t, "", one(-1), one(-1), SEQ)
        ob("postDec", t, "", one(-1), keep, SEQ)
        ob("add", t, "v", up, up, SEQ)
        ob("sub", t, "v", dn, dn, SEQ)
        ob("p_add", t, "v", up, keep, SEQ)
        ob("p_sub", t, "v", dn, keep, SEQ)
        ob("p_exchange", t, "v", setv, keep, 2)


def fold(x, w):
    """x modulo 2^(8w): conversions between wider types do not matter, coefficients are taken modulo"""
    m = 1 << (8 * w)
    acc = {}
    c = 0
    todo = [(x, 1)]
    while todo:
        l, k = todo.pop()
        c += l.c * k
        for i, q in l.t:
            a = atom(i)
            if a[0] == "op" and a[1] == "trunc" and a[2] >= 8 * w and isinstance(a[3], Lin):
                todo.append((a[3], q * k))
            elif a[0] == "op" and a[1] in ("zext", "sext") and isinstance(a[3], Lin) and a[4].const and a[4].c >= 8 * w:
                todo.append((a[3], q * k))
            else:
                acc[i] = acc.get(i, 0) + q * k
    return c % m, frozenset((i, q % m) for i, q in acc.items() if q % m)


def main():
    ck = Checker("C01", "atomic.cpp")
    run(ck, Spec_(ck.m))
    ck.rep.rule("Every operation makes exactly one access to the shared value, that access is atomic with at least the requested ordering, the value it leaves and the value it returns are "
                "functions of what that one access saw, and pointers move by whole elements.")
    finish(ck.rep, 100)


if __name__ == "__main__":
    main()
