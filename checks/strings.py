"""containers/string.h and the platform string helpers, for any length, content and position."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.arr import *
from ka.text import *

S = lambda n, k="u": A(("s", n, k))


class StrSpec(TextSpec, ArrSpec):
    max_recursion = 3
    """strings are arrays of n + 1 characters, the last of which is the terminator"""

    def __init__(self, mod):
        ArrSpec.__init__(self, mod, True)
        off = self.K["string"]
        self.K = dict(self.K)
        for f in ("buffer", "count", "capacity", "malloc"):
            self.K[f] += off
        self.K["arrsz"] = self.K["strsz"]

    def handler(self, eng, name, dem):
        return TextSpec.handler(self, eng, name, dem) or ArrSpec.handler(self, eng, name, dem)

    def new_str(self, eng, st, name, cstr=False, m=None):
        K = self.K
        m = m or self.mallocobj(eng, st, "M" + name)
        a = eng.new_region(st, "input", C(K["strsz"]), {"name": name})
        r = st.mem[a]
        ln, cap = S("len" + name), S("cap" + name)
        n = add(ln, ONE)
        info = {"name": "buf" + name, "seq": 1, "triv": True, "live": n, "owner": A(m), "term": ln}
        if cstr:
            info["cstr"] = ln
        b = eng.new_region(st, "input", cap, info)
        r.cells[K["malloc"]] = (8, A(m))
        r.cells[K["buffer"]], r.cells[K["capacity"]], r.cells[K["count"]] = (8, A(b)), (8, cap), (8, n)
        st.facts = st.facts.with_ge(sub(cap, n))
        st.x["arr" + name] = {"a": a, "buf": b, "len": ln, "n": n, "cap": cap, "m": A(m)}
        return a

    def cstr(self, eng, st, name, nul=True):
        ln = S("len" + name)
        info = {"name": name, "seq": 1, "triv": True, "term": ln}
        n = ln
        if nul:
            n = add(ln, ONE)
            info["cstr"] = ln
        else:
            del info["term"]
        info["live"] = n
        b = eng.new_region(st, "input", n, info)
        st.x["arr" + name] = {"a": None, "buf": b, "len": ln, "n": n}
        return b


class SJ(Judge):
    def same(self, f, l, want):
        if callable(want):
            return want(f, l)
        return super().same(f, l, want)

    def string(self, a, length, pieces, M):
        """object at a is a terminated string of that length, described by pieces [(end, position -> leaf)]"""
        n = add(length, ONE)
        return self.array(a, n, [p for p in pieces] + [(n, lambda j: ("val", ZERO))], M)

    def kept(self, nm):
        d = self.s.x["arr" + nm]
        if d["a"] is None:
            b = d["buf"]
            self.slots(b, ZERO, d["len"], lambda j: ("init", b, j), "source " + nm)
            return None
        b = self.string(d["a"], d["len"], [(d["len"], lambda j: ("init", d["buf"], j))], d["m"])
        if b != d["buf"]:
            self.bad("buffer", "the string %s lost its buffer" % nm)
        return b


def sjudge(sp, s, post):
    try:
        j = SJ(sp, s)
        post(j)
    except Alarm as e:
        return [("partial-element", str(e))]
    if j.q.unknown and not j.out:
        raise Incomplete("content not determined")
    return j.out


class Suite:
    def __init__(self, ck):
        self.ck = ck
        self.sp = StrSpec(ck.m)

    def ob(self, name, fn, pre, post):
        def p(eng, label, s, v):
            return sjudge(self.sp, s, lambda j: post(j, s, v, label))
        self.ck.obligation(name, self.sp, fn, pre, p)

    def pre(self, build, facts=(), new=False, cases=("",)):
        """build(eng, st, new) -> args"""
        sp = self.sp

        def f(eng):
            for c in cases:
                st = State()
                gm = sp.gmalloc(eng, st)
                st.x["gm"] = A(gm)
                a = None
                if new:
                    a = sp.rawobj(eng, st, "new", sp.K["strsz"])
                    st.x["new"] = a
                args = build(eng, st, a, c) if len(cases) > 1 else build(eng, st, a)
                st.facts = st.facts.with_ge(*facts)
                yield c, st, args
        return f


def orig(d, sh=ZERO):
    return lambda j: ("init", d["buf"], add(j, sh))


def text(k, sh=ZERO):
    b = ("R", -100 - k, "text%d" % k)
    return lambda j: ("init", b, add(j, sh))


def editing(ck):
    su = Suite(ck)
    sp, ob, pre = su.sp, su.ob, su.pre
    n, cap, c, idx, pos, cnt = S("n"), S("cap"), S("c", "i"), S("idx"), S("pos"), S("cnt")
    X = lambda s, nm="X": s.x["arr" + nm]
    L = lambda s: s.x["arrL"]
    full = lambda d: [(d["len"], orig(d))]

    def made(j, s, length, pieces, others="", M="gm"):
        b = j.string(s.x["new"], length, pieces, s.x["gm"] if M == "gm" else M)
        kept = {j.kept(o) for o in others}
        if b in kept:
            j.bad("aliasing", "the new string shares the buffer of its source")
        j.leaks(kept | {b})
        return b

    # ---- construction
    ob("ctor", "w_ctor", pre(lambda e, st, a: [A(a)], new=True), lambda j, s, v, l: made(j, s, ZERO, []))

    def capctor(j, s, v, l):
        made(j, s, ZERO, [])
        k = j.field(s.x["new"], "capacity")
        if isinstance(k, Lin) and not s.facts.entails(sub(k, n)):
            j.bad("capacity", "capacity is %s, room for %s characters was asked for" % (T.show(k), T.show(n)))
    ob("ctor[capacity]", "w_ctorCap", pre(lambda e, st, a: [A(a), n], new=True), capctor)
    ob("ctor[fill]", "w_ctorFill", pre(lambda e, st, a: [A(a), n, c], new=True), lambda j, s, v, l: made(j, s, n, [(n, lambda j_: ("val", c))]))
    ob("ctor[buffer]", "w_ctorBuf", pre(lambda e, st, a: [A(a), A(sp.cstr(e, st, "X", nul=False)), S("lenX")], new=True),
       lambda j, s, v, l: made(j, s, X(s)["len"], full(X(s)), "X"))
    ob("ctor[C string]", "w_ctorC", pre(lambda e, st, a: [A(a), A(sp.cstr(e, st, "X"))], new=True),
       lambda j, s, v, l: made(j, s, X(s)["len"], full(X(s)), "X"))

    def namearg(e, st, a):
        b = sp.cstr(e, st, "X", nul=False)
        nm = e.new_region(st, "input", C(16), {"name": "name"})
        st.mem[nm].cells[sp.K["nbuf"]] = (8, A(b))
        st.mem[nm].cells[sp.K["nlen"]] = (8, S("lenX"))
        return [A(a), A(nm)]
    ob("ctor[name]", "w_ctorName", pre(namearg, new=True), lambda j, s, v, l: made(j, s, X(s)["len"], full(X(s)), "X"))
    for w, fn in (("copy", "w_ctorCopy"), ("move", "w_ctorMove")):
        def post(j, s, v, l, w=w):
            if w == "copy":
                return made(j, s, X(s)["len"], full(X(s)), "X")
            # moving may either copy or take the buffer over
            b = j.string(s.x["new"], X(s)["len"], full(X(s)), None)
            o = j.field(X(s)["a"], "buffer")
            j.leaks({b} | ({X(s)["buf"]} if o == A(X(s)["buf"]) and b != X(s)["buf"] else set()))
        ob("ctor[%s]" % w, fn, pre(lambda e, st, a: [A(a), A(sp.new_str(e, st, "X"))], new=True), post)

    def slack(j, s, v, l):
        made(j, s, X(s)["len"], full(X(s)), "X")
        k = j.field(s.x["new"], "capacity")
        if isinstance(k, Lin) and not s.facts.entails(sub(k, add(X(s)["n"], cnt))):
            j.bad("capacity", "capacity is %s, slack for %s more characters was asked for" % (T.show(k), T.show(cnt)))
    ob("ctor[slack]", "w_ctorSlack", pre(lambda e, st, a: [A(a), A(sp.new_str(e, st, "X")), cnt], new=True), slack)
    ob("destructor", "w_dtor", pre(lambda e, st, a: [A(sp.new_str(e, st, "L"))]), lambda j, s, v, l: j.leaks(()))

    # ---- in place
    def changed(j, s, v, length, pieces, others="", M="own"):
        d = L(s)
        b = j.string(d["a"], length, pieces, d["m"] if M == "own" else None)
        if v is not None and v != A(d["a"]):
            j.bad("result", "the operation does not return the string itself")
        kept = {j.kept(o) for o in others}
        if b in kept:
            j.bad("aliasing", "two strings share one buffer")
        j.leaks(kept | {b})

    two = lambda e, st, a: [A(sp.new_str(e, st, "L")), A(sp.new_str(e, st, "X"))]
    ob("copy assignment", "w_assign", pre(two), lambda j, s, v, l: changed(j, s, v, X(s)["len"], full(X(s)), "X"))

    def selfarg(e, st, a):
        x = sp.new_str(e, st, "L")
        return [A(x), A(x)]
    ob("copy assignment[self]", "w_assign", pre(selfarg), lambda j, s, v, l: changed(j, s, v, L(s)["len"], full(L(s))))

    def massign(j, s, v, l):
        d = L(s)
        b = j.string(d["a"], X(s)["len"], full(X(s)), None)
        if v != A(d["a"]):
            j.bad("result", "assignment does not return the string itself")
        o = j.field(X(s)["a"], "buffer")
        j.leaks({b} | ({X(s)["buf"]} if o == A(X(s)["buf"]) and b != X(s)["buf"] else set()))
    ob("move assignment", "w_assignMove", pre(two), massign)
    lc = lambda e, st, a: [A(sp.new_str(e, st, "L")), A(sp.cstr(e, st, "X"))]
    ob("assignment[C string]", "w_assignC", pre(lc), lambda j, s, v, l: changed(j, s, v, X(s)["len"], full(X(s)), "X", M=None))

    def appended(j, s, v, l, d2=None, sh=ZERO, ln=None, others="X"):
        d = L(s)
        d2 = d2 or X(s)
        ln = ln if ln is not None else d2["len"]
        t = add(d["len"], ln)
        changed(j, s, v, t, full(d) + [(t, orig(d2, sub(sh, d["len"])))], others)
    ob("append[C string]", "w_addC", pre(lc), appended)
    ob("append[string]", "w_addStr", pre(two), appended)
    ob("append[itself]", "w_addStr", pre(selfarg), lambda j, s, v, l: appended(j, s, v, l, L(s), others=""))

    def owntail(e, st, a):
        x = sp.new_str(e, st, "L", cstr=True)
        return [A(x), add(A(L(st)["buf"]), pos)]
    ob("append[own tail]", "w_addC", pre(owntail, (sub(S("lenL"), pos),)),
       lambda j, s, v, l: appended(j, s, v, l, L(s), pos, sub(L(s)["len"], pos), others=""))

    def addchar(j, s, v, l):
        d = L(s)
        t = add(d["len"], ONE)
        changed(j, s, v, t, full(d) + [(t, lambda j_: ("val", c))])
    ob("append[character]", "w_addChar", pre(lambda e, st, a: [A(sp.new_str(e, st, "L")), c]), addchar)

    NUM = {"I32": ("d", "i"), "I64": ("lld", "ld", "i"), "U32": ("u", "i"), "U64": ("llu", "lu", "i"), "F32": ("f", "f"), "F64": ("f", "lf", "f")}

    def numval(w):
        return fatom(("s", "num", "f")) if w[0] == "F" else S("num", "u" if w[0] == "U" else "i")

    def printed(j, s, w):
        """the text that was printed is the number, in the conversion for its type"""
        ks = [e for e in s.events if e[0] == "print"]
        if not ks:
            raise Incomplete("the number is not formatted by the C library")
        e = ks[-1]
        args = e[2]
        fmt = None
        for i, k in args[2].t:
            fmt = sp.literal(atom(i))
        f = "".join(chr(x & 255) for x in fmt[:-1]) if fmt else "?"
        allowed = ["%" + x for x in NUM[w][:-1]] + ({"I32": ["%i"], "I64": ["%li", "%lli"]}.get(w, []))
        if f not in allowed:
            j.bad("format", "a value of type %s is printed with conversion \"%s\"" % (w, f))
        if len(args) < 4 or args[3] != numval(w):
            j.bad("format", "the number that is printed is %s" % (args[3] if len(args) > 3 else "missing",))
        return e[1]

    def plen(s, k):
        """length of printed text k; None when printing failed"""
        r = S("printed%d" % k, "i")
        return r

    def number(add_, w):
        def post(j, s, v, l):
            d = L(s)
            k = printed(j, s, w)
            r = plen(s, k)
            for f, good in j.q.nonneg(s.facts, r):
                s0, s.facts = s.facts, f
                if add_:
                    if good:
                        t = add(d["len"], r)
                        changed(j, s, v, t, full(d) + [(t, text(k, scale(d["len"], -1)))])
                    else:
                        changed(j, s, v, d["len"], full(d))
                elif good:
                    changed(j, s, v, r, [(r, text(k))], M=None)
                else:
                    changed(j, s, v, ZERO, [], M=None)
                s.facts = s0
        return post
    for w in NUM:
        ob("append[%s]" % w, "w_add" + w, pre(lambda e, st, a, w=w: [A(sp.new_str(e, st, "L")), numval(w)]), number(True, w))
        ob("print[%s]" % w, "w_set" + w, pre(lambda e, st, a, w=w: [A(sp.new_str(e, st, "L")), numval(w)]), number(False, w))

    # ---- new strings from old ones
    lx = lambda mk: (lambda e, st, a: [A(a), A(sp.new_str(e, st, "L")), mk(e, st)])

    def plus(j, s, v, l, tail, ln, others):
        d = L(s)
        t = add(d["len"], ln)
        made(j, s, t, full(d) + [(t, tail)], others)
    ob("operator+[string]", "w_plusStr", pre(lx(lambda e, st: A(sp.new_str(e, st, "X"))), new=True),
       lambda j, s, v, l: plus(j, s, v, l, orig(X(s), scale(L(s)["len"], -1)), X(s)["len"], "LX"))
    ob("operator+[C string]", "w_plusC", pre(lx(lambda e, st: A(sp.cstr(e, st, "X"))), new=True),
       lambda j, s, v, l: plus(j, s, v, l, orig(X(s), scale(L(s)["len"], -1)), X(s)["len"], "LX"))
    ob("operator+[character]", "w_plusChar", pre(lx(lambda e, st: c), new=True), lambda j, s, v, l: plus(j, s, v, l, lambda j_: ("val", c), ONE, "L"))

    def plusself(e, st, a):
        x = sp.new_str(e, st, "L")
        return [A(a), A(x), A(x)]
    ob("operator+[itself]", "w_plusStr", pre(plusself, new=True),
       lambda j, s, v, l: plus(j, s, v, l, orig(L(s), scale(L(s)["len"], -1)), L(s)["len"], "L"))
    for w in ("I32", "U64", "F64"):
        def post(j, s, v, l, w=w):
            d = L(s)
            k = printed(j, s, w)
            for f, good in j.q.nonneg(s.facts, plen(s, k)):
                s0, s.facts = s.facts, f
                if good:
                    plus(j, s, v, l, text(k, scale(d["len"], -1)), plen(s, k), "L")
                else:
                    plus(j, s, v, l, None, ZERO, "L")
                s.facts = s0
        ob("operator+[%s]" % w, "w_plus" + w, pre(lx(lambda e, st, w=w: numval(w)), new=True), post)

    def formatted(j, s, v, l):
        ks = [e for e in s.events if e[0] == "print"]
        if not ks:
            raise Incomplete("not formatted by the C library")
        k, args = ks[-1][1], ks[-1][2]
        if args[2:] != [A(X(s)["buf"]), S("num", "i"), S("strarg", "p")] and tuple(args[2:]) != (A(X(s)["buf"]), S("num", "i"), S("strarg", "p")):
            j.bad("format", "format or arguments were replaced: %s" % ([T.show(x) if isinstance(x, Lin) else x for x in args[2:]],))
        for f, good in j.q.nonneg(s.facts, plen(s, k)):
            s0, s.facts = s.facts, f
            made(j, s, plen(s, k) if good else ZERO, [(plen(s, k), text(k))] if good else [], "X")
            s.facts = s0
    ob("format", "w_format", pre(lambda e, st, a: [A(a), A(sp.cstr(e, st, "X")), S("num", "i"), S("strarg", "p")], new=True), formatted)
    ob("substr", "w_substr", pre(lambda e, st, a: [A(a), A(sp.new_str(e, st, "L")), cnt, pos], (sub(S("lenL"), add(pos, cnt)),), new=True),
       lambda j, s, v, l: made(j, s, cnt, [(cnt, orig(L(s), pos))], "L"))
    ob("substr[from start]", "w_substr0", pre(lambda e, st, a: [A(a), A(sp.new_str(e, st, "L")), cnt], (sub(S("lenL"), cnt),), new=True),
       lambda j, s, v, l: made(j, s, cnt, [(cnt, orig(L(s)))], "L"))

    def spliced(j, s, v, l, d2=None, sh=ZERO, ln=None, others="X"):
        d = L(s)
        d2 = d2 or X(s)
        ln = ln if ln is not None else d2["len"]
        t = add(sub(d["len"], cnt), ln)
        changed(j, s, v, t, [(pos, orig(d)), (add(pos, ln), orig(d2, sub(sh, pos))), (t, orig(d, sub(cnt, ln)))], others)
    fit = (sub(S("lenL"), add(pos, cnt)),)
    ob("splice[string]", "w_spliceStr", pre(lambda e, st, a: [A(sp.new_str(e, st, "L")), pos, cnt, A(sp.new_str(e, st, "X"))], fit), spliced)
    ob("splice[C string]", "w_spliceC", pre(lambda e, st, a: [A(sp.new_str(e, st, "L")), pos, cnt, A(sp.cstr(e, st, "X"))], fit), spliced)

    def spliceself(e, st, a):
        x = sp.new_str(e, st, "L")
        return [A(x), pos, cnt, A(x)]
    ob("splice[itself]", "w_spliceStr", pre(spliceself, fit), lambda j, s, v, l: spliced(j, s, v, l, L(s), others=""))

    def splicetail(e, st, a):
        x = sp.new_str(e, st, "L", cstr=True)
        return [A(x), pos, cnt, add(A(L(st)["buf"]), idx)]
    ob("splice[own tail]", "w_spliceC", pre(splicetail, fit + (sub(S("lenL"), idx),)),
       lambda j, s, v, l: spliced(j, s, v, l, L(s), idx, sub(L(s)["len"], idx), others=""))

    # ---- access
    one = lambda e, st, a: [A(sp.new_str(e, st, "L"))]

    def reads(want, what):
        def post(j, s, v, l):
            b = j.kept("L")
            w = want(s)
            if not isinstance(v, Lin) or not s.facts.zero(sub(v, w)):
                j.bad("result", "%s returns %s, expected %s" % (what, T.show(v) if isinstance(v, Lin) else v, T.show(w)))
            j.leaks({b})
        return post
    for w in ("getLength", "getSize", "getLen"):
        ob(w, "w_" + w, pre(one), reads(lambda s: L(s)["len"], w))
    for w in ("deref", "getData", "getBuffer", "cderef", "cgetData", "cgetBuffer"):
        ob(w, "w_" + w, pre(one), reads(lambda s: A(L(s)["buf"]), w))
    for w in ("index", "getAt", "cindex", "cgetAt"):
        ob(w, "w_" + w, pre(lambda e, st, a: [A(sp.new_str(e, st, "L")), idx], (sub(S("lenL"), idx),)), reads(lambda s: add(A(L(s)["buf"]), idx), w))


# ---------------------------------------------------------------------- searching and comparing
def calls_reachable(mod, fn, name):
    seen, todo = set(), [fn]
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs:
            continue
        seen.add(f)
        for b in mod.funcs[f].get("blocks", []):
            for i in b:
                c = str(i.get("f", ""))
                if i["op"] in ("call", "invoke"):
                    for x in flatnames(i):
                        if x == name:
                            return True
                        todo.append(x)
    return False


def flatnames(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from flatnames(v)
    elif isinstance(x, (list, tuple)):
        if len(x) >= 3 and x[0] == "g" and isinstance(x[2], str):
            yield x[2]
        for v in x:
            yield from flatnames(v)


def prime(alt):
    """the values loaded in an arbitrary iteration are not those of the last one"""
    ev, ge, ne = alt[:3]
    m = {}
    for e in ev:
        v = e[1] if e[0] == "ldc" else A(e[1]) if e[0] == "ldv" else ZERO
        for i, _ in v.t:
            a = atom(i)
            if a[0] in ("s", "f"):
                m[i] = A((a[0], a[1] + "'") + tuple(a[2:]))
    if not m:
        return ev, ge, ne
    w = lambda x: rewrite(x, m) if isinstance(x, Lin) else x
    out = []
    for e in ev:
        if e[0] == "ldv":
            out.append(("ldc", w(A(e[1]))) + tuple(w(x) for x in e[2:]))
        else:
            out.append((e[0],) + tuple(w(x) for x in e[1:]))
    return out, [w(x) for x in ge], [w(x) for x in ne]


def alts(j):
    """(loop op, facts of one arbitrary iteration, its events, kappa, count) for every alternative of every loop"""
    out = []
    for e in j.s.events:
        if e[0] != "loop":
            continue
        info = e[1]
        k = A(info["kappa"])
        f = j.s.facts.with_ge(k, add(sub(info["count"], k), C(-1)))
        for alt in info["back"]:
            ev, ge, ne = prime(alt)
            g = f and f.with_ge(*ge)
            for l in ne:
                g = g and g.with_ne(l)
            out.append((info, g if g is not None and j.q.ok(g) else None, ev, k, info["count"]))
    return out


def loads(events, base):
    return [(e[1] if e[0] == "ldc" else A(e[1]), e[3]) for e in events if e[0] in ("ldc", "ldv") and e[2] == base]


def top(s):
    """events after the last loop (the iteration that leaves it included)"""
    out = []
    for e in s.events:
        if e[0] == "loop":
            continue
        out.append(e)
    return out


UP, LOW = (65, 90), (97, 122)


def folds(f, a, b):
    """the facts say that the characters are equal up to case"""
    if f.zero(sub(a, b)):
        return True
    for d, (lo, hi) in ((32, LOW), (-32, UP)):
        if f.zero(add(sub(a, b), C(-d))) and f.entails(add(a, C(-lo))) and f.entails(sub(C(hi), a)):
            return True
    return False


def may_fold(q, f, a, b):
    g = f.with_ge(sub(a, b), sub(b, a))
    if q.ok(g):
        return True
    for d, (lo, hi) in ((32, LOW), (-32, UP)):
        df = add(sub(a, b), C(-d))
        g = f.with_ge(df, scale(df, -1), add(a, C(-lo)), sub(C(hi), a))
        if q.ok(g):
            return True
    return False


def narrow(f, v):
    """a character value whose truncation changes nothing"""
    if isinstance(v, Lin) and not v.c and len(v.t) == 1 and v.t[0][1] == 1:
        a = atom(v.t[0][0])
        if a[0] == "op" and a[1] == "trunc" and a[2] == 8 and f.entails(add(a[3], C(128))) and f.entails(sub(C(127), a[3])):
            return a[3]
    return v


def may_equal(q, f, a, b):
    return q.ok(f.with_ge(sub(a, b), sub(b, a)))


def stride(l, k):
    """c when l is c * k, else None"""
    if len(l.t) == 1 and not l.c:
        i, c = l.t[0]
        a = atom(i)
        if A(a) == k:
            return C(c)
        if a[0] == "op" and a[1] == "mul" and c == 1:
            if k in a[2:]:
                o = [x for x in a[2:] if isinstance(x, Lin) and x != k]
                return o[0] if len(o) == 1 else None
    return None


class Compare:
    """decides a comparison of the characters of two buffers from position `start` on"""

    def __init__(self, j, A_, B_, start, fold, limit=None):
        self.j, self.A, self.B, self.start, self.fold, self.limit = j, A_, B_, start, fold, limit

    def scan(self):
        """-> (facts, x, a, b): the last pair of characters looked at, all pairs before it being equal; a is None if none was needed"""
        j = self.j
        s = j.s
        pos = self.start
        for info, g, ev, k, cnt in alts(j):
            la, lb = loads(ev, self.A), loads(ev, self.B)
            if not la and not lb:
                continue
            if not la or not lb:
                raise Incomplete("the buffers are not compared pairwise")
            p = add(self.start, k)
            if g is None:
                pos = add(self.start, cnt)
                continue
            ok = False
            for a, x in la:
                for b, y in lb:
                    if g.zero(sub(x, p)) and g.zero(sub(y, p)):
                        ok = True
                        if not (folds(g, a, b) if self.fold else g.zero(sub(a, b))):
                            if (may_fold(j.q, g, a, b) if self.fold else may_equal(j.q, g, a, b)) and not self.definite(g, a, b):
                                raise Incomplete("equality of the characters passed over is not established")
                            j.bad("comparison", "%s: comparing goes on after two different characters" % info["loc"])
            if not ok:
                j.bad("comparison", "%s: characters at different positions are compared" % info["loc"]) if all(
                    not g.zero(sub(x, y)) for _, x in la for _, y in lb) else None
                if not j.out:
                    raise Incomplete("the characters are not visited one after the other")
            pos = add(self.start, cnt)
        t = top(s)
        la, lb = loads(t, self.A), loads(t, self.B)
        for a, x in reversed(la):
            for b, y in reversed(lb):
                if s.facts.zero(sub(x, y)) and s.facts.zero(sub(x, pos)):
                    return pos, a, b
        return pos, None, None

    def early(self, pos, want):
        """a result without a look at the characters at pos"""
        j, s = self.j, self.j.s
        seen = [x for e in s.events if e[0] != "loop" for x in ([e] if e[0] in ("ldc", "ldv") else [])]
        if any(e[0] == "memcmp" for e in s.events) or any(e[0] == "loop" and any(x[0] == "memcmp" for b in e[1]["back"] for x in b[0]) for e in s.events) \
                or not any(e[0] == "loop" and any(x[0] in ("ldc", "ldv") and x[2] in (self.A, self.B) for b in e[1]["back"] for x in b[0]) for e in s.events) \
                or any(not s.facts.entails(sub(pos, e[3])) for e in seen if e[2] in (self.A, self.B)):
            raise Incomplete("the characters that decide were not found")
        ends = [s.mem[b].info.get("cstr") for b in (self.A, self.B)]
        if None in ends:
            raise Incomplete("the characters that decide were not found")
        for f, a in j.q.nonneg(s.facts, add(sub(ends[0], pos), C(-1))):
            for g, b in j.q.nonneg(f, add(sub(ends[1], pos), C(-1))):
                if not a and not b:
                    want(0, None, g)
                elif not self.fold and a and b:
                    j.bad("comparison", "a result is given before a difference or the end of both strings was met")
                elif a != b:
                    j.bad("comparison", "a result is given although only one of the strings has ended")
                else:
                    raise Incomplete("the characters that decide were not found")

    def definite(self, g, a, b):
        return False

    def decide(self, want):
        """want(sign, exact difference, facts) -> checks of the result; sign 0: equal"""
        j = self.j
        pos, a, b = self.scan()
        if j.out:
            return
        if a is None:
            if self.limit is not None:
                for f, y in j.q.nonneg(j.s.facts, sub(pos, add(self.start, self.limit))):
                    if y:
                        want(0, None, f)
                    else:
                        j.bad("comparison", "a result is given before a difference or the end of the range was met")
                return
            return self.early(pos, want)
        for f, sg in j.q.sgn(j.s.facts, sub(a, b)):
            if sg == 0:
                ends = f.zero(a)
                if self.limit is None:
                    if ends:
                        want(0, None, f)
                    else:
                        j.bad("comparison", "a result is given although the strings are equal so far and go on")
                else:
                    j.bad("comparison", "a result is given although the ranges are equal so far")
                continue
            if not self.fold:
                want(sg, sub(a, b), f)
                continue
            # case: different characters may still be equal up to case
            if folds(f, a, b):
                j.bad("comparison", "characters that differ only in case are taken for different")
            elif may_fold(j.q, f, a, b):
                j.bad("comparison", "characters that differ only in case may be taken for different")
            else:
                want(sg, None, f)


def searching(ck):
    su = Suite(ck)
    sp, ob, pre = su.sp, su.ob, su.pre
    pos, n, c = S("pos"), S("n"), S("c", "i")
    X = lambda s, nm="X": s.x["arr" + nm]
    cs2 = lambda e, st, a: [A(sp.cstr(e, st, "L")), A(sp.cstr(e, st, "X"))]
    ss2 = lambda e, st, a: [A(sp.new_str(e, st, "L", cstr=True)), A(sp.new_str(e, st, "X", cstr=True))]
    sc2 = lambda e, st, a: [A(sp.new_str(e, st, "L", cstr=True)), A(sp.cstr(e, st, "X"))]

    def quiet(j):
        j.leaks({j.kept("L"), j.kept("X") if "arrX" in j.s.x else None})

    def order(fold=False, limited=False, rel=None):
        def post(j, s, v, l):
            cmp_ = Compare(j, X(s, "L")["buf"], X(s)["buf"], pos if limited else ZERO, fold, n if limited else None)

            def want(sg, d, f):
                if not isinstance(v, Lin):
                    j.bad("result", "the result is %s" % (v,))
                elif rel is not None:
                    w = ONE if rel(sg) else ZERO
                    if v != w:
                        if v not in (ZERO, ONE):
                            raise Incomplete("result " + T.show(v))
                        j.bad("result", "the result is %s although the first string is %s" % (bool(v.c), {0: "equal", 1: "greater", -1: "less"}[sg]))
                elif sg == 0:
                    if not f.zero(v):
                        j.bad("result", "the result for equal strings is %s" % T.show(v))
                elif d is not None:
                    if not f.zero(sub(v, d)):
                        j.bad("result", "the result is %s, not the difference %s of the first different characters" % (T.show(v), T.show(d)))
                elif not f.nonzero(v):
                    j.bad("result", "the result for different strings is %s" % T.show(v))
            cmp_.decide(want)
            quiet(j)
        return post
    ob("platform cmp", "w_psCmp", pre(cs2), order())
    ob("platform icmp", "w_psIcmp", pre(cs2), order(fold=True))

    def ranges(e, st, a):
        for nm in "LX":
            b = e.new_region(st, "input", S("size" + nm), {"name": nm, "seq": 1, "triv": True, "live": S("size" + nm)})
            st.x["arr" + nm] = {"a": None, "buf": b, "len": S("size" + nm), "n": S("size" + nm)}
        return [A(X(st, "L")["buf"]), A(X(st)["buf"]), n, pos]
    room = (sub(S("sizeL"), add(n, pos)), sub(S("sizeX"), add(n, pos)))
    ob("platform cmpn", "w_psCmpn", pre(ranges, room), order(limited=True))
    ob("platform icmpn", "w_psIcmpn", pre(ranges, room), order(fold=True, limited=True))

    def length(j, s, v, l):
        if not isinstance(v, Lin) or not s.facts.zero(sub(v, X(s)["len"])):
            j.bad("result", "the length is %s, expected %s" % (T.show(v) if isinstance(v, Lin) else v, T.show(X(s)["len"])))
    ob("platform getLength", "w_psLength", pre(lambda e, st, a: [A(sp.cstr(e, st, "X"))]), length)
    ob("cmp[string]", "w_cmp", pre(ss2), order())
    ob("cmp[C string]", "w_cmpC", pre(sc2), order())
    ob("icmp[string]", "w_icmp", pre(ss2), order(fold=True))
    ob("icmp[C string]", "w_icmpC", pre(sc2), order(fold=True))
    for w, rel in (("eq", lambda g: g == 0), ("ne", lambda g: g != 0), ("lt", lambda g: g < 0), ("le", lambda g: g <= 0), ("gt", lambda g: g > 0), ("ge", lambda g: g >= 0)):
        ob("operator %s[string]" % w, "w_" + w, pre(ss2), order(rel=rel))
        ob("operator %s[C string]" % w, "w_" + w + "C", pre(sc2), order(rel=rel))

    # ---- searching
    def tests(j, events, what):
        """[(position, truth)] of the comparisons made: truth(facts) -> True match, False mismatch, None"""
        s = j.s
        out = []
        hay = X(s, "L")["buf"]
        if what == "char":
            for v, x in loads(events, hay):
                out.append((x, lambda f, v=v: True if f.zero(sub(v, c)) else False if f.nonzero(sub(v, c)) else None))
            return out
        pat, plen = what
        for e in events:
            if e[0] == "memcmp":
                x, p, q, k = e[1:5]
                if q != pat and p == pat:
                    p, q = q, p
                if q != pat:
                    continue
                if not s.facts.zero(sub(k, plen)):
                    # fewer characters say nothing about a match, more say nothing about a mismatch
                    less, more = (j.q.ok(s.facts.with_ge(y)) for y in (add(sub(plen, k), C(-1)), add(sub(k, plen), C(-1))))
                    if less and more:
                        continue
                    t = (lambda f, x=x: None if f.zero(x) else False if f.nonzero(x) else None) if less else (lambda f, x=x: True if f.zero(x) else None)
                    out.append((sub(p, A(hay)), t))
                    continue
                out.append((sub(p, A(hay)), lambda f, x=x: True if f.zero(x) else False if f.nonzero(x) else None))
        return out

    def found(what_of, start, m_of, fn):
        uses = calls_reachable(ck.m, fn, "memcmp") or calls_reachable(ck.m, fn, "bcmp")

        def post(j, s, v, l):
            what, m = what_of(s), m_of(s)
            if what != "char" and not uses:
                raise Incomplete("blocks are not compared by the C library")
            N = X(s, "L")["len"]
            f0 = s.facts
            if not isinstance(v, Lin):
                j.bad("result", "the result is %s" % (v,))
                return
            spans = []          # (lowest, count) of mismatches
            for info, g, ev, k, cnt in alts(j):
                if g is None:
                    continue
                ts = tests(j, ev, what)
                if not ts:
                    if any(e[0] in ("memcmp",) for e in ev):
                        raise Incomplete("other blocks are compared")
                    continue
                good = [x for x, t in ts if t(g) is False]
                for x, t in ts:
                    if t(g) is True:
                        j.bad("search", "%s: the search goes on after a match" % info["loc"])
                if not good:
                    if not j.out:
                        raise Incomplete("outcome of a comparison is not known")
                    continue
                # both alternatives of one loop cover the same span when they agree
                x = good[0]
                lo = rewrite(x, {aid(info["kappa"]): ZERO})
                if not g.zero(sub(sub(x, lo), k)):
                    st_ = stride(sub(x, lo), k)
                    if st_ is not None:
                        # every st_-th position only: is there one in between?
                        h = f0.with_ge(add(st_, C(-2)), add(cnt, C(-1)))
                        for f, none in j.q.sgn(h, add(v, ONE)) if h is not None and j.q.ok(h) else ():
                            if none == 0 and j.q.ok(f.with_ge(sub(sub(N, m), add(lo, ONE)))) or none > 0 and j.q.ok(f.with_ge(sub(v, add(lo, C(2))))):
                                j.bad("search", "%s: only every %s-th position is compared" % (info["loc"], T.show(st_)))
                    if j.out:
                        continue
                    raise Incomplete("positions are not visited one after the other")
                spans.append((info["id"], lo, cnt))
            hits = []
            for x, t in tests(j, top(s), what):
                r = t(f0)
                if r is False:
                    spans.append((None, x, ONE))
                elif r is True:
                    hits.append(x)
            y = S("y")

            def uncovered(lo, hi):
                """is there a position in [lo, hi) that was not compared?"""
                fs = [f0.with_ge(sub(y, lo), add(sub(hi, y), C(-1)))]
                for _, a_, n_ in spans:
                    nx = []
                    for f in fs:
                        if not j.q.ok(f):
                            continue
                        for g, inside in j.q.inrange(f, a_, y, n_):
                            if not inside:
                                nx.append(g)
                    fs = nx
                return [f for f in fs if j.q.ok(f)]
            for f, none in j.q.sgn(f0, add(v, ONE)):
                if none == 0:
                    if uncovered(start, add(sub(N, m), ONE)):
                        j.bad("search", "-1 is returned although not every position from %s on was compared" % T.show(start))
                    continue
                if none < 0:
                    j.bad("result", "the result is %s" % T.show(v))
                    continue
                if not any(f.zero(sub(x, v)) for x in hits):
                    j.bad("search", "position %s is returned, where no match was established" % T.show(v))
                if not f.entails(sub(v, start)):
                    j.bad("search", "a position before the start is returned")
                if not f.entails(sub(sub(N, m), v)):
                    j.bad("search", "a position is returned where the pattern does not fit")
                if uncovered(start, v):
                    j.bad("search", "an earlier position was not compared")
            quiet(j)
        return post
    pat = lambda s: (A(X(s)["buf"]), X(s)["len"])
    m_ = lambda s: X(s)["len"]
    L1 = lambda e, st: A(sp.new_str(e, st, "L"))
    for nm, fn, build, facts, start, what, m in (
            ("findIndex[C string]", "w_findC", lambda e, st, a: [L1(e, st), A(sp.cstr(e, st, "X"))], (), ZERO, pat, m_),
            ("findIndex[C string,start]", "w_findCAt", lambda e, st, a: [L1(e, st), A(sp.cstr(e, st, "X")), pos], (), pos, pat, m_),
            ("findIndex[C string,start,length]", "w_findCN", lambda e, st, a: [L1(e, st), A(sp.cstr(e, st, "X")), pos, n], (add(n, C(-1)), sub(S("lenX"), n)), pos,
             lambda s: (A(X(s)["buf"]), n), lambda s: n),
            ("findIndex[string]", "w_findStr", lambda e, st, a: [L1(e, st), A(sp.new_str(e, st, "X", cstr=True))], (), ZERO, pat, m_),
            ("findIndex[string,start]", "w_findStrAt", lambda e, st, a: [L1(e, st), A(sp.new_str(e, st, "X", cstr=True)), pos], (), pos, pat, m_),
            ("findIndex[character]", "w_findChar", lambda e, st, a: [L1(e, st), c], (), ZERO, lambda s: "char", lambda s: ONE),
            ("findIndex[character,start]", "w_findCharAt", lambda e, st, a: [L1(e, st), c, pos], (), pos, lambda s: "char", lambda s: ONE)):
        ob(nm, fn, pre(build, facts), found(what, start, m, fn))

    # ---- all occurrences: the search itself is taken as specified above
    sp2 = FindSpec(ck.m)
    su2 = Suite(ck)
    su2.sp = sp2

    def steps(j, s, per, advance, patarg, N0):
        """the loop looks for the next occurrence from where the last one left it"""
        ls = [e for e in s.events if e[0] == "loop" and any(x[0] == "find" for b in e[1]["back"] for x in b[0])]
        tf = [e for e in top(s) if e[0] == "find"]
        if not tf:
            return False
        if len(ls) > 1:
            raise Incomplete("several search loops")
        if any(not s.facts.zero(add(e[1], ONE)) for e in tf[-1:]):
            j.bad("search", "the search stops at an occurrence")
        for e in tf + [x for l in ls for b in l[1]["back"] for x in b[0] if x[0] == "find"]:
            if e[2] != A(X(s, "L")["a"]):
                j.bad("search", "another string is searched")
            if e[3] != patarg:
                j.bad("search", "another pattern is looked for")
        if not ls:
            if tf and tf[0][4] != ZERO:
                j.bad("search", "the search does not start at the beginning")
            return True
        info = ls[0][1]
        k = info["kappa"]
        for (ev, ge, ne, fnd), nx in zip(info["back"], info["next"]):
            fs = [e for e in ev if e[0] == "find"]
            if len(fs) != 1:
                raise Incomplete("not one search per iteration")
            st_, r = fs[0][4], fs[0][1]
            g = s.facts.with_ge(*ge)
            for l in ne:
                g = g and g.with_ne(l)
            if not j.q.ok(g):
                continue
            vs = [i for i, v in info["phis"].items() if isinstance(v, Lin) and v == st_ and not v.const]
            if not vs:
                # start of the search is not a loop variable
                if st_.const:
                    j.bad("search", "the search starts at %s in every iteration" % T.show(st_))
                    continue
                raise Incomplete("start of the search is not a loop variable")
            i = vs[0]
            if info["init"][i] != ZERO:
                if not s.facts.zero(info["init"][i]):
                    j.bad("search", "the first search starts at %s" % T.show(info["init"][i]))
            w = add(r, advance)
            if not isinstance(nx[i], Lin) or not g.zero(sub(nx[i], w)):
                j.bad("search", "after an occurrence at r the search goes on at %s, expected %s" % (T.show(nx[i]) if isinstance(nx[i], Lin) else nx[i], T.show(w)))
            per(j, ev, r, g)
        return True

    def collect(patof):
        def post(j, s, v, l):
            def per(j, ev, r, g):
                ps = [e for e in ev if e[0] == "push"]
                if len(ps) != 1:
                    j.bad("search", "an occurrence is recorded %d times" % len(ps))
                elif not isinstance(ps[0][2], Lin) or not g.zero(sub(ps[0][2], r)):
                    j.bad("search", "%s is recorded for an occurrence at %s" % (T.show(ps[0][2]), T.show(r)))
            if not steps(j, s, per, ONE, patof(s), None):
                raise Incomplete("occurrences are not found by findIndex")
            if [e for e in top(s) if e[0] == "push"]:
                j.bad("search", "something that is no occurrence is recorded")
            j.leaks({j.kept("L"), j.kept("X") if "arrX" in s.x else None})
        return post
    out = lambda e, st: A(sp2.rawobj(e, st, "out", 32))
    L2 = lambda e, st: A(sp2.new_str(e, st, "L"))
    su2.ob("findAll[string]", "w_findAllStr", su2.pre(lambda e, st, a: [L2(e, st), A(sp2.new_str(e, st, "X")), out(e, st)]), collect(lambda s: A(X(s)["a"])))
    su2.ob("findAll[C string]", "w_findAllC", su2.pre(lambda e, st, a: [L2(e, st), A(sp2.cstr(e, st, "X")), out(e, st)]), collect(lambda s: A(X(s)["buf"])))
    su2.ob("findAll[character]", "w_findAllChar", su2.pre(lambda e, st, a: [L2(e, st), c, out(e, st)]), collect(lambda s: c))

    def replaced(j, s, v, l):
        P, R = X(s), X(s, "R")

        def per(j, ev, r, g):
            ps = [e for e in ev if e[0] == "splice"]
            if len(ps) != 1:
                j.bad("replace", "an occurrence is replaced %d times" % len(ps))
                return
            e = ps[0]
            if e[1] != A(X(s, "L")["a"]) or e[4] != A(R["a"]):
                j.bad("replace", "another string is spliced")
            if not g.zero(sub(e[2], r)) or not g.zero(sub(e[3], P["len"])):
                j.bad("replace", "[%s, +%s) is replaced for an occurrence of length %s at %s" % (T.show(e[2]), T.show(e[3]), T.show(P["len"]), T.show(r)))
        did = steps(j, s, per, R["len"], A(P["a"]), None)
        if not did:
            for f, some in j.q.nonneg(s.facts, add(P["len"], C(-1))):
                if some:
                    j.bad("replace", "nothing is looked for")
        if [e for e in top(s) if e[0] == "splice"]:
            j.bad("replace", "something that is no occurrence is replaced")
        if v != A(X(s, "L")["a"]):
            j.bad("result", "the operation does not return the string itself")
        j.kept("X")
        j.kept("R")
    su2.ob("replaceAll", "w_replaceAll", su2.pre(lambda e, st, a: [L2(e, st), A(sp2.new_str(e, st, "X")), A(sp2.new_str(e, st, "R"))]), replaced)

    # ---- case
    def cased(lo, hi, d):
        def post(j, s, v, l):
            D = X(s, "L")
            lds = {}
            for o in flat(j.q.ops):
                if o.kind == "load" and isinstance(o.v, tuple):
                    lds[aid(o.v)] = o

            def char(f, leaf_):
                """position j of the new string against position j of the old one"""
                return None
            jj = S("j")
            b = j.string(s.x["new"], D["len"], [(D["len"], lambda y: (lambda f, lf: okchar(f, lf, y)))], s.x["gm"])

            def inside(f, x):
                return f.entails(add(x, C(-lo))) and f.entails(sub(C(hi), x))

            def outside(f, x):
                return f.entails(add(C(lo - 1), scale(x, -1))) or f.entails(add(x, C(-hi - 1)))
            j.leaks({b, j.kept("L")})

        def okchar(f, lf, y):
            # a kept character is outside of the range, a changed one inside
            known = {i for l in list(f.ge) + list(f.ne) for i in value_atoms(l) if atom(i)[0] == "s" and atom(i)[1].startswith("ld.")}
            if lf[0] == "val" and isinstance(lf[1], Lin):
                known |= {i for i in value_atoms(narrow(f, lf[1])) if atom(i)[0] == "s" and atom(i)[1].startswith("ld.")}
            for l in list(f.ge) + list(f.ne):
                for i, _ in l.t:
                    if i not in known and known & set(value_atoms(A(atom(i)))):
                        raise Incomplete("condition on a character")
            in_ = lambda x: j_ok(f.with_ge(add(x, C(-lo)), sub(C(hi), x)))
            out_ = lambda x: j_ok(f.with_ge(add(C(lo - 1), scale(x, -1)))) or j_ok(f.with_ge(add(x, C(-hi - 1))))
            if lf[0] == "init":
                if any(in_(A(atom(i))) for i in known):
                    return False
                return bool(known) and f.zero(sub(lf[2], y))
            if lf[0] == "val" and isinstance(lf[1], Lin):
                val = narrow(f, lf[1])
                for i in known:
                    x = A(atom(i))
                    if f.zero(sub(val, add(x, C(d)))):
                        return not out_(x)
                    if f.zero(sub(val, x)):
                        return not in_(x)
                raise Incomplete("value of a character")
            return False
        return post

    def j_ok(f):
        return f is not None and not any(f.zero(n) for n in f.ne)
    new1 = lambda e, st, a: [A(a), A(sp.new_str(e, st, "L"))]
    ob("toLower", "w_toLower", pre(new1, new=True), cased(65, 90, 32))
    ob("toUpper", "w_toUpper", pre(new1, new=True), cased(97, 122, -32))


class FindSpec(StrSpec):
    """findIndex and splice by their specification"""

    def handler(self, eng, name, dem):
        if dem.startswith("StringBase<char>::findIndex("):
            return self.h_find
        if dem.startswith("StringBase<char>::splice("):
            return self.h_splice
        if re.match(r"_ZN5ArrayI[ymj]vE\d+(insertLast|add|push|append)", name):
            return self.h_push
        return super().handler(eng, name, dem)

    def objlen(self, st, a):
        b = self.base(st, a)
        c = st.mem[b].cells.get(self.K["count"]) if b is not None else None
        if c is None or not isinstance(c[1], Lin):
            raise Incomplete("length of the string")
        return add(c[1], C(-1))

    def patlen(self, st, p, args, dem):
        sig = dem[dem.index("(") + 1:]
        if sig.startswith("char,"):
            return ONE
        if sig.startswith("StringBase"):
            return self.objlen(st, p)
        k = args[3] if len(args) > 3 else ZERO
        if not st.facts.zero(k):
            if not st.facts.nonzero(k):
                raise Incomplete("pattern length")
            return k
        for n in st.x:
            if n.startswith("arr") and st.x[n].get("a") is None and A(st.x[n]["buf"]) == p:
                return st.x[n]["len"]
        raise Incomplete("pattern")

    def h_find(self, eng, st, ins, args, dem):
        this, p = args[0], args[1]
        start = args[2] if len(args) > 2 else ZERO
        m = self.patlen(st, p, args, dem)
        n = self.objlen(st, this)
        loc = eng.m.loc(ins.get("l"))
        out = []
        s2 = st.copy()
        r = A(eng.fresh("found", "u"))
        f = s2.facts.with_ge(r, sub(r, start), sub(n, add(r, m)))
        if f is not None:
            s2.facts = f
            s2.events.append(("find", r, this, p, start, loc))
            out.append((s2, r))
        st.events.append(("find", C(-1), this, p, start, loc))
        out.append((st, C(-1)))
        return out

    def h_splice(self, eng, st, ins, args, dem):
        this, pos, ln, repl = args[:4]
        if "char const*" in dem:
            rl = args[4] if len(args) > 4 else None
            owner = None
            for n in st.x:
                if n.startswith("arr") and A(st.x[n]["buf"]) == repl:
                    owner = st.x[n]
            if owner is None or (rl is not None and not st.facts.zero(sub(rl, owner["len"]))):
                raise Incomplete("replacement text")
            rlen, repl = owner["len"], A(owner["a"]) if owner["a"] is not None else repl
        else:
            rlen = self.objlen(st, repl)
        b = self.base(st, this)
        n = self.objlen(st, this)
        if not st.facts.entails(sub(n, add(pos, ln))):
            if any(atom(i)[0] != "s" or "." in atom(i)[1] and not atom(i)[1].startswith("found.") for i in value_atoms(pos)):
                raise Incomplete("position of a splice")
            eng.finding(st, "precondition", ins, "splice of a range that is not inside the string")
        r = st.region(b, True)
        r.cells[self.K["count"]] = (8, add(add(sub(n, ln), rlen), ONE))
        st.events.append(("splice", this, pos, ln, repl, eng.m.loc(ins.get("l"))))
        return [(st, this)]

    def h_push(self, eng, st, ins, args, dem):
        out = []
        v = args[1]
        srcs = [(st, v)]
        if isinstance(v, Lin) and not v.const and self.base(st, v) is not None:
            srcs = eng.load(st, v, {"k": "int", "w": 64, "sz": 8}, ins)
        for s, x in srcs:
            b = self.base(s, args[0])
            if b is None:
                raise Incomplete("array of occurrences")
            r = s.region(b, True)
            c = r.cells.get(self.K["count"])
            r.cells[self.K["count"]] = (8, add(c[1], ONE) if c and isinstance(c[1], Lin) else UNDEF)
            r.cells[self.K["buffer"]] = (8, A(eng.fresh("items", "p")))
            s.events.append(("push", args[0], x, eng.m.loc(ins.get("l"))))
            out.append((s, args[0]))
        return out


def main(pid):
    import texts
    ck = Checker(pid, "string.cpp", fallback=lambda rep: texts.texts(rep, pid == "R01"))
    {"R01": editing, "R02": searching}[pid](ck)
    return ck


if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        ck = main(pid)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(2)
    r = ck.rep
    import texts
    texts.texts(r, pid == "R01")
    r.rule("each position of the resulting character buffer (one symbolic index) is traced back through all effects of the operation: "
           "the specified text, then a terminator at the reported length; every access stays inside its buffer; nothing is read after release; nothing is lost.")
    finish(r, {"R01": 25, "R02": 15}[pid])
