"""containers/array.h and the element helpers of the memory layer, for any length, capacity and position."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.arr import *


def run(ck, sp, tag):
    esz = sp.esz
    idx = A(("s", "idx", "u"))
    num = A(("s", "num", "u"))

    def pre(kinds=("null", "full"), args=lambda a, x: [A(a)], facts=lambda n: (), elems="", other=None, nn=None):
        def f(eng):
            for k in kinds:
                for k2 in (other or (None,)):
                    st = State()
                    gm = sp.gmalloc(eng, st)
                    m = sp.mallocobj(eng, st, "M")
                    a = sp.new_array(eng, st, "L", k, m)
                    o = None
                    if k2 == "self":
                        o = a
                    elif k2 is not None:
                        m2 = sp.mallocobj(eng, st, "M2")
                        o = sp.new_array(eng, st, "X", k2, m2)
                    for e in elems:
                        sp.elem(st, e)
                    fx = st.facts.with_ge(*facts(st.x["arrL"]["n"]))
                    if fx is None:
                        continue
                    st.facts = fx
                    yield k + ("/" + k2 if k2 else ""), st, args(a, o)
        return f

    def ob(name, fn, prefn, post):
        def p(eng, label, s, v):
            return judge(sp, s, lambda j: post(j, s, v, label))
        ck.obligation("%s %s" % (tag, name), sp, fn, prefn, p)

    L = lambda s: s.x["arrL"]
    X = lambda s: s.x["arrX"]
    orig = lambda d, sh=ZERO: (lambda j: ("init", d["buf"], add(j, sh)))
    const = lambda leafv: (lambda j: leafv)

    def ptr(j, v, b, i, what="result"):
        s = j.s
        if b is None or not isinstance(v, Lin) or not s.facts.zero(sub(v, add(A(b), scale(i, esz)))):
            j.bad("result", "%s refers to %s" % (what, T.show(v) if isinstance(v, Lin) else v))

    def insert(pos, items, keep, ret, j, s, v):
        d = L(s)
        n, k = d["n"], len(items)
        b = None
        # inside or beyond the end
        for f, beyond in j.q.nonneg(s.facts, add(sub(pos, n), C(-1))):
            s0, s.facts = s.facts, f
            total = add(pos if beyond else n, C(k))
            pieces = [((n if beyond else pos), orig(d))]
            if beyond:
                pieces.append((pos, const(("def",))))
            for i, e in enumerate(items):
                pieces.append((add(pos, C(i + 1)), const(value(e))))
            if not beyond:
                pieces.append((total, orig(d, C(-k))))
            b = j.array(d["a"], total, pieces, d["m"])
            s.facts = s0
        if ret:
            ptr(j, v, b, pos)
        for e in items:
            if keep:
                j.single(e, value(e), "the source element")
        j.leaks({b})

    ES = {1: ([E_], "e"), 2: ([E_, F_], "ef"), 3: ([E_, F_, G_], "efg")}
    for k, suf in ((1, ""), (1, "R"), (2, "2"), (3, "3")):
        items, nm = ES[k]
        ia = [A(e) for e in items]
        keep = suf != "R"
        ret = k == 1
        ob("insertAt" + suf, "w_insertAt" + suf, pre(args=lambda a, o: [A(a), idx] + ia, elems=nm),
           lambda j, s, v, l, items=items, keep=keep, ret=ret: insert(idx, items, keep, ret, j, s, v))
        ob("insertFirst" + suf, "w_insertFirst" + suf, pre(args=lambda a, o: [A(a)] + ia, elems=nm),
           lambda j, s, v, l, items=items, keep=keep, ret=ret: insert(ZERO, items, keep, ret, j, s, v))
        for w in (["insertLast", "add", "push"] if suf == "" else ["insertLast"]):
            ob(w + suf, "w_" + w + suf, pre(args=lambda a, o: [A(a)] + ia, elems=nm),
               lambda j, s, v, l, items=items, keep=keep, ret=ret: insert(L(s)["n"], items, keep, ret, j, s, v))

    def remove(pos, cnt, out, j, s, v):
        d = L(s)
        n = d["n"]
        left = sub(n, cnt)
        b = j.array(d["a"], left, [(pos, orig(d)), (left, orig(d, cnt))], d["m"])
        if out is not None:
            j.single(out, ("init", d["buf"], pos), "the popped element")
        if d["buf"] is not None and b != d["buf"]:
            j.bad("buffer", "the buffer was replaced")
        j.leaks({b})
    has = lambda n: (add(n, C(-1)),)
    ob("removeAt", "w_removeAt", pre(("full",), lambda a, o: [A(a), idx], lambda n: (add(sub(n, idx), C(-1)),)), lambda j, s, v, l: remove(idx, ONE, None, j, s, v))
    ob("removeAt[num]", "w_removeAtN", pre(("full",), lambda a, o: [A(a), idx, num], lambda n: (sub(sub(n, idx), num),)),
       lambda j, s, v, l: remove(idx, num, None, j, s, v))
    ob("removeFirst", "w_removeFirst", pre(("full",), facts=has), lambda j, s, v, l: remove(ZERO, ONE, None, j, s, v))
    ob("removeLast", "w_removeLast", pre(("full",), facts=has), lambda j, s, v, l: remove(sub(L(s)["n"], ONE), ONE, None, j, s, v))
    ob("popAt", "w_popAt", pre(("full",), lambda a, o: [A(a), idx, A(O_)], lambda n: (add(sub(n, idx), C(-1)),), "o"),
       lambda j, s, v, l: remove(idx, ONE, O_, j, s, v))
    ob("popFirst", "w_popFirst", pre(("full",), lambda a, o: [A(a), A(O_)], has, "o"), lambda j, s, v, l: remove(ZERO, ONE, O_, j, s, v))
    ob("popLast", "w_popLast", pre(("full",), lambda a, o: [A(a), A(O_)], has, "o"), lambda j, s, v, l: remove(sub(L(s)["n"], ONE), ONE, O_, j, s, v))

    def wiped(j, s, v, l):
        b = j.array(L(s)["a"], ZERO, [], L(s)["m"])
        j.leaks({b})
    def reset(j, s, v, l):
        b = j.array(L(s)["a"], ZERO, [], L(s)["m"])
        if b is not None:
            j.bad("storage", "the storage is kept")
        j.leaks(())
    for w in ("empty", "wipe", "clear"):
        ob(w, "w_" + w, pre(), wiped)
    ob("reset", "w_reset", pre(), reset)
    ob("destructor", "w_dtor", pre(), lambda j, s, v, l: j.leaks(()))

    # construction
    def ctor(j, s, n, pieces, M, cap=None):
        b = j.array(s.x["new"], n, pieces, M)
        if cap is not None:
            c = j.field(s.x["new"], "capacity")
            if isinstance(c, Lin) and not s.facts.entails(sub(c, cap)):
                j.bad("capacity", "capacity is %s, %s was asked for" % (T.show(c), T.show(cap)))
        return b

    def prec(args, facts=(), setup=None):
        def f(eng):
            st = State()
            gm = sp.gmalloc(eng, st)
            st.x["gm"] = A(gm)
            m = sp.mallocobj(eng, st, "M")
            a = sp.rawobj(eng, st, "new", sp.K["arrsz"])
            st.x["new"] = a
            more = setup(eng, st, m) if setup else None
            st.facts = st.facts.with_ge(*facts)
            yield "", st, args(A(a), A(m), more)
        return f

    def srcbuf(eng, st, m):
        b = eng.new_region(st, "input", scale(num, esz), {"name": "src", "seq": esz, "triv": sp.triv, "live": num})
        st.x["src"] = {"buf": b}
        return b
    cap = A(("s", "cap", "u"))
    slack = A(("s", "slack", "u"))
    M_ = lambda s: next(A(a) for a in s.mem if a[0] == "R" and a[2] == "M")
    gm_ = lambda s: s.x["gm"]
    ob("ctor", "w_ctor", prec(lambda a, m, x: [a]), lambda j, s, v, l: j.leaks({ctor(j, s, ZERO, [], gm_(s))}))
    ob("ctor[alloc]", "w_ctorM", prec(lambda a, m, x: [a, m]), lambda j, s, v, l: j.leaks({ctor(j, s, ZERO, [], M_(s))}))
    ob("ctor[capacity]", "w_ctorCap1", prec(lambda a, m, x: [a, cap]), lambda j, s, v, l: j.leaks({ctor(j, s, ZERO, [], gm_(s), cap)}))
    ob("ctor[capacity,count]", "w_ctorCap", prec(lambda a, m, x: [a, cap, num], (sub(cap, num),)),
       lambda j, s, v, l: j.leaks({ctor(j, s, num, [(num, const(("def",)))], gm_(s), cap)}))
    ob("ctor[buffer]", "w_ctorBuf", prec(lambda a, m, x: [a, A(x), num, slack], (), srcbuf),
       lambda j, s, v, l: j.leaks({ctor(j, s, num, [(num, orig(s.x["src"]))], gm_(s), add(num, slack))}))
    ob("ctor[buffer,count]", "w_ctorBuf2", prec(lambda a, m, x: [a, A(x), num], (), srcbuf),
       lambda j, s, v, l: j.leaks({ctor(j, s, num, [(num, orig(s.x["src"]))], gm_(s), num)}))
    ob("ctor[null buffer]", "w_ctorBuf", prec(lambda a, m, x: [a, ZERO, num, slack], ()),
       lambda j, s, v, l: j.leaks({ctor(j, s, num, [(num, const(("def",)))], gm_(s), add(num, slack))}))

    def srcstatic(eng, st, m):
        b = eng.new_region(st, "input", C(5 * esz), {"name": "src", "seq": esz, "triv": sp.triv, "live": C(5)})
        st.x["src"] = {"buf": b}
        return b
    ob("ctor[static]", "w_ctorStatic", prec(lambda a, m, x: [a, A(x)], (), srcstatic),
       lambda j, s, v, l: j.leaks({ctor(j, s, C(5), [(C(5), orig(s.x["src"]))], gm_(s), C(5))}))

    def precopy(kinds):
        def f(eng):
            for k in kinds:
                st = State()
                gm = sp.gmalloc(eng, st)
                st.x["gm"] = A(gm)
                m = sp.mallocobj(eng, st, "M")
                a = sp.rawobj(eng, st, "new", sp.K["arrsz"])
                st.x["new"] = a
                o = sp.new_array(eng, st, "X", k, m)
                yield k, st, [A(a), A(o)]
        return f

    def unchanged(j, s, nm):
        d = s.x["arr" + nm]
        b = j.array(d["a"], d["n"], [(d["n"], orig(d))], d["m"])
        if b != d["buf"]:
            j.bad("buffer", "the source array lost its buffer")
        return b

    def copied(j, s, v, l):
        d = X(s)
        b0 = unchanged(j, s, "X")
        b = ctor(j, s, d["n"], [(d["n"], orig(d))], None)
        if b is not None and b == d["buf"]:
            j.bad("aliasing", "the copy shares the buffer of its source")
        j.leaks({b, b0})
    ob("copy ctor", "w_copyCtor", precopy(("null", "full")), copied)

    def moved(j, s, v, l):
        d = X(s)
        b = ctor(j, s, d["n"], [(d["n"], orig(d))], d["m"])
        if j.field(d["a"], "buffer") != ZERO or j.field(d["a"], "count") != ZERO or j.field(d["a"], "capacity") != ZERO:
            j.bad("moved-from", "the source array keeps buffer, count or capacity")
        if d["buf"] is not None and b != d["buf"]:
            j.bad("buffer", "the buffer was not taken over")
        j.leaks({b})
    ob("move ctor", "w_moveCtor", precopy(("null", "full")), moved)

    def copyassign(j, s, v, l):
        me = L(s)
        d = me if l.endswith("self") else X(s)
        b0 = None if d is me else unchanged(j, s, "X")
        b = j.array(me["a"], d["n"], [(d["n"], orig(d))], me["m"])
        if v != A(me["a"]):
            j.bad("result", "assignment does not return the array")
        if b is not None and b == b0:
            j.bad("aliasing", "the copy shares the buffer of its source")
        j.leaks({b, b0})
    ob("copy assignment", "w_copyAssign", pre(args=lambda a, o: [A(a), A(o)], other=("null", "full", "self")), copyassign)

    def moveassign(j, s, v, l):
        me, d = L(s), X(s)
        b = j.array(me["a"], d["n"], [(d["n"], orig(d))], d["m"])
        if j.field(d["a"], "buffer") != ZERO or j.field(d["a"], "count") != ZERO or j.field(d["a"], "capacity") != ZERO:
            j.bad("moved-from", "the source array keeps buffer, count or capacity")
        if v != A(me["a"]):
            j.bad("result", "assignment does not return the array")
        j.leaks({b})
    ob("move assignment", "w_moveAssign", pre(args=lambda a, o: [A(a), A(o)], other=("null", "full")), moveassign)

    # access
    def readonly(j, s, v, want, what):
        b = unchanged(j, s, "L")
        if isinstance(want, Lin):
            if not isinstance(v, Lin) or not s.facts.zero(sub(v, want)):
                j.bad("result", "%s returns %s, expected %s" % (what, T.show(v) if isinstance(v, Lin) else v, T.show(want)))
        j.leaks({b})
    for w in ("getCount", "getSize", "getNum"):
        ob(w, "w_" + w, pre(), lambda j, s, v, l, w=w: readonly(j, s, v, L(s)["n"], w))
    ob("getBytes", "w_getBytes", pre(), lambda j, s, v, l: readonly(j, s, v, scale(L(s)["n"], esz), "getBytes"))
    for w in ("deref", "getData", "getBuffer", "cderef", "cgetData", "cgetBuffer"):
        ob(w, "w_" + w, pre(), lambda j, s, v, l, w=w: readonly(j, s, v, A(L(s)["buf"]) if L(s)["buf"] else ZERO, w))
    inside = lambda n: (add(sub(n, idx), C(-1)),)
    at = lambda s, i: add(A(L(s)["buf"]), scale(i, esz))
    for w in ("index", "getAt", "cindex", "cgetAt"):
        ob(w, "w_" + w, pre(("full",), lambda a, o: [A(a), idx], inside), lambda j, s, v, l, w=w: readonly(j, s, v, at(s, idx), w))

    def isempty(j, s, v, l):
        readonly(j, s, v, None, "isEmpty")
        n = L(s)["n"]
        for f, z in j.q.nonneg(s.facts, add(n, C(-1))):
            if v != (ZERO if z else ONE):
                j.bad("result", "isEmpty is %s for count %s" % (v, "> 0" if z else "0"))
    ob("isEmpty", "w_isEmpty", pre(), isempty)
    for w, e in (("begin", lambda s: ZERO), ("end", lambda s: L(s)["n"]), ("cbegin", lambda s: ZERO), ("cend", lambda s: L(s)["n"])):
        ob(w, "w_" + w, pre(("full",)), lambda j, s, v, l, w=w, e=e: readonly(j, s, v, at(s, e(s)), w))

    def call(init, keep):
        def post(j, s, v, l):
            d = L(s)
            n = d["n"]
            b = None
            for f, beyond in j.q.nonneg(s.facts, sub(idx, n)):
                s0, s.facts = s.facts, f
                if beyond:
                    pieces = [(n, orig(d)), (idx, const(("def",))), (add(idx, ONE), const(value(E_) if init else ("raw",)))]
                    b = j.array(d["a"], add(idx, ONE), pieces, d["m"])
                else:
                    b = j.array(d["a"], n, [(n, orig(d))], d["m"])
                    if init:
                        j.single(E_, value(E_), "the unused initial value")
                s.facts = s0
            ptr(j, v, b, idx)
            if init and keep:
                j.single(E_, value(E_), "the source element")
            j.leaks({b})
        return post
    ob("operator()", "w_call", pre(args=lambda a, o: [A(a), idx]), call(False, True))
    ob("operator()[init]", "w_callInit", pre(args=lambda a, o: [A(a), idx, A(E_)], elems="e"), call(True, True))
    ob("operator()[init move]", "w_callInitR", pre(args=lambda a, o: [A(a), idx, A(E_)], elems="e"), call(True, False))

    # owned allocator
    def preown(eng):
        st = State()
        gm = sp.gmalloc(eng, st)
        for k in ("null", "full"):
            s = st.copy()
            m0 = sp.mallocobj(eng, s, "tmp")
            a = sp.new_array(eng, s, "L", k, m0)
            d = s.x["arrL"]
            auto = add(A(a), C(sp.K["autoMalloc"]))
            r = s.region(a, True)
            r.size = C(sp.K["aosz"])
            r.cells[sp.K["malloc"]] = (8, auto)
            r.cells[sp.K["autoMalloc"]] = (8, sp.vtable("OpqMalloc"))
            if d["buf"]:
                s.mem[d["buf"]].info["owner"] = auto
            yield k, s, [A(a)]
    ob("destructor[own allocator]", "w_dtorOwn", preown, lambda j, s, v, l: j.leaks(()))

    # iterators
    I, N = A(("s", "i", "i")), A(("s", "step", "u"))

    def preit(eng):
        st = State()
        sp.gmalloc(eng, st)
        m = sp.mallocobj(eng, st, "M")
        a = sp.new_array(eng, st, "L", "full", m)
        o = eng.new_region(st, "input", C(128), {"name": "out"})
        st.x["out"] = o
        yield "", st, [A(a), I, N, A(o)]

    def itpost(j, s, v, l):
        b = A(L(s)["buf"])
        I1 = add(I, ONE)
        want = [I, I, add(I, N), add(I, N), sub(I, N), I, I1, I1, add(I, C(2)), I1, I1, I,
                add(I, N), I, add(I, N), I]
        names = ["*", "->", "[n]", "+ n", "- n", "* after + and -", "++it", "it++", "after it++", "--it", "it--", "after it--",
                 "+=", "-=", "+= result", "-= result"]
        for k, (w, nm) in enumerate(zip(want, names)):
            c = s.mem[s.x["out"]].cells.get(8 * k)
            if c is None or not isinstance(c[1], Lin) or not s.facts.zero(sub(c[1], add(b, scale(w, esz)))):
                j.bad("iterator", "%s refers to %s, expected element %s" % (nm, c and (T.show(c[1]) if isinstance(c[1], Lin) else c[1]), T.show(w)))
        readonly(j, s, v, None, "iterating")
    ob("iterator arithmetic", "w_itAdvance", preit, itpost)
    J2 = A(("s", "i2", "i"))

    def precmp(eng):
        st = State()
        sp.gmalloc(eng, st)
        m = sp.mallocobj(eng, st, "M")
        a = sp.new_array(eng, st, "L", "full", m)
        yield "", st, [A(a), I, J2]
    for w, t in (("Eq", lambda d: d == 0), ("Ne", lambda d: d != 0), ("Lt", lambda d: d < 0), ("Le", lambda d: d <= 0), ("Gt", lambda d: d > 0), ("Ge", lambda d: d >= 0)):
        def post(j, s, v, l, t=t, w=w):
            for f, d in j.q.sgn(s.facts, sub(I, J2)):
                if v not in (ZERO, ONE):
                    raise Incomplete("comparison result " + T.show(v))
                if (v == ONE) != t(d):
                    j.bad("iterator", "comparison %s is %s for a %s position" % (w, v == ONE, {-1: "lower", 0: "equal", 1: "higher"}[d]))
            readonly(j, s, v, None, "comparing")
        ob("iterator " + w, "w_it" + w, precmp, post)


def memory(ck, sp, tag):
    """the element helpers every container builds on"""
    esz = sp.esz
    n = A(("s", "n", "u"))
    lo, hi = A(("s", "lo", "u")), A(("s", "hi", "u"))

    def regions(dlive, slive=None, overlap=False, size=None):
        def f(eng):
            st = State()
            size_ = A(("s", "size", "u"))
            d = eng.new_region(st, "input", scale(size_, esz), {"name": "dst", "seq": esz, "triv": sp.triv, "live": size_ if dlive else ZERO})
            st.x["d"], st.x["size"] = d, size_
            yield st, d, size_
        return f

    def ob(name, fn, pre, post):
        def p(eng, label, s, v):
            return judge(sp, s, lambda j: post(j, s))
        ck.obligation("%s %s" % (tag, name), sp, fn, pre, p)

    def prerange(dlive):
        def f(eng):
            for st, d, size in regions(dlive)(eng):
                st.facts = st.facts.with_ge(sub(hi, lo), sub(size, hi))
                yield "", st, [add(A(d), scale(lo, esz)), add(A(d), scale(hi, esz))]
        return f

    def outside(j, s, was):
        d = s.x["d"]
        j.slots(d, ZERO, lo, was, "before the range")
        j.slots(d, hi, s.x["size"], was, "after the range")
    orig = lambda d, sh=ZERO: (lambda j: ("init", d, add(j, sh)))

    def p1(j, s):
        j.slots(s.x["d"], lo, hi, lambda x: ("def",), "constructed range")
        outside(j, s, lambda x: ("raw",))
    ob("constructDefaultElements", "w_mDefault", prerange(False), p1)

    def p2(j, s):
        if not sp.triv:
            j.slots(s.x["d"], lo, hi, lambda x: ("raw",), "destroyed range")
        outside(j, s, orig(s.x["d"]))
    ob("destroyElements", "w_mDestroy", prerange(True), p2)

    def precopy(dlive):
        def f(eng):
            for st, d, size in regions(dlive)(eng):
                s = eng.new_region(st, "input", scale(n, esz), {"name": "src", "seq": esz, "triv": sp.triv, "live": n})
                st.x["s"] = s
                st.facts = st.facts.with_ge(sub(size, n))
                yield "", st, [A(d), A(s), n]
        return f

    def p3(dlive):
        def p(j, s):
            d = s.x["d"]
            j.slots(d, ZERO, n, orig(s.x["s"]), "copied range")
            j.slots(d, n, s.x["size"], orig(d) if dlive else (lambda x: ("raw",)), "after the range")
            j.slots(s.x["s"], ZERO, n, orig(s.x["s"]), "the source")
        return p
    ob("constructCopyElements", "w_mCtorCopy", precopy(False), p3(False))
    ob("copyElements", "w_mCopy", precopy(True), p3(True))
    a, b = A(("s", "to", "u")), A(("s", "from", "u"))

    def premove(eng):
        for nm, fx in (("down", (add(sub(b, a), C(-1)),)), ("up", (add(sub(a, b), C(-1)),)), ("same", (sub(a, b), sub(b, a)))):
            for st, d, size in regions(True)(eng):
                st.facts = st.facts.with_ge(*(fx + (sub(sub(size, a), n), sub(sub(size, b), n))))
                yield nm, st, [add(A(d), scale(a, esz)), add(A(d), scale(b, esz)), n]

    def p4(j, s):
        d = s.x["d"]
        j.slots(d, a, add(a, n), orig(d, sub(b, a)), "moved range")
        # what is neither source nor destination stays
        x = A(("s", "j", "u"))
        for g in ((add(sub(a, x), C(-1)), add(sub(b, x), C(-1))), (sub(x, add(a, n)), sub(x, add(b, n)))):
            f = s.facts.with_ge(*(g + (add(sub(s.x["size"], x), C(-1)),)))
            if f is None:
                continue
            for f1, l in j.q.at_end(f, d, x):
                if l[0] == "unknown":
                    j.q.unknown = True
                    continue
                if not j.same(f1, l, ("init", d, x)):
                    j.bad("content", "an element outside of both ranges became %s" % leaf(l))
    ob("moveElements", "w_mMove", premove, p4)


def main(pid):
    import small, mixed
    ck = Checker(pid, "array.cpp", fallback=lambda rep: small.small(rep, "array") if pid == "A01" else mixed.run(rep))
    mods = [("element", ck.m, False)]
    for tag, elem in (("plain", "uint64"), ("wide", "Wide")):
        m2 = compile_module(os.path.join(VERIF, "witness", "array.cpp"), ["-DWITNESS_MAIN", "-DELEM=" + elem])
        m2.K = {g[2:]: v["init"][2] for g, v in m2.globals.items() if g.startswith("K_") and "init" in v}
        mods.append((tag, m2, True))
    for tag, m, triv in mods:
        ck.m = m
        sp = ArrSpec(m, triv)
        if pid == "A01":
            run(ck, sp, tag)
        else:
            memory(ck, sp, tag)
    return ck


TEXT = {"A01": "array", "A02": "memory"}
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        ck = main(pid)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(2)
    r = ck.rep
    if pid == "A01":
        import small
        small.small(r, "array")
    if pid == "A02":
        import mixed
        mixed.run(r)
    r.rule("each buffer position (one symbolic index) is traced back through all effects of the operation; constructions must meet raw storage, "
           "destructions, assignments and reads live elements; accesses stay inside the allocation; the final content is the specified sequence.")
    finish(r, 30 if pid == "A01" else 5)
