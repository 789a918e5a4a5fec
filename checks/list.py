"""containers/list.h: every operation, on a list of any length, judged on the resulting chain."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.shape import *


def setup(pid):
    import small
    ck = Checker(pid, "list.cpp", fallback=lambda rep: small.small(rep, "list"))
    k = ck.m.K
    lay = {"head": k["head"], "tail": k["tail"], "length": k["length"], "malloc": k["malloc"],
           "next": k["next"], "prev": k["prev"], "data": k["data"], "size": k["nodesz"], "contsize": k["listsz"]}
    return ck, ListSpec(ck.m, lay)


class ListSpec(DLL):
    """adds the allocator that a List owns, and its death"""

    def handler(self, eng, name, dem):
        if dem.startswith("OwnMalloc::"):
            return self.h_own
        return super().handler(eng, name, dem)

    def h_own(self, eng, st, ins, args, dem):
        if "~" in dem:
            st.x["misc"] = ("allocator-dead",) + tuple(args[:1])
        else:
            st.x["misc"] = ("allocator-alive",) + tuple(args[:1])
            for s in eng.store(st, args[0], self.vtable("OpqMalloc"), {"k": "ptr", "sz": 8}, ins):
                st = s
        return [(st, args[0] if "id" in ins else None)]

    def h_alloc(self, eng, st, ins, args, dem):
        if st.x.get("misc", ("",))[0] == "allocator-dead" and st.x["misc"][1] == args[0]:
            eng.finding(st, "dead-allocator", ins, "allocation from an allocator that was destroyed")
        return super().h_alloc(eng, st, ins, args, dem)

    def h_free(self, eng, st, ins, args, dem):
        if st.x.get("misc", ("",))[0] == "allocator-dead" and st.x["misc"][1] == args[0]:
            eng.finding(st, "dead-allocator", ins, "release to an allocator that was destroyed")
        return super().h_free(eng, st, ins, args, dem)


def run(ck, sp):
    eatom = ("R", -1, "elem")
    E = A(eatom)
    VE = A(("op", "val", 64, E))
    DATA = C(sp.L["data"])
    gm = A(("G", "gMalloc"))

    def gmalloc(eng, st):
        """the global default allocator"""
        m = sp.mallocobj(eng, st, "gm")
        g = ("G", "gMalloc")
        st.mem[g] = Region("global", C(8), {"name": "gMalloc"})
        st.own.add(g)
        st.mem[g].cells[0] = (8, A(m))
        return m

    def pre(tokens, args=lambda c, n: [A(c)], extra=None):
        def f(eng):
            st = State()
            gmalloc(eng, st)
            m = sp.mallocobj(eng, st, "M")
            c, n = sp.new_list(eng, st, "L", tokens, m)
            st.x["exp"] = {"L": st.x["tok"]["L"]}
            if extra:
                extra(eng, st, c, n)
            yield "".join(tokens), st, args(c, n)
        return f

    def elem(eng, st, c, n):
        st.mem[eatom] = Region("input", C(8), {"name": "elem"})

    def elem2(eng, st, c, n):
        elem(eng, st, c, n)
        st.mem[("R", -2, "elem2")] = Region("input", C(8), {"name": "elem2"})
    E2 = A(("R", -2, "elem2"))
    VE2 = A(("op", "val", 64, E2))

    def fresh_tail(base, n):
        return

    def post_insert(where, vals, keep=True):
        def post(eng, label, s, v):
            old = s.x["exp"]["L"]
            toks, bad = sp.walk(s, "L")
            new = [t for t in toks if t not in old]
            out = []
            want = sp.flatten(s, old)
            add_ = tuple(("v", x) for x in vals)
            want = want + add_ if where == "back" else tuple(reversed(add_)) + want
            out += sp.check_list(s, "L", None, want)
            if len(new) == 1 and isinstance(v, Lin) and v != add(A(new[0][1]), DATA):
                out.append(("result", "the result does not refer to the new element"))
            for t in new:
                if t[0] == "n" and s.mem[t[1]].size != C(sp.L["size"]):
                    out.append(("alloc", "a node is allocated with %s bytes, it needs %d" % (T.show(s.mem[t[1]].size), sp.L["size"])))
            if keep:
                for e in (E, E2)[:len(vals)]:
                    if sp.value_of(s, e) != A(("op", "val", 64, e)):
                        out.append(("content", "the source element was changed"))
            return out + sp.check_leaks(s, ["L"])
        return post
    for w, f in (("back", "w_pushBack"), ("back", "w_pushBackR"), ("front", "w_pushFront"), ("front", "w_pushFrontR")):
        ck.obligation(f, sp, f, pre(["g"], lambda c, n: [A(c), E], elem), post_insert(w, [VE], not f.endswith("R")))
    for w, f in (("back", "w_pushBack2"), ("front", "w_pushFront2")):
        ck.obligation(f, sp, f, pre(["g"], lambda c, n: [A(c), E, E2], elem2), post_insert(w, [VE, VE2]))

    def post_remove(eng, label, s, v):
        old = s.x["exp"]["L"]
        exp = tuple(t for t in old if not (t[0] == "n" and t[1][2] == "X"))
        return sp.check_list(s, "L", exp) + sp.check_leaks(s, ["L"])
    for f in ("w_remove", "w_removeIt"):
        ck.obligation(f, sp, f, pre(["g", "X", "g"], lambda c, n: [A(c), A(n["X"])]), post_remove)
    ck.obligation("w_removeIt[end]", sp, "w_removeIt", pre(["g"], lambda c, n: [A(c), ZERO]),
                  lambda eng, l, s, v: sp.check_list(s, "L", s.x["exp"]["L"]) + sp.check_leaks(s, ["L"]))

    def post_end(which, out_param):
        def post(eng, label, s, v):
            old = s.x["exp"]["L"]
            if not old:
                exp, want = (), ZERO
            else:
                exp, want = (old[1:] if which == "front" else old[:-1]), ONE
            out = sp.check_list(s, "L", exp)
            if v is not None and v != want:
                out.append(("result", "returns %s, expected %s" % (T.show(v), T.show(want))))
            if out_param:
                got = sp.value_of(s, E)
                if old:
                    x = old[0] if which == "front" else old[-1]
                    if x[0] == "n" and got != A(("op", "val", 64, add(A(x[1]), DATA))):
                        out.append(("result", "the removed element is not handed out"))
                elif got != VE:
                    out.append(("result", "an element is handed out although the list was empty"))
            return out + sp.check_leaks(s, ["L"])
        return post
    for w in ("Back", "Front"):
        ck.obligation("w_remove" + w, sp, "w_remove" + w, pre(["g"]), post_end(w.lower(), False))
        ck.obligation("w_pop" + w, sp, "w_pop" + w, pre(["g"], lambda c, n: [A(c), E], elem), post_end(w.lower(), True))

    ck.obligation("w_empty", sp, "w_empty", pre(["g"]), lambda eng, l, s, v: sp.check_list(s, "L", ()) + sp.check_leaks(s, ["L"]))
    ck.obligation("w_dtor", sp, "w_dtor", pre(["g"]), lambda eng, l, s, v: sp.check_leaks(s, []))

    # the allocator that lives inside the list dies after the links
    def pre_own(eng):
        st = State()
        gmalloc(eng, st)
        c, n = sp.new_list(eng, st, "L", ["g"], None)
        am = add(A(c), C(ck.m.K["autoMalloc"]))
        st.mem[c].cells[sp.L["malloc"]] = (8, am)
        st.mem[c].cells[ck.m.K["autoMalloc"]] = (8, sp.vtable("OpqMalloc"))
        st.x["misc"] = ("allocator-alive", am)
        yield "own allocator", st, [A(c)]
    ck.obligation("w_dtorOwn", sp, "w_dtorOwn", pre_own, lambda eng, l, s, v: sp.check_leaks(s, []) + (
        [] if s.x["misc"][0] == "allocator-dead" else [("lifetime", "the owned allocator is never destroyed")]))

    def raw(eng, st, nm="D"):
        """storage of a list that is not constructed yet"""
        a = eng.new_region(st, "heap", C(sp.L["contsize"]), {"name": nm, "list": nm, "kept": True})
        st.x["cont"] = {**st.x.get("cont", {}), nm: a}
        st.x["tok"] = {**st.x.get("tok", {}), nm: ()}
        return a

    def pre_ctor(eng):
        st = State()
        gmalloc(eng, st)
        m = sp.mallocobj(eng, st, "M")
        a = raw(eng, st)
        st.x["m"] = A(m)
        yield "", st, [A(a), A(m)][:ck.nargs]

    def post_ctor(which):
        def post(eng, label, s, v):
            out = sp.check_list(s, "D", ())
            c = s.mem[s.x["cont"]["D"]].cells
            for o, w in (("head", 8), ("tail", 8), ("length", 8), ("malloc", 8)):
                if sp.L[o] not in c:
                    out.append(("uninit", "the constructor leaves %s unset" % o))
            want = s.mem[("G", "gMalloc")].cells[0][1] if which == "g" else s.x["m"]
            if sp.cont_malloc(s, "D") != want:
                out.append(("ownership", "the list does not use the given allocator"))
            return out
        return post
    ck.nargs = 1
    ck.obligation("w_ctor", sp, "w_ctor", pre_ctor, post_ctor("g"))
    ck.nargs = 2
    ck.obligation("w_ctor_malloc", sp, "w_ctor_malloc", pre_ctor, post_ctor("m"))

    def two(dst, share=True):
        def f(eng):
            st = State()
            gmalloc(eng, st)
            m = sp.mallocobj(eng, st, "M")
            s_, n = sp.new_list(eng, st, "S", ["g"], m)
            if dst is None:
                d = raw(eng, st)
            else:
                m2 = sp.mallocobj(eng, st, "M2")
                d, _ = sp.new_list(eng, st, "D", dst, m2)
            st.x["exp"] = {"S": st.x["tok"]["S"]}
            yield "dst " + str(dst), st, [A(d), A(s_)]
        return f

    def post_copy(eng, label, s, v):
        out = sp.check_list(s, "S", s.x["exp"]["S"])
        ts, bad = sp.walk(s, "S")
        out += sp.check_list(s, "D", None, sp.flatten(s, ts))
        if v is not None and v != A(s.x["cont"]["D"]):
            out.append(("result", "assignment does not return the assigned list"))
        return out + sp.check_leaks(s, ["S", "D"])
    ck.obligation("w_copyCtor", sp, "w_copyCtor", two(None), post_copy)
    ck.obligation("w_ctorIt", sp, "w_ctorIt", two(None), post_copy)
    ck.obligation("w_copyAssign", sp, "w_copyAssign", two(["g"]), post_copy)

    def pre_self(eng):
        for label, st, args in pre(["g"])(eng):
            yield "self", st, args * 2
    ck.obligation("w_copyAssign[self]", sp, "w_copyAssign", pre_self,
                  lambda eng, l, s, v: sp.check_list(s, "L", s.x["exp"]["L"]) + sp.check_leaks(s, ["L"]))

    def post_move(eng, label, s, v):
        out = sp.check_list(s, "D", s.x["exp"]["S"])
        out += sp.check_list(s, "S", ())
        if v is not None and v != A(s.x["cont"]["D"]):
            out.append(("result", "assignment does not return the assigned list"))
        return out + sp.check_leaks(s, ["S", "D"])
    ck.obligation("w_moveCtor", sp, "w_moveCtor", two(None), post_move)
    ck.obligation("w_moveAssign", sp, "w_moveAssign", two(["g"]), post_move)

    # accessors
    def post_get(what):
        def post(eng, label, s, v):
            old = s.x["exp"]["L"]
            out = sp.check_list(s, "L", old)
            want = sp.total(s, old) if what == "length" else (ZERO if not old else A(old[0 if what == "head" else -1][1]))
            if v != want and not s.facts.zero(sub(v, want)):
                out.append(("result", "returns %s, expected %s" % (T.show(v), T.show(want))))
            return out
        return post
    for f, w in (("w_getLength", "length"), ("w_getHead", "head"), ("w_getTail", "tail"), ("w_getHeadM", "head"), ("w_getTailM", "tail")):
        ck.obligation(f, sp, f, pre(["g"]), post_get(w))


def run_iter(ck, sp):
    DATA = C(sp.L["data"])

    def pre(args):
        def f(eng):
            st = State()
            m = sp.mallocobj(eng, st, "M")
            c, n = sp.new_list(eng, st, "L", ["g", "A", "B", "g"], m)
            st.x["exp"] = {"L": st.x["tok"]["L"]}
            for a, w in args(c, n):
                s = st.copy()
                s.x["want"] = w
                yield "", s, a
        return f

    def post(eng, label, s, v):
        if v != s.x["want"]:
            return [("result", "returns %s, expected %s" % (T.show(v) if isinstance(v, Lin) else v, T.show(s.x["want"])))]
        return sp.check_list(s, "L", s.x["exp"]["L"])
    d = lambda a: add(A(a), DATA)
    for f, a, w in (("w_itDeref", "A", "A"), ("w_itArrow", "A", "A"), ("w_itInc", "A", "B"), ("w_itDec", "B", "A"), ("w_itPostInc", "A", "A"),
                    ("w_itPostInc2", "A", "B"), ("w_itPostDec", "B", "B"), ("w_itPostDec2", "B", "A")):
        ck.obligation(f, sp, f, pre(lambda c, n: [([A(n[a])], d(n[w]))]), post)
    for f, eq in (("w_itEq", 1), ("w_itNe", 0)):
        ck.obligation(f, sp, f, pre(lambda c, n: [([A(n["A"]), A(n["B"])], C(1 - eq)), ([A(n["A"]), A(n["A"])], C(eq)), ([A(n["A"]), ZERO], C(1 - eq)), ([ZERO, ZERO], C(eq))]), post)

    def pre_b(end):
        def f(eng):
            st = State()
            m = sp.mallocobj(eng, st, "M")
            c, n = sp.new_list(eng, st, "L", ["A", "g"], m)
            st.x["exp"] = {"L": st.x["tok"]["L"]}
            for x, w in ((A(n["A"]), 0 if end else 1), (ZERO, 1 if end else 0)):
                s = st.copy()
                s.x["want"] = C(w)
                yield "", s, [A(c), x]
        return f
    for f, e in (("w_beginIs", 0), ("w_cbeginIs", 0), ("w_endIs", 1), ("w_cendIs", 1)):
        ck.obligation(f, sp, f, pre_b(e), post)


if __name__ == "__main__":
    ck, sp = setup("L01")
    run(ck, sp)
    run_iter(ck, sp)
    import small
    small.small(ck.rep, "list")
    ck.rep.rule("every operation leaves a chain whose forward and backward links mirror each other, head/tail/length agree, "
                "elements are those the operation promises, and every link is either in a list or was destroyed and released once to its allocator")
    finish(ck.rep, 36)
