"""containers/map.h and containers/pair.h: keyed access on top of the tree's contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ka.tree import *
import tree as TR

E, E2, VE = TR.E, TR.E2, TR.VE
VE2 = A(("op", "val", 64, E2))
P1, P2 = ("R", -3, "p"), ("R", -4, "q")


class MapSpec(TR.TreeSpec):
    def tnode(self, eng, st, nm, owner=None, lab=None):
        a = super().tnode(eng, st, nm, owner, lab)
        st.mem[a].info["objs"] = (self.L["data"], self.L["data"] + self.L["second"])
        return a

    def second(self, a):
        return add(A(a), C(self.L["data"] + self.L["second"]))

    def handler(self, eng, name, dem):
        head = dem[:dem.index("(")] if "(" in dem else dem
        if "Map<" in head.split("::")[0]:
            return None
        return super().handler(eng, name, dem)

    def havoc(self, st):
        hs = [(a, self.obj(st, self.second(a))) for a in st.mem if self.isnode(st, a) and st.mem[a].kind == "heap" and st.mem[a].live is not False]
        super().havoc(st)
        for a, o in hs:
            self.put(st, "obj", self.second(a), o)


def setup(pid):
    import small
    ck = TR.Checker(pid, "map.cpp", fallback=lambda rep: small.small(rep, "map"))
    return ck, MapSpec(ck.m, dict(ck.m.K))


def run_map(ck, sp):
    def more(h):
        def outputs(s, out):
            """element values an operation must not touch"""
            for a in s.mem:
                if sp.isnode(s, a):
                    for addr in (sp.data(a), sp.second(a)):
                        v = s.x.get("val", {}).get(addr)
                        if v is not None and v != A(("op", "val", 64, addr)):
                            yield a, addr, v

        def post_ins(kind, mv=False):
            def f(eng, label, s, v):
                out = []
                if not mv and (sp.value_of(s, E) != VE or sp.value_of(s, E2) != VE2):
                    out.append(("modified", "a given lvalue is moved from"))
                new = h.heaps(s)
                r0 = s.x["start"]
                if not new:
                    d = [a for a in s.mem if sp.isnode(s, a) and v == sp.second(a)]
                    if not d or r0 is None:
                        return out + [("result", "nothing was inserted and the result is no stored value")]
                    d = d[0]
                    if sp.rel(s, A(("op", "val", 64, sp.data(d))), VE) != frozenset("="):
                        out.append(("result", "a pair is used whose key does not match"))
                    for a, addr, x in outputs(s, out):
                        if kind == "insert" and a == d and ((addr == sp.second(d) and x == VE2) or (addr == sp.data(d) and x == VE)):
                            continue
                        out.append(("modified", "a stored %s is changed" % ("key" if addr == sp.data(a) else "value")))
                    if kind == "insert" and sp.value_of(s, sp.second(d)) != VE2:
                        out.append(("content", "the value of an existing key is not replaced"))
                    for a in s.mem:
                        if sp.isnode(s, a) and any(sp.wrote(s, a, g) for g in LINKS + ("color",)):
                            out.append(("modified", "the tree is changed although the key was found"))
                    return out + h.check_count(s, "T", h.size("T", s)) + h.check_root(s, "T")
                if len(new) != 1:
                    return out + [("alloc", "%d nodes are allocated" % len(new))]
                n = new[0]
                if v != sp.second(n):
                    out.append(("result", "the result does not refer to the new value"))
                if sp.value_of(s, sp.data(n)) != VE:
                    out.append(("content", "the new pair does not have the given key"))
                if sp.value_of(s, sp.second(n)) != (VE2 if kind == "insert" else ZERO):
                    out.append(("content", "the new pair does not have the %s value" % ("given" if kind == "insert" else "default")))
                for addr in (sp.data(n), sp.second(n)):
                    if sp.obj(s, addr) is not True:
                        out.append(("lifetime", "the new pair is not constructed"))
                if s.mem[n].size != C(sp.L["size"]):
                    out.append(("alloc", "a node is allocated with %s bytes, it needs %d" % (T.show(s.mem[n].size), sp.L["size"])))
                if (s.mem[n].info or {}).get("owner") != sp.tmalloc(s, "T"):
                    out.append(("ownership", "the node does not come from the map's allocator"))
                if r0 is None:
                    if h.field(s, "T", "root") != A(n):
                        out.append(("root", "the first node does not become the root"))
                    elif sp.color(s, n) != BLACK:
                        out.append(("root-red", "the root is red"))
                    for g in LINKS:
                        if sp.cur(s, n, g) != ZERO:
                            out.append(("links", "%s of the only node is set" % g))
                    return out + h.check_count(s, "T", ONE)
                if n not in s.x.get("inserted", {}):
                    return out + [("links", "the new node is not inserted into the tree")]
                if "at" in s.x and not s.x["searched"]:
                    c, strict, r, l, rr = s.x["at"]
                    if c == r0 and s.x.get("loops"):
                        raise Incomplete("insertion from the root after a search")
                    if not strict or "=" in r:
                        out.append(("placement", "a pair may be added although its key exists"))
                    elif not ((r == {">"} and l == ZERO) or (r == {"<"} and rr == ZERO)):
                        out.append(("placement", "a pair is added before the search for its key ended"))
                return out + h.check_count(s, "T", add(h.size("T", s), ONE)) + h.check_root(s, "T")
            return f

        def pre_ins(n):
            def f(eng):
                for label, st, args in h.pre_ins()(eng):
                    yield label, st, args + ([E2] if n == 2 else [])
            return f
        sp.contracts = h.KINS
        ck.obligation("m_index", sp, "m_index", pre_ins(1), post_ins("index"))
        ck.obligation("m_indexL", sp, "m_indexL", pre_ins(1), post_ins("index"))
        ck.obligation("m_insertL", sp, "m_insertL", pre_ins(2), post_ins("insert"))
        ck.obligation("m_indexR", sp, "m_indexR", pre_ins(1), post_ins("index", True))
        ck.obligation("m_insert", sp, "m_insert", pre_ins(2), post_ins("insert"))

        # ---- removal
        def nothing(s):
            out = h.nothing(s)
            for a, addr, x in outputs(s, out):
                out.append(("modified", "a stored element is changed"))
            return out

        def pair_gone(s):
            out = []
            for a in s.mem:
                if sp.isnode(s, a) and s.mem[a].live is False and sp.obj(s, sp.second(a)) is not False:
                    out.append(("leak", "the value of the released pair is not destroyed"))
            return out

        def moved_value(s):
            """the value that belonged to the removed key"""
            return A(("op", "val", 64, sp.second(s.x["n"].single())))

        def second_ok(s):
            n = s.x["n"].single()
            dead = [a for a in s.mem if sp.isnode(s, a) and s.mem[a].live is False]
            if len(dead) == 1 and dead[0] != n:
                want = A(("op", "val", 64, sp.second(dead[0])))
                if sp.value_of(s, sp.second(n)) != want:
                    return [("content", "a key is separated from its value")]
            return []

        def post_rem(what):
            def f(eng, label, s, v):
                hit = s.x.get("hit")
                if what in ("bool", "pop"):
                    if hit is None or hit[1] == ZERO:
                        if hit is None and s.x["root"].get("T") != ZERO:
                            return [("search", "the key is not looked up")]
                        out = nothing(s) + ([] if v == ZERO else [("result", "a removal is reported although nothing matches")])
                        if what == "pop" and sp.value_of(s, E2) != VE2:
                            out.append(("result", "a value is handed out without a match"))
                        return out
                out = h.post_rem("bool" if what == "pop" else what)(eng, label, s, v) + pair_gone(s)
                if what == "pop":
                    if sp.value_of(s, E2) != moved_value(s):
                        out.append(("result", "the removed value is not handed out"))
                return out + second_ok(s)
            return f

        def pre_key(n, removing=False):
            def f(eng):
                ck.removing = removing
                for label, st, args in h.pre_key(eng):
                    yield label, st, args[:1] + [E, E2][:n]
            return f
        con = {"repairRemoved": h.k_repair, "find": h.k_find, "findMin": h.k_find, "findMax": h.k_find}
        sp.contracts = con
        ck.obligation("m_removeIt", sp, "m_removeIt", h.pre_rem(), post_rem("node"))
        ck.obligation("m_removeIt[end]", sp, "m_removeIt", h.pre_end, lambda eng, l, s, v: nothing(s) + ([] if v == ZERO else [("result", "removing the end iterator gives %s" % T.show(v))]))
        ck.obligation("m_remove", sp, "m_remove", pre_key(1, True), post_rem("bool"))
        ck.obligation("m_pop", sp, "m_pop", pre_key(2, True), post_rem("pop"))

        # ---- look-ups
        any_ = ("find", "findMin", "findMax")
        for f, k, a in (("m_find", any_, 0), ("m_findC", any_, 0), ("m_beginK", ("findMin",), 0), ("m_beginKC", ("findMin",), 0),
                        ("m_endK", ("findMax",), 1), ("m_endKC", ("findMax",), 1)):
            def post(eng, label, s, v, g=h.post_find(k, a)):
                return g(eng, label, s, v) + nothing(s)
            ck.obligation(f, sp, f, pre_key(1), post)

        def post_has(out_):
            def f(eng, label, s, v):
                hit = s.x.get("hit")
                out = nothing(s)
                if hit is None and s.x["root"].get("T") != ZERO:
                    return out + [("search", "the map is not searched")]
                yes = hit is not None and hit[1] != ZERO
                if v != (ONE if yes else ZERO):
                    out.append(("result", "reports %s where a matching key %s" % (T.show(v), "exists" if yes else "does not exist")))
                if out_:
                    want = A(("op", "val", 64, sp.second(hit[1].single()))) if yes else VE2
                    if sp.value_of(s, E2) != want:
                        out.append(("result", "the value of the key is not handed out" if yes else "a value is handed out without a match"))
                return out
            return f
        ck.obligation("m_has", sp, "m_has", pre_key(1), post_has(False))
        ck.obligation("m_findV", sp, "m_findV", pre_key(2), post_has(True))
        sp.contracts = {"getMin": h.k_far, "getMax": h.k_far}
        for f in ("m_begin", "m_beginC"):
            ck.obligation(f, sp, f, pre_key(0), h.post_far("getMin"))
        for f in ("m_end", "m_endC"):
            ck.obligation(f, sp, f, pre_key(0), lambda eng, l, s, v: nothing(s) + ([] if v == ZERO else [("result", "end is not null")]))
        sp.contracts = {}

        def post_count(eng, label, s, v):
            return nothing(s) + ([] if s.facts.zero(sub(v, h.size("T", s))) else [("count", "reports %s pairs" % T.show(v))])
        for f in ("m_count", "m_size", "m_num"):
            ck.obligation(f, sp, f, pre_key(0), post_count)
    TR.run_tree(ck, sp, more)


def run_pair(ck, sp):
    sec = sp.L["second"]

    def pre(kinds):
        def f(eng):
            st = State()
            sp.begin(st)
            args = []
            for a, k in zip((P1, P2), kinds):
                if k == "p":
                    st.mem[a] = Region("input", C(sp.L["pairsz"]), {"name": a[2]})
                elif k == "k":
                    st.mem[a] = Region("input", C(8), {"name": a[2]})
                args.append(A(a))
            yield "", st, args
        return f

    def key(a):
        return A(("op", "val", 64, add(A(a), C(sp.L["first"] if True else 0))))

    def post(op, kinds):
        def f(eng, label, s, v):
            x = A(("op", "val", 64, add(A(P1), C(sp.L["first"] if kinds[0] == "p" else 0))))
            y = A(("op", "val", 64, add(A(P2), C(sp.L["first"] if kinds[1] == "p" else 0))))
            r = sp.rel(s, x, y)
            if not v.const:
                raise Incomplete("undetermined result")
            out = []
            if op == "cmp":
                sg = (v.c & 0xffffffff)
                sg = sg - (1 << 32) if sg >> 31 else sg
                ok = {"<"} if sg < 0 else {">"} if sg > 0 else {"="}
                if not r <= ok:
                    out.append(("order", "compares %d where the keys may be %s" % (sg, "/".join(sorted(r)))))
            else:
                true = {"==": {"="}, "!=": {"<", ">"}, "<": {"<"}, ">": {">"}, "<=": {"<", "="}, ">=": {">", "="}}[op]
                if v.c and not r <= true:
                    out.append(("order", "%s holds where the keys may be %s" % (op, "/".join(sorted(r)))))
                if not v.c and r & true:
                    out.append(("order", "%s fails where the keys may be %s" % (op, "/".join(sorted(r)))))
            if s.x.get("val"):
                out.append(("modified", "a comparison changes an operand"))
            return out
        return f
    for f, op in (("p_eq", "=="), ("p_ne", "!="), ("p_lt", "<"), ("p_gt", ">"), ("p_le", "<="), ("p_ge", ">="), ("p_cmp", "cmp")):
        ck.obligation(f, sp, f, pre("pp"), post(op, "pp"))
    ck.obligation("p_cmpK", sp, "p_cmpK", pre("pk"), post("cmp", "pk"))
    ck.obligation("p_cmpK2", sp, "p_cmpK2", pre("kp"), post("cmp", "kp"))

    def pre_c(eng):
        st = State()
        sp.begin(st)
        r = eng.new_region(st, "heap", C(sp.L["pairsz"]), {"name": "pair", "kept": True})
        st.x["r"] = r
        for a in (TR.EA, TR.EA2):
            TR.elem(st, a)
        yield "", st, [A(r), E, E2]

    def post_c(mv):
        def f(eng, label, s, v):
            out = []
            r = s.x["r"]
            for off, want, src, nm in ((sp.L["first"], VE, E, "key"), (sec, VE2, E2, "value")):
                a = add(A(r), C(off))
                if sp.obj(s, a) is not True or sp.value_of(s, a) != want:
                    out.append(("content", "the %s of the pair is not the given one" % nm))
                moved = sp.value_of(s, src) != want
                if moved != mv:
                    out.append(("modified" if moved else "forward", "the given %s is %s" % (nm, "moved from although it is an lvalue" if moved else "copied although it may be moved")))
            return out
        return f
    ck.obligation("p_ctor", sp, "p_ctor", pre_c, post_c(False))
    ck.obligation("p_ctorL", sp, "p_ctorL", pre_c, post_c(False))
    ck.obligation("p_ctorR", sp, "p_ctorR", pre_c, post_c(True))
    for f, off in (("p_key", sp.L["first"]), ("p_val", sec), ("p_valC", sec)):
        ck.obligation(f, sp, f, pre("p"), lambda eng, l, s, v, off=off: [] if v == add(A(P1), C(off)) else [("result", "gives %s" % T.show(v))])


if __name__ == "__main__":
    pid = sys.argv[1] if len(sys.argv) > 1 else "M01"
    ck, sp = setup(pid)
    run_map(ck, sp)
    run_pair(ck, sp)
    import small
    small.small(ck.rep, "map")
    ck.rep.rule("keyed operations: search-path dataflow with comparison facts decides whether a matching pair exists; results, contents, links, count and pair lifetimes are judged at every exit")
    finish(ck.rep, 14)
