"""containers/tree.h: nodes, rebalancing, threads, search and whole trees."""
import sys, os
from types import SimpleNamespace
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.tree import *

EA = ("R", -1, "elem")
E = A(EA)
VE = A(("op", "val", 64, E))
EA2 = ("R", -2, "elem2")
E2 = A(EA2)


def elem(st, a=EA):
    st.mem[a] = Region("input", C(8), {"name": a[2]})


class TreeSpec(RBT):
    contracts = {}

    def handler(self, eng, name, dem):
        if dem.startswith("BinaryNode<") and self.contracts:
            h = self.contracts.get(short(dem))
            if h:
                return h
        if dem.startswith("OwnMalloc::"):
            return self.h_own
        if dem.startswith("BinaryTree<") and self.contracts:
            h = self.contracts.get("T.%s/%d" % (short(dem), nparams(dem))) or self.contracts.get("T." + short(dem))
            if h:
                return h
        return super().handler(eng, name, dem)

    def h_own(self, eng, st, ins, args, dem):
        if "~" in dem:
            st.x["misc"] = ("allocator-dead",) + tuple(args[:1])
        else:
            st.x["misc"] = ("allocator-alive",) + tuple(args[:1])
            for s in eng.store(st, args[0], self.vtable("OpqMalloc"), {"k": "ptr", "sz": 8}, ins):
                st = s
        return [(st, args[0] if "id" in ins else None)]

    def h_free(self, eng, st, ins, args, dem):
        if st.x.get("misc", ("",))[0] == "allocator-dead" and st.x["misc"][1] == args[0]:
            eng.finding(st, "dead-allocator", ins, "release to an allocator that was destroyed")
        return super().h_free(eng, st, ins, args, dem)


def histories_of(rep, pid):
    import small
    small.small(rep, "tree", steps={"T01": (0, 1, 2, 3, 4, 11), "T03": (10,)}.get(pid))


def setup(pid):
    ck = Checker(pid, "tree.cpp", fallback=lambda rep: histories_of(rep, pid))
    k = ck.m.K
    lay = {f: k[f] for f in ("left", "right", "parent", "next", "prev", "color", "data", "size", "root", "numNodes", "malloc", "treesz")}
    return ck, TreeSpec(ck.m, lay)


def fmt(probs):
    return probs


# ------------------------------------------------------------------ rebalancing and linking
def run_repair(ck, sp):
    def fresh(eng):
        st = State()
        sp.begin(st)
        return st

    # rotations keep the order and the parent links
    def pre_rot(side):
        def f(eng):
            st = fresh(eng)
            n = sp.tnode(eng, st, "n")
            sp.put(st, "deep", (n, side), "node")
            st.x["n"] = A(n)
            yield "", st, [A(n)]
        return f

    def post_rot(side):
        opp = {"left": "right", "right": "left"}[side]

        def post(eng, label, s, v):
            n = s.x["n"].single()
            bad = []
            want = sp.seq_pre(s, sp.pretop(s, n))
            top = sp.curtop(s, n, bad)
            if not bad:
                seq = sp.seq_cur(s, top, bad)
            if bad:
                return bad
            if seq != want:
                bad.append(("order", "the in-order sequence is %s, expected %s" % (sp.show(seq), sp.show(want))))
            p = sp.pre(s, n, side)
            if sp.cur(s, p.single(), opp) != A(n):
                bad.append(("links", "the rotation does not bring the %s child up" % side))
            bad += sp.check_threads(eng, s, lambda a, f, p: None)
            return bad
        return post
    sp.tail = None
    ck.obligation("w_rotateLeft", sp, "w_rotateLeft", pre_rot("right"), post_rot("right"))
    ck.obligation("w_rotateRight", sp, "w_rotateRight", pre_rot("left"), post_rot("left"))

    # repair after insertion: node is red, everything else is in order except node and its parent may both be red
    def pre_ins(eng):
        st = fresh(eng)
        n = sp.tnode(eng, st, "n")
        st.x["exempt"] = n
        sp.setcolor(st, n, RED)
        st.x["n"] = A(n)
        yield "", st, [A(n)]

    def unchanged(eng, s, start, ok_red=None, lack=None, down=False):
        want = sp.seq_pre(s, sp.pretop(s, start))
        return sp.check_tree(s, start, want, ok_red=ok_red, lack=lack, down=down) + sp.check_threads(eng, s, lambda a, f, p: None)

    def tail_ins(eng, s, what):
        if what[0] != "I":
            return [("contract", "the wrong repair is started")]
        g = what[1]
        if sp.color(s, g) != RED:
            return [("contract", "repair continues at %s which is not red" % T.show_atom(g))]
        out = unchanged(eng, s, s.x["n"].single(), ok_red=g)
        if not out and g == s.x["n"].single():
            out.append(("contract", "repair makes no progress"))
        return out

    def post_ins(eng, label, s, v):
        if s.x.get("hv"):
            return []
        return unchanged(eng, s, s.x["n"].single())
    sp.tail = tail_ins
    ck.obligation("w_repairInserted", sp, "w_repairInserted", pre_ins, post_ins)

    # repair after removal: the slot that holds node is one black short
    def pre_rem(eng):
        for side in ("left", "right"):
            for null in (True, False):
                st = fresh(eng)
                p = sp.tnode(eng, st, "p")
                if null:
                    sp.setpre(st, p, side, ZERO)
                    if not sp.eq(st, st.x["H"][p], ONE):
                        continue
                    st.x["deficit"] = (p, side)
                    st.x["at"] = (A(p), side)
                    yield "null %s child" % side, st, [ZERO, A(p)]
                else:
                    n = sp.tnode(eng, st, "n")
                    st.x["exempt"], st.x["exempt_down"] = n, True
                    st.x["deficit"] = (p, side)
                    sp.setpre(st, p, side, A(n))
                    sp.setpre(st, n, "parent", A(p))
                    if not sp.eq(st, st.x["H"][p], add(sp.bh(st, n), ONE)):
                        continue
                    st.x["at"] = (A(p), side)
                    yield "%s child" % side, st, [A(n), A(p)]
        st = fresh(eng)
        n = sp.tnode(eng, st, "n")
        st.x["exempt"], st.x["exempt_down"] = n, True
        sp.setpre(st, n, "parent", ZERO)
        st.x["at"] = (A(n), None)
        yield "root", st, [A(n), ZERO]
        st = fresh(eng)
        st.x["at"] = (None, None)
        yield "empty", st, [ZERO, ZERO]

    def tail_rem(eng, s, what):
        if what[0] != "R":
            return [("contract", "the wrong repair is started")]
        n, p = what[1], what[2]
        if n == ZERO:
            return [("contract", "repair continues at a missing node")]
        nn = n.single()
        if sp.cur(s, nn, "parent") != p and not (sp.cur(s, nn, "parent") is None):
            return [("contract", "repair continues with a node and %s, which is not its parent" % T.show(p))]
        if p == ZERO:
            return unchanged(eng, s, nn, ok_red=nn, down=True)
        pn = p.single()
        side = "left" if sp.cur(s, pn, "left") == n else "right"
        out = []
        # below and at nn the tree is in order and one black short of what its slot had
        want = sp.seq_pre(s, sp.pretop(s, nn))
        out += sp.check_tree(s, nn, want, ok_red=nn, lack=(pn, side), down=True)
        if nn == s.x["at"][0].single() and s.x["at"][1] is None:
            out.append(("contract", "repair makes no progress"))
        return out + sp.check_threads(eng, s, lambda a, f, p: None)

    def post_rem(eng, label, s, v):
        if s.x.get("hv") or s.x["at"][0] is None:
            return []
        # after the repair nothing is short any more
        start = s.x["at"][0].single()
        keep, s.x["deficit"] = s.x.get("deficit"), s.x.get("deficit")
        want = sp.seq_pre(s, sp.pretop(s, start))
        out = sp.check_tree(s, start, want, ok_top=False) if s.x["at"][1] else sp.check_tree(s, start, want)
        return out + sp.check_threads(eng, s, lambda a, f, p: None)
    sp.tail = tail_rem
    ck.obligation("w_repairRemoved", sp, "w_repairRemoved", pre_rem, post_rem)



# ------------------------------------------------------------------ insertion and removal of nodes
def detached(eng, sp, st, nm="new"):
    n = sp.tnode(eng, st, nm)
    r = st.mem[n]
    for f in LINKS:
        r.cells[sp.L[f]] = (8, ZERO)
    r.cells[sp.L["color"]] = (1, C(RED))
    return n


def run_nodes(ck, sp):
    def pre(eng):
        st = State()
        sp.begin(st)
        t = sp.tnode(eng, st, "t")
        n = detached(eng, sp, st)
        st.x["t"], st.x["n"] = A(t), A(n)
        st.x["start"] = t
        st.x["keyval"] = sp.value_of(st, sp.data(n))
        yield "", st, [A(t), A(n)]

    def threads_with(s, n):
        """expected threads once n sits next to its tree neighbour"""
        p = sp.cur(s, n, "parent")
        return p

    def linked(eng, s, t, n, strict, down=None):
        """n hangs below t as a leaf next to it, order and threads included"""
        out = []
        if s.x.get("loops"):
            # a loop walked down: the node it hung n below must lie on the search path
            p = sp.cur(s, n, "parent")
            if p is None or p == ZERO or p.single() not in s.mem or ("pathS" if strict else "path") not in sp.flags(s, p.single()):
                raise Incomplete("search path lost in a loop")
            t = p.single()
        if s.x.get("side") is None:
            # where it was hung is read off the in-order sequence
            bad = []
            top = sp.curtop(s, n, bad)
            seq = sp.seq_cur(s, top, bad) if not bad else []
            if bad:
                return bad
            base = sp.seq_pre(s, sp.pretop(s, t))
            at = seq.index(("n", n)) if ("n", n) in seq else None
            if at is None or [x for x in seq if x != ("n", n)] != base:
                return [("order", "after the insertion the in-order sequence is %s, before it was %s" % (sp.show(seq), sp.show(base)))]
            left = seq[at - 1] if at else None
            right = seq[at + 1] if at + 1 < len(seq) else None
            r = sp.rel(s, sp.value_of(s, sp.data(t)), s.x["keyval"])
            if right == ("n", t):
                side = "left"
                if not r <= ({">"} if strict else {">", "="}):
                    out.append(("placement", "the new node goes before a node that is not known to be greater (%s)" % "".join(sorted(r))))
            elif left == ("n", t):
                side = "right"
                if not r <= ({"<"} if strict else {"<", "="}):
                    out.append(("placement", "the new node goes after a node that is not known to be smaller (%s)" % "".join(sorted(r))))
            else:
                return [("placement", "the new node is not next to the node it was compared with")]
            out += sp.check_tree(s, n, seq, ok_red=down)
            # threads: n between t and its old neighbour
            a, b = ("prev", "next") if side == "left" else ("next", "prev")
            nb = None
            states = sp.get_thread(eng, s.copy(), t, a) if sp.pre(s, t, a) is None else [(s, sp.pre(s, t, a))]
            for s2, v in states:
                def expect(x, f, p):
                    if x == n:
                        return A(t) if f == b else v
                    if x == t and f == a:
                        return A(n)
                    if v != ZERO and x == v.single() and f == b:
                        return A(n)
                    return None
                out += sp.check_threads(eng, s2, expect)
        return out

    def tail(strict):
        def f(eng, s, what):
            if what[0] != "I":
                return [("contract", "the wrong repair is started")]
            if sp.color(s, what[1]) != RED:
                return [("contract", "repair continues at a node that is not red")]
            s.x["linked"] = True
            return linked(eng, s, s.x["t"].single(), s.x["n"].single(), strict, what[1])
        return f

    def rec_insert(name):
        def f(eng, st, ins, args):
            c, n = args[0].single(), args[1]
            strict = name == "insertUnique"
            t = st.x["t"].single()
            fl = sp.flags(st, c)
            if n != st.x["n"]:
                eng.finding(st, "contract", ins, "descends with another node")
            elif (("pathS" if strict else "path") not in fl) or c == t:
                eng.finding(st, "placement", ins, "descends into a subtree where the new node does not belong")
            sp.havoc(st)
            st.x["linked"] = True
            st.x["rec"] = True
            v = A(("s", "inserted%d" % eng.bump(), "p"))
            st.x["recv"] = v
            return [(st, v if strict else n)]
        return f

    def post(strict):
        def f(eng, label, s, v):
            n, t = s.x["n"], s.x["t"]
            out = []
            if s.x.get("rec"):
                want = s.x["recv"] if strict else n
                if v != want:
                    out.append(("result", "the result is not the one of the subtree"))
                return out
            r = sp.rel(s, sp.value_of(s, sp.data(t.single())), s.x["keyval"])
            if strict and r == frozenset("="):
                if v != t:
                    out.append(("result", "a duplicate is found but not returned"))
                return out + sp.check_tree(s, t.single(), sp.seq_pre(s, sp.pretop(s, t.single()))) + sp.check_threads(eng, s, lambda a, f, p: None)
            if v != n:
                out.append(("result", "the inserted node is not returned"))
            if s.x.get("hv"):
                return out if s.x.get("linked") else out + [("contract", "repair without insertion")]
            return out + linked(eng, s, t.single(), n.single(), strict)
        return f
    for nm, strict in (("insert", False), ("insertUnique", True)):
        sp.recursion = {nm: rec_insert(nm)}
        sp.tail = tail(strict)
        sp.contracts = {"repairInserted": lambda eng, st, ins, args, dem: sp.rec_repairInserted(eng, st, ins, args)}
        ck.obligation("w_" + nm, sp, "w_" + nm, pre, post(strict))
    sp.recursion, sp.contracts = {}, {}

    # ---- removal
    def pre_rem(eng):
        st = State()
        sp.begin(st)
        t = sp.tnode(eng, st, "t")
        st.x["t"] = A(t)
        v = eng.new_region(st, "input", C(8), {"name": "out"})
        st.x["out"] = A(v)
        yield "", st, [A(t), A(v)]

    def removed_ok(eng, s, e, whole):
        """node e left the tree; t's value is gone and every other value kept its place"""
        t = s.x["t"].single()
        out = []
        res = []
        for s1, nx in sp.get(eng, s.copy(), e, "next"):
            for s2, pv in sp.get(eng, s1, e, "prev"):
                res.append((s2, nx, pv))
        for s2, nx, pv in res:
            def expect(x, f, p):
                if x == e:
                    return sp.cur(s2, x, f)
                if nx != ZERO and x == nx.single() and f == "prev":
                    return pv
                if pv != ZERO and x == pv.single() and f == "next":
                    return nx
                return None
            out += sp.check_threads(eng, s2, expect)
        vt = sp.value_of(s, sp.data(t))
        if e == t:
            moved = [a for a in s.x.get("val", {}) if sp.value_of(s, a) != A(("op", "val", 64, a)) and a != sp.data(t)]
            if moved:
                out.append(("content", "other elements changed their value"))
        else:
            if sp.pre(s, t, "next") != A(e) and sp.pre(s, t, "prev") != A(e):
                raise Incomplete("evicts a node that is no neighbour")
            if vt != A(("op", "val", 64, sp.data(e))):
                out.append(("content", "the evicted node's value is not kept in its neighbour"))
        return out

    def shape_after(eng, s, e, lack, down):
        out = []
        tops = []
        t = s.x["t"].single()
        for x in (t, e):
            p = sp.pretop(s, x)
            if p not in tops:
                tops.append(p)
        for p in tops:
            want = [y for y in sp.seq_pre(s, p) if y != ("n", e)]
            # tokens of the evicted node are empty slots
            if p == e and not want:
                continue
            start = p
            if p == e:
                c = [y for y in want if y[0] == "n"]
                if not c:
                    out.append(("order", "the evicted node's subtree is lost"))
                    continue
                start = c[0][1]
            bad = []
            ex = s.x.get("exempt_top")
            out += sp.check_tree(s, start, want, ok_red=down, lack=lack, ok_top=False, down=True)
        return out

    def tail_rem(eng, s, what):
        if what[0] != "R":
            return [("contract", "the wrong repair is started")]
        return []

    def enter_repair(eng, st, ins, args, dem):
        """repairRemoved is used through its contract"""
        v, p = args
        e = None
        t = st.x["t"].single()
        # the evicted node: linked before, not linked now
        cands = [a for a in st.mem if sp.isnode(st, a) and (st.mem[a].info or {}).get("tnode") and not st.x["lab"].get(a) == "new"]
        ev = []
        for a in cands:
            pp = sp.pre(st, a, "parent")
            if pp is None:
                continue
            if pp == ZERO:
                q = [b for b in cands if b != a and sp.cur(st, b, "parent") == ZERO and sp.pre(st, b, "parent") != ZERO]
                if q or (v == ZERO and p == ZERO):
                    ev.append(a)
            else:
                for side in ("left", "right"):
                    if sp.pre(st, pp.single(), side) == A(a) and sp.cur(st, pp.single(), side) != A(a):
                        ev.append(a)
        if len(ev) != 1:
            eng.finding(st, "contract", ins, "repair is started while %d nodes are unlinked" % len(ev))
            sp.havoc(st)
            st.x["repaired"] = True
            return [(st, None)]
        e = ev[0]
        pe = sp.pre(st, e, "parent")
        out = []
        if p != pe:
            out.append(("contract", "repair is started at parent %s, the node was removed below %s" % (T.show(p), T.show(pe))))
        slot = ZERO
        if pe != ZERO:
            side = "left" if sp.pre(st, pe.single(), "left") == A(e) else "right"
            slot = sp.cur(st, pe.single(), side)
        else:
            slot = v
        if slot != v:
            out.append(("contract", "repair is started at %s, but %s took the removed node's place" % (T.show(v), T.show(slot))))
        if sp.color(st, e) != BLACK:
            # one short only if a black node went away
            out.append(("contract", "repair is started although the removed node was not black"))
        if not out:
            lack = (pe.single(), side) if pe != ZERO else None
            out += shape_after(eng, st, e, lack, v.single() if v != ZERO else None)
            out += removed_ok(eng, st, e, True)
        for r, x in out:
            eng.finding(st, r, ins, x)
        st.x["evict"] = A(e)
        st.x["repaired"] = True
        st.x["prelinks"] = dict(st.x["pre"])
        sp.havoc(st)
        return [(st, None)]

    def post_rem(with_out):
        def f(eng, label, s, v):
            out = []
            e = v.single() if isinstance(v, Lin) else None
            if e is None or e not in s.mem:
                return [("result", "the evicted node is not returned")]
            t = s.x["t"].single()
            if s.x.get("repaired"):
                if s.x["evict"] != v:
                    out.append(("result", "the returned node is not the one that left the tree"))
                e = s.x["evict"].single()
                wantnext = s.x["prelinks"].get((t, "next"))
            else:
                # no repair: the node that left must have been red
                if sp.pre(s, e, "color") is None or sp.pre(s, e, "color").c != RED:
                    out.append(("black-height", "a node that may be black is removed without repair"))
                out += shape_after(eng, s, e, None, None)
                out += removed_ok(eng, s, e, True)
                wantnext = sp.pre(s, t, "next")
            if with_out:
                c = s.mem[s.x["out"].single()].cells.get(0)
                # the node that now holds the successor of the removed value
                want = A(t) if e != t and wantnext == A(e) else wantnext
                if c is None:
                    out.append(("result", "the next valid node is not handed out"))
                elif want is None:
                    raise Incomplete("successor never looked at")
                elif c[1] != want:
                    out.append(("result", "the next valid node is %s, expected %s" % (T.show(c[1]), T.show(want))))
            return out
        return f
    sp.tail = None
    sp.contracts = {"repairRemoved": enter_repair}
    ck.obligation("w_removeV", sp, "w_removeV", pre_rem, post_rem(True))
    ck.obligation("w_remove", sp, "w_remove", lambda eng: ((a, b, c[:1]) for a, b, c in pre_rem(eng)), post_rem(False))
    sp.contracts = {}



# ------------------------------------------------------------------ searching and walking
def run_search(ck, sp):
    def base(eng, key=True):
        st = State()
        sp.begin(st)
        t = sp.tnode(eng, st, "t")
        st.x["t"], st.x["start"] = A(t), t
        if key:
            elem(st)
            st.x["keyval"] = VE
        return st, t

    def quiet(eng, s):
        """nothing was written to the tree"""
        out = []
        for a in s.mem:
            if sp.isnode(s, a) and any(sp.wrote(s, a, f) for f in LINKS + ("color",)):
                out.append(("modified", "the search changes node %s" % T.show_atom(a)))
        for a, v in s.x.get("val", {}).items():
            if v != A(("op", "val", 64, a)):
                out.append(("modified", "the search changes an element"))
        return out

    def rec_find(eng, st, ins, args):
        c = args[0].single()
        if args[1] != E:
            eng.finding(st, "contract", ins, "searches for another key")
        if "pathS" not in sp.flags(st, c):
            eng.finding(st, "search", ins, "descends into a subtree that cannot hold the key")
        if c == st.x["start"]:
            eng.finding(st, "search", ins, "the search does not descend")
        s2 = st.copy()
        r = sp.tnode(eng, st, "hit")
        v = sp.value_of(st, sp.data(r))
        key, rel = (v, VE), frozenset("=")
        if aidkey_(VE) < aidkey_(v):
            key = (VE, v)
        st.facts = Facts(st.facts.ge, st.facts.ne, {**st.facts.rel, key: rel})
        st.x["rec"] = A(r)
        s2.x["rec"] = ZERO
        return [(st, A(r)), (s2, ZERO)]

    def post_find(eng, label, s, v):
        out = quiet(eng, s)
        if v == ZERO:
            if s.x.get("rec") == ZERO:
                return out
            # a node on the strict search path without the child where the key would be
            for a in list(s.mem):
                if sp.isnode(s, a) and "pathS" in sp.flags(s, a):
                    r = sp.rel(s, sp.value_of(s, sp.data(a)), VE)
                    if (r == {"<"} and sp.pre(s, a, "right") == ZERO) or (r == {">"} and sp.pre(s, a, "left") == ZERO):
                        return out
            if s.x.get("loops"):
                raise Incomplete("miss not explained")
            return out + [("search", "reports a miss although the key may be in the tree")]
        n = v.single()
        if n is None or n not in s.mem or sp.rel(s, sp.value_of(s, sp.data(n)), VE) != frozenset("="):
            out.append(("search", "returns a node that is not known to match the key"))
        return out

    def pre_key(eng):
        st, t = base(eng)
        yield "", st, [A(t), E]
    sp.recursion = {"find": rec_find}
    ck.obligation("w_find", sp, "w_find", pre_key, post_find)
    ck.obligation("w_findM", sp, "w_findM", pre_key, post_find)

    def post_ext(th):
        def f(eng, label, s, v):
            out = post_find(eng, label, s, v)
            if v == ZERO or out:
                return out
            n = v.single()
            p = sp.pre(s, n, th)
            if p is None:
                return out + [("search", "stops before the last matching node")]
            if p != ZERO and "=" in sp.rel(s, sp.value_of(s, sp.data(p.single())), VE):
                out.append(("search", "the %s node may match the key too" % th))
            return out
        return f
    ck.obligation("w_findMin", sp, "w_findMin", pre_key, post_ext("prev"))
    ck.obligation("w_findMax", sp, "w_findMax", pre_key, post_ext("next"))
    sp.recursion = {}

    def pre_t(eng):
        st, t = base(eng, False)
        yield "", st, [A(t)]

    def post_far(side):
        def f(eng, label, s, v):
            out = quiet(eng, s)
            n = v.single() if isinstance(v, Lin) else None
            if n is None or n not in s.mem or not sp.is_far(s, n, s.x["start"], side):
                if s.x.get("loops") and n is not None and n in s.mem and ("spine" + side not in sp.flags(s, n) or sp.cur(s, n, side) is None):
                    raise Incomplete("spine lost in a loop")
                out.append(("search", "the result is not the %smost node" % side))
            return out
        return f
    for f, side in (("w_getMin", "left"), ("w_getMax", "right"), ("w_getMinC", "left"), ("w_getMaxC", "right")):
        ck.obligation(f, sp, f, pre_t, post_far(side))

    def rec_root(eng, st, ins, args):
        a = args[0].single()
        r = sp.rec_getRoot(eng, st, ins, args)
        st.x["topof"] = (a, r[0][1])
        return r

    def post_root(eng, label, s, v):
        out = quiet(eng, s)
        t = s.x["start"]
        top = sp.pretop(s, t)
        if v == A(top) and sp.pre(s, top, "parent") == ZERO:
            return out
        if s.x.get("topof") and s.x["topof"][1] == v:
            x = t
            while x is not None:
                if x == s.x["topof"][0] and x != t:
                    return out
                p = sp.pre(s, x, "parent")
                x = p.single() if p is not None and p != ZERO else None
        if s.x.get("loops"):
            raise Incomplete("path to the root lost in a loop")
        return out + [("search", "the result is not the root")]
    sp.recursion = {"getRoot": rec_root}
    ck.obligation("w_getRoot", sp, "w_getRoot", pre_t, post_root)
    ck.obligation("w_getRootC", sp, "w_getRootC", pre_t, post_root)

    def rec_size(eng, st, ins, args):
        return [(st, ZERO if args[0] == ZERO else A(("op", "treesize", 64, args[0])))]

    def post_size(eng, label, s, v):
        t = s.x["start"]
        want = ONE
        for side in ("left", "right"):
            c = sp.pre(s, t, side)
            if c is None:
                return [("count", "the %s subtree is not counted" % side)]
            if c != ZERO:
                want = add(want, A(("op", "treesize", 64, c)))
        if v != want:
            return quiet(eng, s) + [("count", "counts %s, expected %s" % (T.show(v), T.show(want)))]
        return quiet(eng, s)
    sp.recursion = {"getTreeSize": rec_size, "getNumNodes": rec_size}
    sp.nullok = {"getTreeSize"}
    ck.obligation("w_size", sp, "w_size", pre_t, post_size)
    sp.recursion, sp.nullok = {}, set()

    # a new node stands alone and is red
    def pre_node(eng):
        st = State()
        sp.begin(st)
        a = eng.new_region(st, "heap", C(sp.L["size"]), {"name": "new", "kept": True})
        elem(st)
        st.x["n"] = A(a)
        yield "", st, [A(a), E]

    def post_node(eng, label, s, v):
        n = s.x["n"].single()
        out = []
        for f in LINKS:
            if sp.cur(s, n, f) != ZERO:
                out.append(("init", "%s of a new node is not null" % f))
        if sp.color(s, n) != RED:
            out.append(("init", "a new node is not red"))
        if sp.value_of(s, sp.data(n)) != VE:
            out.append(("content", "the new node does not hold the given element"))
        if sp.obj(s, sp.data(n)) is not True:
            out.append(("content", "the element of the new node is not constructed"))
        return out
    ck.obligation("w_node", sp, "w_node", pre_node, post_node)

    # iterators
    def pre_it(n2=False):
        def f(eng):
            st, t = base(eng, False)
            yield "", st, [A(t)]
        return f

    def post_it(what):
        def f(eng, label, s, v):
            t = s.x["start"]
            out = quiet(eng, s)
            want = {"data": sp.data(t), "self": A(t)}.get(what)
            if want is None:
                want = sp.pre(s, t, what)
            if v != want:
                out.append(("iterator", "gives %s, expected %s" % (T.show(v), T.show(want) if want is not None else "the " + what + " link")))
            return out
        return f
    for f, w in (("i_deref", "data"), ("i_arrow", "data"), ("i_derefC", "data"), ("i_inc", "next"), ("i_dec", "prev"), ("i_pinc", "self"),
                 ("i_pinc2", "next"), ("i_pdec", "self"), ("i_pdec2", "prev"), ("i_conv", "self")):
        ck.obligation(f, sp, f, pre_it(), post_it(w))

    def pre_eq(eng):
        for same in (0, 1, 2, 3):
            st, t = base(eng, False)
            u = sp.tnode(eng, st, "u")
            st.x["same"] = same
            yield "", st, [A(t), (A(u), A(t), ZERO)[same]] if same < 3 else [ZERO, ZERO]
    for f, e in (("i_eq", 1), ("i_ne", 0)):
        ck.obligation(f, sp, f, pre_eq, lambda eng, l, s, v: [] if v == C(e if s.x["same"] in (1, 3) else 1 - e) else [("iterator", "equality of iterators is not equality of nodes")])


# ------------------------------------------------------------------ whole trees
def run_tree(ck, sp, more=None):
    obligation = (lambda *a, **k: None) if more else ck.obligation
    gatom = ("G", "gMalloc")

    def fresh(eng):
        st = State()
        sp.begin(st)
        m = sp.mallocobj(eng, st, "gm")
        st.mem[gatom] = Region("global", C(8), {"name": "gMalloc"})
        st.own.add(gatom)
        st.mem[gatom].cells[0] = (8, A(m))
        elem(st)
        elem(st, EA2)
        return st

    def withtree(eng, st, nm="T"):
        m = sp.mallocobj(eng, st, "M" + nm)
        return sp.new_tree(eng, st, nm, m)

    def field(s, nm, f):
        """current value of a container field; None when untouched"""
        c = s.mem[s.x["cont"][nm]].cells.get(sp.L[f])
        return c[1] if c is not None else None

    def cfield(eng, s, nm, f):
        v = field(s, nm, f)
        if v is not None:
            return v
        if f == "root":
            return s.x["root"].get(nm)
        return None

    def size(nm, s):
        return ZERO if s.x["root"].get(nm) == ZERO else A(("s", "|%s|" % nm, "u"))

    def pre0(s, nm):
        return s.x["root0"].get(nm) if "root0" in s.x else s.x["root"].get(nm)

    def check_count(s, nm, want):
        v = field(s, nm, "numNodes")
        if v is None:
            v = size(nm, s)
        if not s.facts.zero(sub(v, want)):
            return [("count", "the number of nodes is %s, expected %s" % (T.show(v), T.show(want)))]
        return []

    def check_root(s, nm):
        r = cfield(None, s, nm, "root")
        if r is None or r == ZERO:
            return []
        n = r.single() if isinstance(r, Lin) else None
        if n is None or n not in s.mem or not sp.isnode(s, n):
            return [("root", "the root is %s" % T.show(r))]
        if s.mem[n].live is False:
            return [("root", "the root was released")]
        if sp.cur(s, n, "parent") != ZERO:
            return [("root", "the root may have a parent")]
        return []

    def cont_of(eng, st, a):
        for nm, c in st.x["cont"].items():
            if A(c) == a:
                return nm

    # contract of BinaryNode::insert on an attached tree
    def k_insert(eng, st, ins, args, dem):
        uniq = "insertUnique" in dem
        c, n = args[0].single(), args[1].single()
        if c is None or c not in st.mem:
            if args[0] == ZERO:
                eng.finding(st, "null-deref", ins, "insertion into an empty tree")
                eng.drop(st)
                return []
            raise Incomplete("insertion at a computed node")
        if n is None or st.mem[n].kind != "heap" or n in st.x.get("inserted", {}):
            eng.finding(st, "contract", ins, "the inserted node is not a new one")
        else:
            if any(sp.cur(st, n, f) != ZERO for f in LINKS) or sp.color(st, n) != RED or sp.obj(st, sp.data(n)) is not True:
                eng.finding(st, "contract", ins, "the inserted node is not a detached red node with an element")
        kv = sp.value_of(st, sp.data(n))
        if kv != st.x.get("keyval"):
            eng.finding(st, "content", ins, "the inserted element is not the given one")
        fl = sp.flags(st, c)
        if "path" not in fl:
            eng.finding(st, "placement", ins, "the element is inserted below a node that is not on its search path")
        st.x["at"] = (c, "pathS" in fl, sp.rel(st, sp.value_of(st, sp.data(c)), kv), sp.pre(st, c, "left"), sp.pre(st, c, "right"))
        st.x["searched"] = any(sp.isnode(st, a) and "pathS" in sp.flags(st, a) and (
            (sp.rel(st, sp.value_of(st, sp.data(a)), kv) == {"<"} and sp.pre(st, a, "right") == ZERO) or
            (sp.rel(st, sp.value_of(st, sp.data(a)), kv) == {">"} and sp.pre(st, a, "left") == ZERO)) for a in list(st.mem))
        st.x["inserted"] = {**st.x.get("inserted", {}), n: True}
        if uniq:
            s2 = st.copy()
            st.x["dup"] = False
            s2.x["dup"] = True
            d = sp.tnode(eng, s2, "dup")
            s2.x["inserted"] = {}
            sp.havoc(st)
            return [(st, args[1]), (s2, A(d))]
        st.x["root0"] = dict(st.x["root"])
        sp.havoc(st)
        return [(st, args[1])]
    KINS = {"insert": k_insert, "insertUnique": k_insert}

    def pre_ins(n=1):
        def f(eng):
            st = fresh(eng)
            c = withtree(eng, st)
            st.x["keyval"] = VE
            # the root is looked up first so that search paths start there
            for s, r in sp.mat_tree(eng, st, c, "T", sp.L["root"]):
                s.x["start"] = r.single() if r != ZERO else None
                yield "empty" if r == ZERO else "", s, [A(c), E]
        return f

    def heaps(s):
        return [a for a in s.mem if s.x["lab"].get(a) != "clone" and s.mem[a].live and ((s.mem[a].info or {}).get("name") == "blk")]

    def post_ins(kind):
        def f(eng, label, s, v):
            out = []
            new = heaps(s)
            r0 = s.x["start"]
            found = None
            if kind != "insert" and not new:
                # the key was there: a node whose value equals it, unchanged tree
                d = [a for a in s.mem if sp.isnode(s, a) and v == sp.data(a)]
                if not d or r0 is None:
                    return [("result", "nothing was inserted and no existing element is returned")]
                d = d[0]
                if kind == "insertUnique":
                    if sp.rel(s, sp.value_of(s, sp.data(d)), VE) != frozenset("="):
                        out.append(("result", "the element is dropped although the existing one does not match it"))
                else:
                    orig = A(("op", "val", 64, sp.data(d)))
                    if sp.value_of(s, sp.data(d)) != VE:
                        out.append(("content", "the element is not replaced"))
                    if sp.rel(s, orig, VE) != frozenset("="):
                        out.append(("result", "an element that does not match is replaced"))
                for a in s.mem:
                    if sp.isnode(s, a) and any(sp.wrote(s, a, g) for g in LINKS + ("color",)):
                        out.append(("modified", "the tree is changed although the element was found"))
                return out + check_count(s, "T", size("T", s)) + check_root(s, "T")
            if len(new) != 1:
                return [("alloc", "%d nodes are allocated" % len(new))]
            n = new[0]
            if v != sp.data(n):
                out.append(("result", "the result does not refer to the inserted element"))
            if sp.value_of(s, sp.data(n)) != VE:
                out.append(("content", "the inserted element is not the given one"))
            if s.mem[n].size != C(sp.L["size"]):
                out.append(("alloc", "a node is allocated with %s bytes, it needs %d" % (T.show(s.mem[n].size), sp.L["size"])))
            if (s.mem[n].info or {}).get("owner") != sp.tmalloc(s, "T"):
                out.append(("ownership", "the node does not come from the tree's allocator"))
            if r0 is None:
                if field(s, "T", "root") != A(n):
                    out.append(("root", "the first node does not become the root"))
                elif sp.color(s, n) != BLACK:
                    out.append(("root-red", "the root is red"))
                for g in LINKS:
                    if sp.cur(s, n, g) != ZERO:
                        out.append(("links", "%s of the only node is set" % g))
                return out + check_count(s, "T", ONE)
            if n not in s.x.get("inserted", {}):
                out.append(("links", "the new node is not inserted into the tree"))
                return out
            if kind != "insert" and "at" in s.x and not s.x["searched"]:
                c, strict, r, l, rr = s.x["at"]
                if c == r0 and s.x.get("loops"):
                    raise Incomplete("insertion from the root after a search")
                if not strict or "=" in r:
                    out.append(("placement", "an element may be inserted although an equal one exists"))
                elif not ((r == {">"} and l == ZERO) or (r == {"<"} and rr == ZERO)):
                    out.append(("placement", "an element is inserted before the search for an equal one ended"))
            return out + check_count(s, "T", add(size("T", s), ONE)) + check_root(s, "T")
        return f
    sp.contracts = KINS
    for f, k in (("b_insert", "insert"), ("b_insertR", "insert"), ("b_insertUnique", "insertUnique"), ("b_replace", "replace")):
        obligation(f, sp, f, pre_ins(), post_ins(k))
    sp.contracts = {}

    # ---- removal
    def k_repair(eng, st, ins, args, dem):
        v, p = args
        # everything that is still linked may change; the evicted node is out of the tree
        ev = evicted(st)
        st.x["prelinks"] = dict(st.x["pre"])
        st.x["ev"] = ev
        save = {}
        for a in ev:
            save[a] = {f: sp.cur(st, a, f) for f in LINKS}
        sp.havoc(st)
        for a, d in save.items():
            for f, x in d.items():
                if x is not None:
                    sp.setpre(st, a, f, x)
        return [(st, None)]

    def evicted(st):
        """nodes that nothing links to any more"""
        out = []
        for a in st.mem:
            if not sp.isnode(st, a):
                continue
            pp = sp.pre(st, a, "parent")
            if pp is None:
                continue
            if pp == ZERO:
                if all(sp.pre(st, a, s) is not None for s in ("left", "right")) and (sp.pre(st, a, "left") == ZERO or sp.pre(st, a, "right") == ZERO):
                    cs = [sp.pre(st, a, s) for s in ("left", "right") if sp.pre(st, a, s) != ZERO]
                    if all(sp.cur(st, c.single(), "parent") == ZERO for c in cs):
                        out.append(a)
            elif any(sp.pre(st, pp.single(), s) == A(a) and sp.cur(st, pp.single(), s) != A(a) for s in ("left", "right")):
                out.append(a)
        return out

    def rec_root(eng, st, ins, args):
        a = args[0].single()
        if sp.cur(st, a, "parent") is None and not st.x.get("hv"):
            pass
        r = sp.rec_getRoot(eng, st, ins, args)
        return r
    sp.recursion = {}

    def pre_rem(it=False, end=False):
        def f(eng):
            for where in ("root", "below"):
                st = fresh(eng)
                c = withtree(eng, st)
                for s, r in sp.mat_tree(eng, st, c, "T", sp.L["root"]):
                    if r == ZERO:
                        continue
                    if where == "root":
                        n = r.single()
                    else:
                        # some node below the root, seen from close by: its parent is not yet known
                        n = sp.tnode(eng, s, "n", sp.tmalloc(s, "T"), "T")
                        s.x["far"] = n
                        if True:
                            for side in ("left", "right"):
                                s2 = s.copy()
                                sp.put(s2, "deep", (n, "parent"), side)
                                s2.x["n"] = A(n)
                                s2.x["root1"] = r
                                yield where + " " + side, s2, [A(c), A(n)]
                        continue
                    s.x["n"] = A(n)
                    s.x["root1"] = r
                    yield where, s, [A(c), A(n)]
        return f

    def post_rem(what):
        def f(eng, label, s, v):
            out = []
            n = s.x["n"].single()
            r1 = s.x["root1"].single()
            dead = [a for a in s.mem if sp.isnode(s, a) and s.mem[a].live is False]
            if len(dead) != 1:
                return [("leak", "%d nodes are released by the removal of one" % len(dead))]
            e = dead[0]
            if sp.obj(s, sp.data(e)) is not False:
                out.append(("leak", "the element of the released node is not destroyed"))
            links = s.x.get("prelinks") or s.x["pre"]
            if e == n:
                pass
            elif links.get((n, "next")) == A(e) or links.get((n, "prev")) == A(e):
                if sp.value_of(s, sp.data(n)) != A(("op", "val", 64, sp.data(e))):
                    out.append(("content", "the wrong element is removed"))
            else:
                out.append(("content", "another node is released"))
            if what == "bool":
                if v != ONE:
                    out.append(("result", "a removal is not reported"))
            else:
                nx = links.get((n, "next"))
                want = nx if e == n else s.x["n"] if nx == A(e) else nx
                if want is not None and v != want:
                    out.append(("result", "the next valid node is %s, expected %s" % (T.show(v), T.show(want))))
            r = cfield(eng, s, "T", "root")
            if r == ZERO:
                if not (e == r1 and links.get((e, "left")) == ZERO and links.get((e, "right")) == ZERO):
                    out.append(("root", "the root is lost"))
            else:
                out += check_root(s, "T")
            return out + check_count(s, "T", sub(size("T", s), ONE))
        return f
    sp.contracts = {"repairRemoved": k_repair}
    obligation("b_removeNode", sp, "b_removeNode", pre_rem(), post_rem("node"))
    obligation("b_removeIt", sp, "b_removeIt", pre_rem(), post_rem("node"))

    def nothing(s, nm="T"):
        out = []
        for a in s.mem:
            if sp.isnode(s, a) and (any(sp.wrote(s, a, f) for f in LINKS + ("color",)) or s.mem[a].live is False):
                out.append(("modified", "node %s is changed" % T.show_atom(a)))
        if field(s, nm, "root") is not None and s.x["root"].get(nm) != field(s, nm, "root"):
            out.append(("modified", "the root is changed"))
        return out + check_count(s, nm, size(nm, s))

    def pre_end(eng):
        st = fresh(eng)
        c = withtree(eng, st)
        yield "end", st, [A(c), ZERO]
    obligation("b_removeIt[end]", sp, "b_removeIt", pre_end, lambda eng, l, s, v: nothing(s) + ([] if v == ZERO else [("result", "removing the end iterator gives %s" % T.show(v))]))

    def k_find(eng, st, ins, args, dem):
        """find / findMin / findMax of the root, through their contracts"""
        nm = short(dem)
        c = args[0].single()
        if args[0] == ZERO:
            eng.finding(st, "null-deref", ins, "search in an empty tree")
            eng.drop(st)
            return []
        if args[0] != st.x["root"].get("T"):
            eng.finding(st, "search", ins, "the search does not start at the root")
        if args[1] != E:
            eng.finding(st, "search", ins, "searches for another key")
        old = st.x.get("hit")
        if old is not None:
            # the same question about the same tree has the same answer
            if any(st.mem[a].live is False for a in st.mem if sp.isnode(st, a)) or any(sp.wrote(st, a, g) for a in st.mem if sp.isnode(st, a) for g in LINKS):
                raise Incomplete("a search after the tree has changed")
            if old[1] == ZERO or old[0] == nm:
                return [(st, old[1])]
            raise Incomplete("searches of different kinds")
        s2 = st.copy()
        s2.x["hit"] = (nm, ZERO)
        h = sp.tnode(eng, st, "hit", sp.tmalloc(st, "T"), "T")
        if st.x.get("removing"):
            s3 = st.copy()
            out = [(s2, ZERO)]
            # either the root itself or some node below it
            s3.x["n"], s3.x["root1"], s3.x["hit"] = args[0], args[0], (nm, args[0])
            out.append((s3, args[0]))
            for side in ("left", "right"):
                s4 = st.copy()
                sp.put(s4, "deep", (h, "parent"), side)
                s4.x["n"], s4.x["root1"], s4.x["hit"] = A(h), args[0], (nm, A(h))
                out.append((s4, A(h)))
            return out
        st.x["hit"] = (nm, A(h))
        return [(st, A(h)), (s2, ZERO)]

    def pre_key(eng):
        st = fresh(eng)
        c = withtree(eng, st)
        st.x["removing"] = ck.removing
        yield "", st, [A(c), E]

    def post_remkey(eng, label, s, v):
        hit = s.x.get("hit")
        if hit is None or hit[1] == ZERO:
            if hit is None and s.x["root"].get("T") != ZERO:
                return [("search", "the element is not looked up")]
            return nothing(s) + ([] if v == ZERO else [("result", "a removal is reported although nothing matches")])
        return post_rem("bool")(eng, label, s, v)
    ck.removing = True
    sp.contracts = {"repairRemoved": k_repair, "find": k_find, "findMin": k_find, "findMax": k_find}
    obligation("b_removeKey", sp, "b_removeKey", pre_key, post_remkey)
    ck.removing = False

    def post_find(kinds, after=False):
        def f(eng, label, s, v):
            hit = s.x.get("hit")
            out = nothing(s)
            if hit is None:
                if s.x["root"].get("T") != ZERO:
                    out.append(("search", "the tree is not searched"))
                elif v != ZERO:
                    out.append(("result", "finds something in an empty tree"))
                return out
            if hit[0] not in kinds:
                out.append(("search", "%s is used where the %s match is promised" % (hit[0], {"findMin": "first", "findMax": "last"}.get(kinds[0], "any"))))
            if hit[1] == ZERO:
                want = ZERO
            else:
                want = hit[1] if not after else sp.pre(s, hit[1].single(), "next")
            if v != want:
                out.append(("result", "gives %s, expected %s" % (T.show(v), T.show(want) if want is not None else "the node after the last match")))
            return out
        return f
    any_ = ("find", "findMin", "findMax")
    for f, k, a in (("b_findNode", any_, 0), ("b_findNodeC", any_, 0), ("b_find", any_, 0), ("b_findC", any_, 0), ("b_beginK", ("findMin",), 0),
                    ("b_beginKC", ("findMin",), 0), ("b_endK", ("findMax",), 1), ("b_endKC", ("findMax",), 1)):
        obligation(f, sp, f, pre_key, post_find(k, a))
    sp.contracts = {}

    def k_far(eng, st, ins, args, dem):
        nm = short(dem)
        if args[0] == ZERO:
            eng.finding(st, "null-deref", ins, nm + " of an empty tree")
            eng.drop(st)
            return []
        if args[0] != st.x["root"].get("T"):
            raise Incomplete("extreme of another node")
        old = st.x.get("hit")
        if old is not None:
            if old[0] == nm:
                return [(st, old[1])]
            raise Incomplete("both extremes")
        h = sp.tnode(eng, st, nm, sp.tmalloc(st, "T"), "T")
        st.x["hit"] = (nm, A(h))
        return [(st, A(h))]

    def post_far(which):
        def f(eng, label, s, v):
            out = nothing(s)
            hit = s.x.get("hit")
            if hit is None:
                if not (v == ZERO and s.x["root"].get("T") == ZERO):
                    out.append(("result", "gives %s" % T.show(v)))
            elif hit[0] != which or v != hit[1]:
                out.append(("result", "the result is not the %s node" % ("first" if which == "getMin" else "last")))
            return out
        return f
    sp.contracts = {"getMin": k_far, "getMax": k_far}
    for f, w in (("b_getMin", "getMin"), ("b_getMax", "getMax"), ("b_getMinC", "getMin"), ("b_getMaxC", "getMax"), ("b_begin", "getMin"), ("b_beginC", "getMin")):
        obligation(f, sp, f, lambda eng: ((a, b, c[:1]) for a, b, c in pre_key(eng)), post_far(w))
    sp.contracts = {}
    for f in ("b_end", "b_endC"):
        obligation(f, sp, f, lambda eng: ((a, b, c[:1]) for a, b, c in pre_key(eng)), lambda eng, l, s, v: nothing(s) + ([] if v == ZERO else [("result", "end is not null")]))
    for f in ("b_count", "b_size", "b_num"):
        obligation(f, sp, f, lambda eng: ((a, b, c[:1]) for a, b, c in pre_key(eng)),
                      lambda eng, l, s, v: nothing(s) + ([] if s.facts.zero(sub(v, size("T", s))) else [("count", "reports %s nodes" % T.show(v))]))

    # ---- destruction
    def destroyed(s, r, out):
        if r is None:
            return
        if r == ZERO:
            return
        n = r.single()
        if n in s.x["gone"]:
            return
        if s.x.get("loops"):
            raise Incomplete("destruction in a loop")
        if s.mem[n].live is not False:
            out.append(("leak", "node %s is neither linked nor released" % T.show_atom(n)))
            return
        if sp.obj(s, sp.data(n)) is not False:
            out.append(("leak", "the element of %s is not destroyed" % T.show_atom(n)))
        for side in ("left", "right"):
            c = sp.pre(s, n, side)
            if c is None:
                out.append(("leak", "the %s subtree of %s is not released" % (side, T.show_atom(n))))
            else:
                destroyed(s, c, out)

    def one(f):
        def g(eng):
            st = fresh(eng)
            c = withtree(eng, st)
            yield "", st, [A(c)]
        return g

    def is_empty(s, nm):
        out = []
        if field(s, nm, "root") is None and s.x["root"].get(nm) != ZERO or (field(s, nm, "root") is not None and field(s, nm, "root") != ZERO):
            out.append(("root", "the tree still has a root"))
        return out + check_count(s, nm, ZERO)

    def post_empty(left):
        def f(eng, label, s, v):
            out = []
            r = s.x["root"].get("T")
            if r is None:
                return [("leak", "the nodes are not released")]
            destroyed(s, r, out)
            return out + (is_empty(s, "T") if left else [])
        return f
    obligation("b_empty", sp, "b_empty", one(0), post_empty(True))
    obligation("b_dtor", sp, "b_dtor", one(0), post_empty(False))

    def pre_own(eng):
        st = fresh(eng)
        c = sp.new_tree(eng, st, "T", ZERO.single() if False else ("R", -7, "auto"))
        am = add(A(c), C(ck.m.K["autoMalloc"]))
        st.mem[c].info["tmalloc"] = am
        st.mem[c].cells[sp.L["malloc"]] = (8, am)
        st.mem[c].cells[ck.m.K["autoMalloc"]] = (8, sp.vtable("OpqMalloc"))
        st.x["misc"] = ("allocator-alive", am)
        yield "own allocator", st, [A(c)]
    obligation("b_dtorOwn", sp, "b_dtorOwn", pre_own, lambda eng, l, s, v: post_empty(False)(eng, l, s, v) + (
        [] if s.x["misc"][0] == "allocator-dead" else [("lifetime", "the owned allocator is never destroyed")]))

    # ---- construction, copy, move
    def raw(eng, st, nm="D"):
        a = eng.new_region(st, "heap", C(sp.L["treesz"]), {"name": nm, "kept": True})
        sp.put(st, "cont", nm, a)
        return a

    def pre_ctor(eng):
        st = fresh(eng)
        a = raw(eng, st)
        m = sp.mallocobj(eng, st, "M")
        st.x["m"] = A(m)
        yield "", st, [A(a), A(m)][:ck.nargs]

    def post_ctor(which):
        def f(eng, label, s, v):
            out = []
            for g in ("root", "numNodes"):
                if field(s, "D", g) != ZERO:
                    out.append(("init", "a new tree has %s set" % g))
            want = s.mem[gatom].cells[0][1] if which == "g" else s.x["m"]
            if field(s, "D", "malloc") != want:
                out.append(("ownership", "the tree does not use the given allocator"))
            return out
        return f
    ck.nargs = 1
    obligation("b_ctor", sp, "b_ctor", pre_ctor, post_ctor("g"))
    ck.nargs = 2
    obligation("b_ctor_malloc", sp, "b_ctor_malloc", pre_ctor, post_ctor("m"))

    def two(dst):
        def f(eng):
            st = fresh(eng)
            s_ = withtree(eng, st, "S")
            d = withtree(eng, st, "D") if dst else raw(eng, st)
            yield "", st, [A(d), A(s_)]
        return f

    def source_kept(s):
        out = []
        if field(s, "S", "root") is not None and field(s, "S", "root") != s.x["root"].get("S"):
            out.append(("modified", "the source's root is changed"))
        v = field(s, "S", "numNodes")
        if v is not None and not s.facts.zero(sub(v, size("S", s))):
            out.append(("modified", "the source's count is changed"))
        own = sp.tmalloc(s, "S")
        for a in s.mem:
            if sp.isnode(s, a) and (s.mem[a].info or {}).get("owner") == own and (any(sp.wrote(s, a, f) for f in LINKS + ("color",)) or s.mem[a].live is False):
                out.append(("modified", "the source's node %s is changed" % T.show_atom(a)))
        return out

    def post_copy(assign):
        def f(eng, label, s, v):
            out = source_kept(s)
            sr = s.x["root"].get("S")
            if sr is None:
                return [("content", "the source is not copied")]
            dr = field(s, "D", "root")
            if dr is None:
                dr = s.x["root"].get("D")
            if dr is None:
                return out + [("init", "the root is not set")]
            sp.is_copy(s, dr, sr, out, "copy")
            # surplus nodes
            old = s.x["root"].get("D")
            if assign and old is not None and old != ZERO and dr != old:
                destroyed(s, old, out)
            elif assign and old is None:
                out.append(("leak", "the old nodes are not looked at"))
            if assign and old is not None and old != ZERO and dr == old:
                surplus(s, old.single(), out)
            want = sp.tmalloc(s, "D") if assign else s.mem[gatom].cells[0][1]
            if not assign and field(s, "D", "malloc") != want:
                out.append(("ownership", "the copy's allocator is not set"))
            for a in heaps(s):
                if s.mem[a].kind == "heap" and (s.mem[a].info or {}).get("owner") != want:
                    out.append(("ownership", "a node of the copy comes from another allocator"))
            cnt = field(s, "D", "numNodes")
            if cnt is None:
                cnt = size("D", s) if assign else None
            if cnt is None or not s.facts.zero(sub(cnt, size("S", s))):
                out.append(("count", "the copy reports %s nodes, the source has %s" % (T.show(cnt) if cnt is not None else "unset", T.show(size("S", s)))))
            if dr != ZERO:
                if sp.cur(s, dr.single(), "parent") != ZERO:
                    out.append(("root", "the root of the copy has a parent"))
            if assign and v != A(s.x["cont"]["D"]):
                out.append(("result", "assignment does not return the assigned tree"))
            return out
        return f

    def surplus(s, n, out):
        for side in ("left", "right"):
            c = sp.pre(s, n, side)
            if c is None or c == ZERO:
                continue
            k = c.single()
            if s.mem[k].live is False or k in s.x["gone"]:
                if sp.cur(s, n, side) == c:
                    out.append(("links", "a released subtree stays linked"))
                continue
            if sp.cur(s, n, side) != c:
                out.append(("leak", "the %s subtree of %s is dropped without being released" % (side, T.show_atom(n))))
            elif c.single() not in s.x["assigned"]:
                surplus(s, k, out)
    far = {"getMin": lambda eng, st, ins, args, dem: sp.rec_getMin(eng, st, ins, args), "getMax": lambda eng, st, ins, args, dem: sp.rec_getMax(eng, st, ins, args)}
    sp.contracts = far
    obligation("b_copyCtor", sp, "b_copyCtor", two(False), post_copy(False))
    sp.contracts = {**far, "T.destroySubtree": lambda eng, st, ins, args, dem: sp.rec_destroySubtree(eng, st, ins, args)}
    obligation("b_copyAssign", sp, "b_copyAssign", two(True), post_copy(True))
    sp.contracts = {}

    def post_move(assign):
        def f(eng, label, s, v):
            out = []
            sr = s.x["root"].get("S")
            if sr is None:
                return [("content", "the source's nodes are not taken over")]
            if field(s, "D", "root") != sr:
                out.append(("content", "the source's nodes are not taken over"))
            cnt = field(s, "D", "numNodes")
            if cnt is None or not s.facts.zero(sub(cnt, size("S", s))):
                out.append(("count", "the number of nodes is not taken over"))
            if field(s, "D", "malloc") != sp.tmalloc(s, "S"):
                out.append(("ownership", "the allocator of the nodes is not taken over"))
            if sr != ZERO:
                if s.mem[sr.single()].live is False:
                    out.append(("content", "the moved nodes are released"))
                if any(sp.wrote(s, sr.single(), g) for g in LINKS):
                    out.append(("modified", "the moved nodes are changed"))
            out += is_empty(s, "S")
            if assign:
                old = s.x["root"].get("D")
                if old is None:
                    out.append(("leak", "the old nodes are not released"))
                else:
                    destroyed(s, old, out)
                if v != A(s.x["cont"]["D"]):
                    out.append(("result", "assignment does not return the assigned tree"))
            return out
        return f
    obligation("b_moveCtor", sp, "b_moveCtor", two(False), post_move(False))
    obligation("b_moveAssign", sp, "b_moveAssign", two(True), post_move(True))

    # subtrees anywhere in a tree
    def pre_sub(kind):
        def f(eng):
            st = fresh(eng)
            c = withtree(eng, st, "D")
            withtree(eng, st, "S")
            src = sp.tnode(eng, st, "src", sp.tmalloc(st, "S"), "S")
            d = sp.tnode(eng, st, "dst", sp.tmalloc(st, "D"), "D")
            st.x["src"], st.x["dst"] = A(src), A(d)
            yield "", st, [A(c)] + {"clone": [A(src)], "into": [A(d), A(src)], "destroy": [A(d)]}[kind]
        return f

    def post_sub(kind):
        def f(eng, label, s, v):
            out = []
            d = s.x["dst"].single()
            if kind == "destroy":
                destroyed(s, s.x["dst"], out)
                return out
            own = sp.tmalloc(s, "S")
            for a in s.mem:
                if sp.isnode(s, a) and (s.mem[a].info or {}).get("owner") == own and (any(sp.wrote(s, a, g) for g in LINKS + ("color",)) or s.mem[a].live is False):
                    out.append(("modified", "the source's node %s is changed" % T.show_atom(a)))
            if kind == "into" and v != s.x["dst"]:
                return out + [("result", "another subtree is returned")]
            lo = hi = ZERO
            if kind == "into":
                # whatever was outside before
                lo, hi = None, None
            sp.is_copy(s, v, s.x["src"], out, "copy", lo, hi)
            if kind == "into":
                surplus(s, d, out)
            for a in heaps(s):
                if s.mem[a].kind == "heap" and (s.mem[a].info or {}).get("owner") != sp.tmalloc(s, "D"):
                    out.append(("ownership", "a node of the copy comes from another allocator"))
            return out
        return f
    obligation("b_destroySub", sp, "b_destroySub", pre_sub("destroy"), post_sub("destroy"))
    sp.contracts = far
    obligation("b_clone", sp, "b_clone", pre_sub("clone"), post_sub("clone"))
    sp.contracts = {**far, "T.destroySubtree": lambda eng, st, ins, args, dem: sp.rec_destroySubtree(eng, st, ins, args),
                    "T.cloneSubtree/1": lambda eng, st, ins, args, dem: sp.rec_cloneSubtree(eng, st, ins, args)}
    obligation("b_cloneInto", sp, "b_cloneInto", pre_sub("into"), post_sub("into"))
    sp.contracts = {}

    def pre_self(eng):
        st = fresh(eng)
        c = withtree(eng, st)
        yield "self", st, [A(c), A(c)]

    def post_self(eng, label, s, v):
        out = []
        r = s.x["root"].get("T")
        if field(s, "T", "root") is not None and field(s, "T", "root") != r:
            out.append(("root", "self assignment loses the tree"))
        if r is not None and r != ZERO:
            n = r.single()
            if s.mem[n].live is False or sp.obj(s, sp.data(n)) is False:
                out.append(("content", "self assignment destroys the tree"))
            for side in ("left", "right"):
                if sp.pre(s, n, side) is not None and sp.cur(s, n, side) is not None and sp.cur(s, n, side) != sp.pre(s, n, side):
                    out.append(("links", "self assignment changes the links"))
        return out + check_count(s, "T", size("T", s))
    obligation("b_copyAssign[self]", sp, "b_copyAssign", pre_self, post_self)
    if more:
        more(SimpleNamespace(**locals()))


if __name__ == "__main__":
    pid = sys.argv[1] if len(sys.argv) > 1 else "T01"
    ck, sp = setup(pid)
    histories_of(ck.rep, pid)
    if pid == "T01":
        run_repair(ck, sp)
        run_nodes(ck, sp)
        ck.rep.rule("rotation, insertion and removal leave symmetric links, the same in-order sequence up to the operation's own change, "
                    "equal black heights, no red-red edge, a black root and in-order threads; recursive repair is entered only in the state its contract names")
        finish(ck.rep, 4)
    if pid == "T02":
        run_tree(ck, sp)
        ck.rep.rule("root, node count and node ownership agree after every BinaryTree operation; nodes are created by and returned to the tree's allocator exactly once; "
                    "copies mirror shape, colours, elements and threads")
        finish(ck.rep, 14)
    if pid == "T03":
        run_search(ck, sp)
        ck.rep.rule("searches follow the ordering, touch nothing, and miss only where no match can be; extremes, sizes and iterator steps are those of the links")
        finish(ck.rep, 5)
