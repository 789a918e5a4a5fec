"""Threaded red-black trees: a local shape domain.

A tree is looked at through a small fragment of explicit nodes that is materialised lazily, one link at a
time, under the invariants of a valid tree (symmetric links, black root, no red-red edge, equal black
heights kept as linear terms, in-order threads).  Everything not yet looked at is an opaque subtree token
owned by a child slot.  After an operation the current links are compared with the initial ones: in-order
sequence, parent links, colours, black heights and threads.  Recursive calls are replaced by the contract
that the same obligation proves (assume-guarantee on the height of the subtree).
"""
import re
from .terms import *
from . import terms as T
from .facts import Facts
from .engine import *
from .common import *

LINKS = ("left", "right", "parent", "next", "prev")
RED, BLACK = 1, 0


def short(dem):
    """method name of a demangled function"""
    s = re.sub(r"\(.*", "", dem)
    d, out = 0, ""
    for c in s:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out += c
    return out.split("::")[-1].split(" ")[-1].strip()


def nparams(dem):
    """number of parameters of a demangled function"""
    s = dem[dem.index("::") if "::" in dem else 0:]
    d = n = 0
    i = s.rindex("(")
    args = s[i + 1:]
    for c in args:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == "," and d == 0:
            n += 1
    return 0 if args.startswith(")") else n + 1


class RBT(KSpec):
    max_disjuncts = 80
    SCHEMA = "tree"

    def __init__(self, mod, lay):
        super().__init__(mod)
        self.L = lay
        self.field = {lay[f]: f for f in LINKS + ("color",)}
        self.tail = None        # what must hold when the repair recursion is entered
        self.recursion = {}     # extra hooks by method name
        self.hang = []
        self.nullok = set()

    # ------------------------------------------------------------- pre-states
    def begin(self, st):
        for k in ("pre", "H", "bit", "flag", "root", "cont", "deep", "cloneof", "assigned", "gone", "lab"):
            st.x.setdefault(k, {})

    def tnode(self, eng, st, nm, owner=None, lab=None):
        a = eng.new_region(st, "input", C(self.L["size"]), {"name": nm, "objs": (self.L["data"],), "owner": owner, "tnode": True})
        h = ("s", "h(%s%d)" % (nm, a[1]), "u")
        b = ("s", "b(%s%d)" % (nm, a[1]), "u")
        self.put(st, "H", a, A(h))
        self.put(st, "bit", a, A(b))
        st.facts = st.facts.with_ge(sub(ONE, A(b)))
        if lab:
            self.put(st, "lab", a, lab)
        return a

    def put(self, st, key, k, v):
        d = dict(st.x.get(key, {}))
        d[k] = v
        st.x[key] = d

    def pre(self, st, a, f):
        return st.x["pre"].get((a, f))

    def setpre(self, st, a, f, v):
        self.put(st, "pre", (a, f), v)

    def bh(self, st, a):
        return add(st.x["H"][a], st.x["bit"][a])

    def exempt(self, st, a):
        return st.x.get("exempt") == a

    def slot_bh(self, st, a, side):
        h = st.x["H"][a]
        d = st.x.get("deficit")
        if d is not None and d == (a, side):
            h = sub(h, ONE)
        return h

    def eq(self, st, x, y):
        """assume x == y; False when impossible"""
        d = sub(x, y)
        if d.const:
            return d.c == 0
        f = st.facts.with_ge(d, scale(d, -1))
        if f is None:
            return False
        st.facts = f
        # keep terms small: eliminate one symbol with coefficient +-1
        for i, k in sorted(d.t, key=lambda t: -t[0]):
            if k in (1, -1) and atom(i)[0] == "s":
                e = scale(Lin(d.c, tuple(t for t in d.t if t[0] != i)), -k)
                if atom(i)[2] == "u":
                    f = st.facts.with_ge(e)
                    if f is None:
                        return False
                    st.facts = f
                return st.rewrite({i: e})
        return True

    def setcolor(self, st, a, c):
        old = self.pre(st, a, "color")
        if old is not None:
            return old.c == c
        self.setpre(st, a, "color", C(c))
        if c == RED and not self.exempt(st, a):
            p = self.pre(st, a, "parent")
            if p is not None and not (p != ZERO and self.exempt(st, p.single()) and st.x.get("exempt_down")):
                if p == ZERO:
                    return False
                if not self.setcolor(st, p.single(), BLACK):
                    return False
        if c == RED and not (self.exempt(st, a) and st.x.get("exempt_down")):
            for s in ("left", "right"):
                v = self.pre(st, a, s)
                if v is not None and v != ZERO and not self.exempt(st, v.single()):
                    if not self.setcolor(st, v.single(), BLACK):
                        return False
        return self.eq(st, st.x["bit"][a], C(1 - c))

    def owner(self, st, a):
        return (st.mem[a].info or {}).get("owner")

    # ------------------------------------------------------------- materialisation
    def materialize(self, eng, st, a, off, size, ty):
        info = st.mem[a].info or {}
        if info.get("tnode") and off in self.field:
            return [(s, v) for s, v in self.get(eng, st, a, self.field[off])]
        if "tree" in info:
            r = self.mat_tree(eng, st, a, info["tree"], off)
            if r is not None:
                return r
        return super().materialize(eng, st, a, off, size, ty)

    def mat_tree(self, eng, st, a, nm, off):
        L = self.L
        if off == L["root"]:
            if st.x["root"].get(nm) is not None:
                return [(st, st.x["root"][nm])]
            s1 = st.copy()
            out = []
            self.put(s1, "root", nm, ZERO)
            if s1.rewrite({aid(("s", "|%s|" % nm, "u")): ZERO}):
                out.append((s1, ZERO))
            r = self.tnode(eng, st, "R" + nm, self.tmalloc(st, nm), nm)
            self.setpre(st, r, "parent", ZERO)
            self.setcolor(st, r, BLACK)
            self.put(st, "root", nm, A(r))
            f = st.facts.with_ge(sub(A(("s", "|%s|" % nm, "u")), ONE))
            if f is not None:
                st.facts = f
                out.append((st, A(r)))
            return out
        if off == L["numNodes"]:
            if st.x["root"].get(nm) is None:
                # no nodes: no root
                return [(s, self.size_of(s, nm)) for s, _ in self.mat_tree(eng, st, a, nm, L["root"])]
            return [(st, self.size_of(st, nm))]
        if off == L["malloc"]:
            return [(st, self.tmalloc(st, nm))]
        return None

    def size_of(self, st, nm):
        return ZERO if st.x["root"].get(nm) == ZERO else A(("s", "|%s|" % nm, "u"))

    def opaque(self, a):
        # how many nodes a tree has, beyond whether it has any, is not related to the nodes that were seen
        return a[0] == "s" and str(a[1])[0] == "|"

    def new_tree(self, eng, st, nm, m):
        self.begin(st)
        a = eng.new_region(st, "input", None, {"name": nm, "tree": nm, "tmalloc": A(m)})
        self.put(st, "cont", nm, a)
        return a

    def tmalloc(self, st, nm):
        return st.mem[st.x["cont"][nm]].info["tmalloc"]

    def get(self, eng, st, a, f):
        """initial value of link f of node a (materialising): [(state, value)]"""
        v = self.pre(st, a, f)
        if v is not None:
            return [(st, v)]
        if st.x.get("hv"):
            return self.get_free(eng, st, a, f)
        if f == "color":
            s2 = st.copy()
            out = []
            if self.setcolor(s2, a, BLACK):
                out.append((s2, C(BLACK)))
            if self.setcolor(st, a, RED):
                out.append((st, C(RED)))
            return out
        if f in ("left", "right"):
            return self.get_child(eng, st, a, f)
        if f == "parent":
            return self.get_parent(eng, st, a)
        return self.get_thread(eng, st, a, f)

    def get_free(self, eng, st, a, f):
        if f == "color":
            s2 = st.copy()
            self.setpre(s2, a, f, C(0))
            self.setpre(st, a, f, C(1))
            return [(s2, C(0)), (st, C(1))]
        out = []
        s2 = st.copy()
        self.setpre(s2, a, f, ZERO)
        out.append((s2, ZERO))
        n = self.tnode(eng, st, "y", self.owner(st, a))
        self.setpre(st, a, f, A(n))
        if f in ("left", "right"):
            self.setpre(st, n, "parent", A(a))
        out.append((st, A(n)))
        return out

    def get_child(self, eng, st, a, f):
        out = []
        d = st.x["deep"].get((a, f))
        if d != "node":
            s1 = st.copy()
            self.setpre(s1, a, f, ZERO)
            if self.eq(s1, self.slot_bh(s1, a, f), ZERO) and self.settle(s1):
                out.append((s1, ZERO))
        q = self.pre(st, a, "prev" if f == "left" else "next")
        if d == "node" and q is not None and q != ZERO:
            # the subtree that was first seen from below may hang right here
            top = self.pretop(st, q.single())
            if self.pre(st, top, "parent") is None and self.outer(st, top, "next" if f == "left" else "prev") == A(a) \
                    and st.x["deep"].get((top, "parent")) in (None, f):
                s = st.copy()
                self.setpre(s, a, f, A(top))
                self.setpre(s, top, "parent", A(a))
                ok = self.eq(s, self.slot_bh(s, a, f), self.bh(s, top))
                ct, pc = self.pre(s, top, "color"), self.pre(s, a, "color")
                if ok and ct is not None and ct.c == RED and not self.exempt(s, top):
                    ok = self.setcolor(s, a, BLACK)
                if ok and pc is not None and pc.c == RED and not self.exempt(s, top):
                    ok = self.setcolor(s, top, BLACK)
                if ok and self.settle(s):
                    out.append((s, A(top)))
        if d != "null":
            c = self.tnode(eng, st, "x", self.owner(st, a), st.x["lab"].get(a))
            self.setpre(st, a, f, A(c))
            self.setpre(st, c, "parent", A(a))
            ok = self.eq(st, st.x["H"][c], sub(self.slot_bh(st, a, f), st.x["bit"][c]))
            if ok:
                fz = st.facts.with_ge(st.x["H"][c])
                ok = fz is not None
                if ok:
                    st.facts = fz
            pc = self.pre(st, a, "color")
            if ok and pc is not None and pc.c == RED and not (self.exempt(st, a) and st.x.get("exempt_down")):
                ok = self.setcolor(st, c, BLACK)
            if ok and self.settle(st):
                out.append((st, A(c)))
        return out

    def settle(self, st):
        """colours the black heights already decide"""
        again = True
        while again:
            again = False
            for a, b in list(st.x["bit"].items()):
                if a not in st.mem or self.pre(st, a, "color") is not None or st.x["cloneof"].get(a) is not None:
                    continue
                b = st.x["bit"][a]
                c = RED if st.facts.entails(scale(b, -1)) else BLACK if st.facts.entails(sub(b, ONE)) else None
                if c is not None:
                    again = True
                    if not self.setcolor(st, a, c):
                        return False
        return True

    def outer(self, st, a, f):
        """initial outer neighbour (next / prev) of the subtree at a, None when unknown"""
        near = "right" if f == "next" else "left"
        while True:
            v = self.pre(st, a, near)
            if v is None:
                return None
            if v == ZERO:
                return self.pre(st, a, f)
            a = v.single()

    def get_parent(self, eng, st, a):
        out = []
        only = st.x["deep"].get((a, "parent"))
        nb = {"left": self.outer(st, a, "next"), "right": self.outer(st, a, "prev")}
        if only is None and all(v is None or v == ZERO for v in nb.values()):
            s1 = st.copy()
            self.setpre(s1, a, "parent", ZERO)
            if self.exempt(s1, a) or self.setcolor(s1, a, BLACK):
                out.append((s1, ZERO))
        for side in ("left", "right"):
            if only is not None and only != side:
                continue
            # the outer neighbour on the other side is the parent itself
            k = nb[side]
            if k == ZERO:
                continue
            s = st.copy()
            if k is not None:
                u = k.single()
                c = self.pre(s, u, side)
                if c is not None:
                    if c == ZERO:
                        continue
                    raise Incomplete("a neighbour's subtree was looked at from above and from below")
            else:
                u = self.tnode(eng, s, "u", self.owner(st, a), s.x["lab"].get(a))
            self.setpre(s, u, side, A(a))
            self.setpre(s, a, "parent", A(u))
            dn = s.x.get("deficit_node")
            if dn == a:
                s.x["deficit"] = (u, side)
            ok = self.eq(s, s.x["H"][u], add(self.bh(s, a), ONE if dn == a else ZERO))
            for cc, kid in ((self.pre(s, a, "color"), a),):
                if ok and cc is not None and cc.c == RED and not self.exempt(s, a):
                    ok = self.setcolor(s, u, BLACK)
            pu = self.pre(s, u, "color")
            if ok and pu is not None and pu.c == RED and not self.exempt(s, a) and not (self.exempt(s, u) and s.x.get("exempt_down")):
                ok = self.setcolor(s, a, BLACK)
            if ok and self.settle(s):
                out.append((s, A(u)))
        return out

    def get_thread(self, eng, st, a, f):
        """next / prev of a from the tree structure"""
        near, far, opp = ("right", "left", "prev") if f == "next" else ("left", "right", "next")
        out = []
        for s, v in self.get(eng, st, a, near):
            if v != ZERO:
                out += self.extreme(eng, s, v.single(), far, a, f, opp)
                continue
            x = a
            while True:
                p = self.pre(s, x, "parent")
                if p is None:
                    # unknown above: the neighbour is some ancestor, or there is none
                    s1 = s.copy()
                    self.setpre(s1, a, f, ZERO)
                    out.append((s1, ZERO))
                    n = self.tnode(eng, s, "anc", self.owner(s, a), s.x["lab"].get(a))
                    self.setpre(s, a, f, A(n))
                    self.setpre(s, n, opp, A(a))
                    self.put(s, "deep", (n, far), "node")
                    out.append((s, A(n)))
                    break
                if p == ZERO:
                    self.setpre(s, a, f, ZERO)
                    out.append((s, ZERO))
                    break
                pn = p.single()
                if self.pre(s, pn, far) == A(x):
                    self.setpre(s, a, f, p)
                    self.setpre(s, pn, opp, A(a))
                    out.append((s, p))
                    break
                x = pn
        return out

    def extreme(self, eng, st, y, side, a, f, opp):
        """the node at the far `side` end of the subtree y becomes neighbour f of a"""
        v = self.pre(st, y, side)
        if v is not None and v != ZERO:
            return self.extreme(eng, st, v.single(), side, a, f, opp)
        out = []

        def bind(s, n):
            self.setpre(s, a, f, A(n))
            self.setpre(s, n, opp, A(a))
            out.append((s, A(n)))
        if v == ZERO:
            bind(st, y)
            return out
        for s, c in self.get(eng, st, y, side):
            if c == ZERO:
                bind(s, y)
                continue
            # one level down, or somewhere deeper
            s1 = s.copy()
            for s2, g in self.get(eng, s1, c.single(), side):
                if g == ZERO:
                    bind(s2, c.single())
            self.put(s, "deep", (c.single(), side), "node")
            m = self.tnode(eng, s, "m", self.owner(s, a), s.x["lab"].get(a))
            self.setpre(s, m, side, ZERO)
            self.put(s, "deep", (m, "parent"), side)
            if self.eq(s, s.x["H"][m], ZERO) and self.settle(s):
                bind(s, m)
        return out

    # ------------------------------------------------------------- reading the current structure
    def cur(self, st, a, f):
        if a not in st.mem:
            return self.pre(st, a, f)
        c = st.mem[a].cells.get(self.L[f])
        if c is not None:
            return c[1]
        return self.pre(st, a, f)

    def wrote(self, st, a, f):
        return st.x.get(("w", a, self.L[f])) is not None

    def pretop(self, st, a):
        while True:
            p = self.pre(st, a, "parent")
            if p is None or p == ZERO:
                return a
            a = p.single()

    def curtop(self, st, a, bad):
        seen = set()
        while a not in seen:
            seen.add(a)
            p = self.cur(st, a, "parent")
            if p is None or p == ZERO:
                return a
            n = p.single() if isinstance(p, Lin) else None
            if n is None or n not in st.mem or not self.isnode(st, n):
                bad.append(("links", "the parent link of %s is %s" % (T.show_atom(a), T.show(p))))
                return a
            a = n
        bad.append(("links", "the parent links form a cycle at %s" % T.show_atom(a)))
        return a

    def isnode(self, st, a):
        r = st.mem[a]
        return (r.info or {}).get("tnode") or r.kind == "heap"

    def seq_pre(self, st, a):
        out = []
        v = self.pre(st, a, "left")
        out += [("T", a, "left")] if v is None else [] if v == ZERO else self.seq_pre(st, v.single())
        out.append(("n", a))
        v = self.pre(st, a, "right")
        out += [("T", a, "right")] if v is None else [] if v == ZERO else self.seq_pre(st, v.single())
        return out

    def seq_cur(self, st, a, bad, seen=None):
        """in-order sequence of the current links below a; checks parent links on the way"""
        seen = set() if seen is None else seen
        if a in seen:
            bad.append(("links", "the child links form a cycle at %s" % T.show_atom(a)))
            return []
        seen.add(a)
        if st.mem[a].live is False:
            bad.append(("links", "released node %s is still linked" % T.show_atom(a)))
        out = []
        for side in ("left", "right"):
            v = self.cur(st, a, side)
            if v is None:
                if st.mem[a].kind == "heap":
                    bad.append(("links", "the %s child of %s was never set" % (side, T.show_atom(a))))
                out.append(("T", a, side))
            elif v != ZERO:
                c = v.single() if isinstance(v, Lin) else None
                if c is None or c not in st.mem or not self.isnode(st, c):
                    bad.append(("links", "the %s child of %s is %s" % (side, T.show_atom(a), T.show(v))))
                else:
                    p = self.cur(st, c, "parent")
                    if p != A(a):
                        bad.append(("links", "%s is the %s child of %s, but its parent link is %s" % (T.show_atom(c), side, T.show_atom(a), T.show(p) if p is not None else "elsewhere")))
                    out += self.seq_cur(st, c, bad, seen)
            if side == "left":
                out.append(("n", a))
        return out

    def color(self, st, a):
        """current colour: 0 / 1 / None (untouched and unknown)"""
        v = self.cur(st, a, "color")
        if v is None:
            return None
        if isinstance(v, Lin) and v.const:
            return v.c
        return "?"

    def cbit(self, st, a):
        c = self.color(st, a)
        return st.x["bit"][a] if c is None else C(1 - c) if c in (0, 1) else None

    def rb(self, st, a, bad, ok_red=None, lack=None, down=False):
        """current black height of the subtree at a"""
        hs = []
        for side in ("left", "right"):
            v = self.cur(st, a, side)
            if v is None:
                h = self.slot_bh(st, a, side) if not (lack == (a, side)) else st.x["H"][a]
                if self.color(st, a) == RED and not self.slot_black(st, a, side) and not (down and a == ok_red):
                    bad.append(("red-red", "%s is red and may have a red %s child" % (T.show_atom(a), side)))
            elif v == ZERO:
                h = ZERO
            else:
                c = v.single()
                h = self.rb(st, c, bad, ok_red, lack, down)
                if c != ok_red and not (down and a == ok_red) and not self.edge_ok(st, a, c):
                    bad.append(("red-red", "%s and its child %s may both be red" % (T.show_atom(a), T.show_atom(c))))
            if lack == (a, side) and h is not None:
                h = add(h, ONE)
            hs.append(h)
        if hs[0] is None or hs[1] is None:
            return None
        if not st.facts.zero(sub(hs[0], hs[1])):
            bad.append(("black-height", "the subtrees of %s have black heights %s and %s" % (T.show_atom(a), T.show(hs[0]), T.show(hs[1]))))
            return None
        b = self.cbit(st, a)
        if b is None:
            bad.append(("color", "the colour of %s is undefined" % T.show_atom(a)))
            return None
        return add(hs[0], b)

    def slot_black(self, st, a, side):
        """is an untouched subtree known to have a black root?"""
        c = self.pre(st, a, "color")
        if c is not None and c.c == RED and not (self.exempt(st, a) and st.x.get("exempt_down")):
            return True
        if st.facts.zero(self.slot_bh(st, a, side)):
            return False
        return False

    def edge_ok(self, st, p, c):
        cp, cc = self.color(st, p), self.color(st, c)
        if cp == BLACK or cc == BLACK:
            return True
        if cp == RED and cc == RED:
            return False
        # an edge of the initial tree whose colours were not changed
        if self.pre(st, c, "parent") == A(p) and not self.wrote(st, p, "color") and not self.wrote(st, c, "color") and not self.exempt(st, c) \
                and not (self.exempt(st, p) and st.x.get("exempt_down")):
            return True
        for x, cx in ((p, cp), (c, cc)):
            if cx is None and st.facts.zero(sub(st.x["bit"][x], ONE)):
                return True
        return False

    def check_tree(self, st, start, expected, ok_red=None, lack=None, ok_top=False, down=False):
        """the fragment around start is a valid tree with in-order sequence `expected` ('n'/'T' items)"""
        bad = []
        top = self.curtop(st, start, bad)
        if bad:
            return bad
        seq = self.seq_cur(st, top, bad)
        if bad:
            return bad
        if expected is not None and seq != expected:
            bad.append(("order", "the in-order sequence is %s, expected %s" % (self.show(seq), self.show(expected))))
            return bad
        h = self.rb(st, top, bad, ok_red, lack, down)
        if h is None or bad:
            return bad
        p = self.cur(st, top, "parent")
        c = self.color(st, top)
        if p == ZERO:
            if top != ok_red and c != BLACK and not (c is None and self.pre(st, top, "parent") == ZERO):
                bad.append(("root-red", "the root %s may be red" % T.show_atom(top)))
        else:
            # something unseen above: it must not notice
            want = self.bh(st, top)
            if st.x.get("deficit_node") == top:
                want = add(want, ONE)
            if lack is None and not st.facts.zero(sub(h, want)) and not ok_top:
                bad.append(("black-height", "the black height at %s changed from %s to %s" % (T.show_atom(top), T.show(want), T.show(h))))
            if c == RED and top != ok_red and not (self.pre(st, top, "color") == C(RED) and not self.exempt(st, top)):
                bad.append(("red-red", "%s became red under an unknown parent" % T.show_atom(top)))
        return bad

    def show(self, seq):
        return "[" + " ".join(T.show_atom(x[1]) if x[0] == "n" else "%s.%s.." % (T.show_atom(x[1]), x[2]) for x in seq) + "]"

    def check_threads(self, eng, st, expect):
        """expect: function(node, field, initial value or None) -> value or None (unchanged)"""
        bad = []
        for a in list(st.mem):
            if not self.isnode(st, a) or st.mem[a].live is False:
                continue
            for f in ("next", "prev"):
                p = self.pre(st, a, f)
                want = expect(a, f, p)
                have = self.cur(st, a, f)
                if want is None:
                    if self.wrote(st, a, f) and have != p:
                        bad.append(("thread", "the %s link of %s was changed" % (f, T.show_atom(a))))
                elif have != want:
                    bad.append(("thread", "the %s link of %s is %s, expected %s" % (f, T.show_atom(a), T.show(have) if have is not None else "unset", T.show(want))))
        return bad

    # ------------------------------------------------------------- recursion
    def recursive_call(self, eng, st, ins, fn, args):
        nm = short(fn["d"])
        h = self.recursion.get(nm) or getattr(self, "rec_" + nm, None)
        if h is None:
            return None
        for a in args:
            if isinstance(a, Lin) and a.single() is not None and a.single() in st.mem:
                eng.check_live(st, a.single(), st.mem[a.single()], ins, "use")
        if args and not isinstance(args[0], Lin):
            eng.finding(st, "uninit", ins, "call of %s on an uninitialised node pointer" % nm)
            eng.drop(st)
            return []
        if args and isinstance(args[0], Lin) and args[0] == ZERO and nm not in self.nullok:
            eng.finding(st, "null-deref", ins, "call of %s on a null node" % nm)
            eng.drop(st)
            return []
        return h(eng, st, ins, args)

    def rec_getRoot(self, eng, st, ins, args):
        a = args[0].single()
        n = self.tnode(eng, st, "top", self.owner(st, a))
        self.setpre(st, n, "parent", ZERO)
        return [(st, A(n))]

    def _far(self, eng, st, a, side, thread):
        c = self.cur(st, a, side)
        if c == ZERO:
            return [(st, A(a))]
        if isinstance(c, Lin) and c.single() in st.mem:
            return self._far(eng, st, c.single(), side, thread)
        m = self.tnode(eng, st, "end", self.owner(st, a), st.x["lab"].get(a))
        self.setpre(st, m, side, ZERO)
        self.put(st, "flag", m, self.flags(st, a) & {"spine" + side} | {("far", side, a)})
        # its outer neighbour
        x = a
        opp = {"left": "right", "right": "left"}[side]
        while True:
            p = self.cur(st, x, "parent") if st.x["cloneof"].get(x) is not None else self.pre(st, x, "parent")
            if p is None:
                break
            if p == ZERO:
                self.setpre(st, m, thread, ZERO)
                break
            if self.pre(st, p.single(), opp) == A(x):
                self.setpre(st, m, thread, p)
                self.setpre(st, p.single(), {"next": "prev", "prev": "next"}[thread], A(m))
                break
            x = p.single()
        return [(st, A(m))]

    def rec_getMin(self, eng, st, ins, args):
        return self._far(eng, st, args[0].single(), "left", "prev")

    def rec_getMax(self, eng, st, ins, args):
        return self._far(eng, st, args[0].single(), "right", "next")

    def is_far(self, st, n, top, side):
        """n is the `side`-most node of the current subtree top"""
        x, seen = top, set()
        while x not in seen:
            seen.add(x)
            if n == x:
                return self.cur(st, x, side) == ZERO or (self.cur(st, x, side) is None and ("far", side) in st.x["flag"].get(x, ()))
            if ("far", side, x) in st.x["flag"].get(n, ()):
                return self.cur(st, n, side) == ZERO
            v = self.cur(st, x, side)
            if not isinstance(v, Lin) or v == ZERO:
                break
            x = v.single()
        # reached through a loop: on the spine, with nothing further out
        if st.x.get("start") == top and "spine" + side in self.flags(st, n):
            return self.cur(st, n, side) == ZERO
        return False

    # search-path flags, relative to st.x["start"] and the sought value st.x["keyval"]
    def flags(self, st, n):
        if st.x.get("start") == n:
            return frozenset(("path", "pathS", "spineleft", "spineright"))
        got = st.x["flag"].get(n)
        if got is not None:
            return got
        p = self.pre(st, n, "parent")
        if p is None or p == ZERO:
            return frozenset()
        p = p.single()
        fp = self.flags(st, p)
        side = "left" if self.pre(st, p, "left") == A(n) else "right"
        out = set()
        if "spine" + side in fp:
            out.add("spine" + side)
        kv = st.x.get("keyval")
        if kv is not None:
            r = self.rel(st, self.value_of(st, self.data(p)), kv)
            s = ">" if side == "left" else "<"
            if "path" in fp and r <= {s, "="}:
                out.add("path")
            if "pathS" in fp and r <= {s}:
                out.add("pathS")
        return frozenset(out)

    def data(self, a):
        return add(A(a), C(self.L["data"]))

    def rec_repairInserted(self, eng, st, ins, args):
        n = args[0].single()
        if n is None:
            raise Incomplete("repair of a computed node")
        if self.tail:
            for rule, text in self.tail(eng, st, ("I", n)):
                eng.finding(st, rule, ins, "at the recursive repair of %s: %s" % (T.show_atom(n), text))
        self.havoc(st)
        return [(st, None)]

    def rec_repairRemoved(self, eng, st, ins, args):
        if self.tail:
            for rule, text in self.tail(eng, st, ("R", args[0], args[1])):
                eng.finding(st, rule, ins, "at the recursive repair: " + text)
        self.havoc(st)
        return [(st, None)]

    def havoc(self, st):
        """a contract took over: every tree link may have changed"""
        for a in list(st.mem):
            if self.isnode(st, a) and st.mem[a].live is not False:
                r = st.region(a, True)
                for f in ("left", "right", "parent", "color"):
                    r.cells.pop(self.L[f], None)
                    st.x.pop(("w", a, self.L[f]), None)
                if r.kind == "heap":
                    r.kind = "input"
                    r.info = {**(r.info or {}), "tnode": True, "objs": ()}
                    self.put(st, "obj", self.data(a), self.obj(st, self.data(a)))
        st.x["pre"] = {k: v for k, v in st.x["pre"].items() if k[1] in ("next", "prev")}
        st.x["hv"] = True

    def rec_destroySubtree(self, eng, st, ins, args):
        c = args[-1].single()
        if c in st.x["gone"] or st.mem[c].live is False:
            eng.finding(st, "double-free", ins, "the subtree %s is destroyed twice" % T.show_atom(c))
        self.put(st, "gone", c, True)
        st.region(c, True).live = False
        o = dict(st.x.get("obj", {}))
        o[self.data(c)] = False
        st.x["obj"] = o
        return [(st, None)]

    def rec_cloneSubtree(self, eng, st, ins, args):
        src = args[-1].single()
        own = self.tree_owner(st, args[0])
        if len(args) == 2:
            d = self.tnode(eng, st, "copy", own, "clone")
            self.put(st, "cloneof", d, A(src))
            self.setpre(st, d, "parent", ZERO)
            return [(st, A(d))]
        d = args[1].single()
        if d is None or d not in st.mem:
            raise Incomplete("copy into a computed node")
        if d in st.x["assigned"] or d in st.x["cloneof"]:
            eng.finding(st, "content", ins, "a subtree is copied into twice")
        self.put(st, "assigned", d, A(src))
        r = st.region(d, True)
        for f in ("left", "right", "color"):
            r.cells.pop(self.L[f], None)
            st.x["pre"] = {k: v for k, v in st.x["pre"].items() if k != (d, f)}
        return [(st, A(d))]

    def tree_owner(self, st, this):
        a = this.single()
        r = st.mem.get(a)
        if r is None:
            return None
        c = r.cells.get(self.L["malloc"])
        if c is not None:
            return c[1]
        return (r.info or {}).get("tmalloc")

    def is_copy(self, st, d, s, bad, what="copy", lo=ZERO, hi=ZERO):
        """the subtree at d is a copy of the subtree at s (both addresses or null)"""
        if s == ZERO or d == ZERO:
            if s != d:
                bad.append(("content", "%s: one subtree is empty, the other is not" % what))
            return
        dn, sn = d.single(), s.single()
        if dn is None or dn not in st.mem:
            bad.append(("content", "%s: the copy is %s" % (what, T.show(d))))
            return
        if st.x["cloneof"].get(dn) is not None or st.x["assigned"].get(dn) is not None:
            got = st.x["cloneof"].get(dn) or st.x["assigned"].get(dn)
            if got != s:
                bad.append(("content", "%s: subtree %s was copied from %s, not from %s" % (what, T.show_atom(dn), T.show(got), T.show(s))))
            return
        if self.value_of(st, self.data(dn)) != self.value_of(st, self.data(sn)):
            bad.append(("content", "%s: the copied node holds another value than its source" % what))
        cs = self.cur(st, sn, "color")
        cd = self.cur(st, dn, "color")
        if cs is None or cd is None or cs != cd:
            bad.append(("color", "%s: the copied node's colour is %s, the source has %s" % (what, cd, cs)))
        for side, th, opp, far in (("left", "prev", "next", "right"), ("right", "next", "prev", "left")):
            a, b = self.cur(st, dn, side), self.cur(st, sn, side)
            if b is None or a is None:
                bad.append(("content", "%s: the %s subtree is not copied" % (what, side)))
                continue
            self.is_copy(st, a, b, bad, what, *((lo, A(dn)) if side == "left" else (A(dn), hi)))
            if a != ZERO and a.single() in st.mem:
                if self.cur(st, a.single(), "parent") != A(dn):
                    bad.append(("links", "%s: the %s child's parent link does not lead to its parent" % (what, side)))
                t = self.cur(st, dn, th)
                tn = t.single() if isinstance(t, Lin) else None
                if tn is None or tn not in st.mem or not self.is_far(st, tn, a.single(), far):
                    if st.x.get("loops") and tn in st.mem and tn != dn and self.cur(st, tn, far) == ZERO:
                        raise Incomplete("the outermost node of a copied subtree is looked for in a loop")
                    bad.append(("thread", "%s: the %s link is not the nearest node of the %s subtree" % (what, th, side)))
                elif self.cur(st, tn, opp) != A(dn):
                    bad.append(("thread", "%s: the %s node of the %s subtree does not link back" % (what, far, side)))
            elif a == ZERO:
                t = self.cur(st, dn, th)
                had = self.pre(st, dn, side)
                p0 = self.pre(st, dn, th)
                fresh = had is None
                if t is None:
                    # never touched: it must still be the outer neighbour
                    if fresh or had != ZERO:
                        bad.append(("thread", "%s: the %s link is stale" % (what, th)))
                elif (lo if th == "prev" else hi) is not None and t != (lo if th == "prev" else hi):
                    bad.append(("thread", "%s: the %s link of %s is %s" % (what, th, T.show_atom(dn), T.show(t))))

    # ------------------------------------------------------------- loops
    def shape_loop(self, eng, st, b, header, blocks):
        f = st.frames[-1]
        depth = len(st.frames)
        ctx = LoopCtx(depth, header, blocks)
        eng.enter(st, b, header)
        store, work = {}, []
        rounds = 0

        def arrive(s):
            s.pending = None
            if any(x[0] in ("use-after-free", "double-free", "double-destroy") for x in s.x.get("findings", ())):
                eng.drop(s)     # nothing is promised after that
                return
            self.canon(eng, s)
            key, slots = self.key(eng, s)
            if os.environ.get("KA_SHAPE"):
                print("SHAPE", key, slots)
            old = store.get(key)
            if old is None:
                if len(store) >= self.max_disjuncts:
                    raise Incomplete("too many shapes at a loop in " + f.fn["d"])
                store[key] = [s, slots, []]
                work.append(key)
                return
            ch = False
            os_, n = old[0], []
            for (p, v), (_, w) in zip(old[1], slots):
                if v == w or (isinstance(v, Lin) and v.single() is not None and str(v.single()[1]).startswith("jn")):
                    n.append((p, v))
                    continue
                ch = True
                lo = isinstance(v, Lin) and isinstance(w, Lin) and os_.facts.entails(v) and s.facts.entails(w)
                n.append((p, A(("s", "jn%d" % eng.bump(), "u" if lo else "i"))))
            if ch:
                r = os_.copy()
                for p, v in n:
                    if p[0] == "r":
                        r.frames[p[1]].regs[p[2]] = v
                    else:
                        rr = r.region(p[1], True)
                        rr.cells[p[2]] = (rr.cells[p[2]][0], v)
                r.x["findings"] = _merge(os_.x.get("findings", []), s.x.get("findings", []))
                r.facts = Facts((), (), {k: v for k, v in r.facts.rel.items() if s.facts.rel.get(k) == v})
                store[key] = [r, n, []]
                if key not in work:
                    work.append(key)
            else:
                os_.x["findings"] = _merge(os_.x.get("findings", []), s.x.get("findings", []))
        arrive(st)
        while work:
            key = work.pop(0)
            rounds += 1
            if rounds > 300:
                raise Incomplete("loop did not stabilise in " + f.fn["d"])
            cur = store[key][0]
            ex = []
            outs = eng.explore([cur.copy()], depth - 1, ctx)
            for k, s, v in outs:
                if k == "exit":
                    ex.append((k, s, v))
                elif k == "ret":
                    raise Incomplete("return inside a loop body")
            if store[key][0] is cur:
                store[key][2] = ex
            for k, s, v in outs:
                if k == "back":
                    pb, t = s.pending
                    s.pending = None
                    eng.enter(s, pb, header)
                    arrive(s)
        res = [s for _, _, ex in store.values() for _, s, _ in ex]
        if not res:
            fs = []
            for s, _, _ in store.values():
                fs = _merge(fs, s.x.get("findings", []))
            eng.endless = getattr(eng, "endless", []) + [(eng.m.loc(f.fn["blocks"][header][-1].get("l")), tuple(fs), None)]
        return res

    def canon(self, eng, st):
        for f in st.frames:
            live = eng.m.live_at(f.fn, f.bb, f.ip)
            f.regs = {k: v for k, v in f.regs.items() if k in live}
        for a in [a for a, r in st.mem.items() if r.live == "stack"]:
            del st.mem[a]
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == "w"]:
            if k[1] not in st.mem:
                del st.x[k]
        st.path, st.events, st.bools = [], [], {}
        st.x["loops"] = True
        named = set(st.x.get("keep", ()))

        def mention(v):
            for i in T.value_atoms(v):
                if atom(i)[0] == "R":
                    named.add(atom(i))
        for f in st.frames:
            for v in f.regs.values():
                mention(v)
        for a, r in st.mem.items():
            if not self.isnode(st, a) or any(self.wrote(st, a, g) for g in LINKS):
                if self.isnode(st, a):
                    named.add(a)
                for o, (z, v) in r.cells.items():
                    if isinstance(v, (Lin, Agg)):
                        mention(v)
        for kk in ("root", "cloneof", "assigned"):
            for v in st.x[kk].values():
                mention(v)
        fl = {}
        for a in st.mem:
            if self.isnode(st, a) and a in named:
                fl[a] = self.flags(st, a)
        drop = {a for a in st.mem if self.isnode(st, a) and a not in named}
        st.x["flag"] = fl
        for a in drop:
            del st.mem[a]
        gone = lambda v: isinstance(v, Lin) and any(atom(i) in drop for i in T.value_atoms(v))
        st.x["pre"] = {k: v for k, v in st.x["pre"].items() if k[0] not in drop and not gone(v)}
        for a in list(st.mem):
            r = st.mem[a]
            if self.isnode(st, a) and any(gone(v) for _, v in r.cells.values()):
                r = st.region(a, True)
                r.cells = {o: (z, v) for o, (z, v) in r.cells.items() if not gone(v)}
        for kk in ("H", "bit", "lab", "cloneof", "assigned"):
            st.x[kk] = {k: v for k, v in st.x[kk].items() if k not in drop}
        st.x["deep"] = {k: v for k, v in st.x["deep"].items() if k[0] not in drop}
        st.x["gone"] = {k: v for k, v in st.x["gone"].items() if k not in drop}
        for kk in ("obj", "val"):
            st.x[kk] = {k: v for k, v in st.x.get(kk, {}).items() if not gone(k)}
        # black heights play no part in loops: forget them
        for a in [x for x in st.mem if self.isnode(st, x)]:
            st.x["H"][a] = A(("s", "h(%d.%d)" % (a[1], eng.bump()), "u"))
            if self.pre(st, a, "color") is None:
                st.x["bit"][a] = A(("s", "b(%d.%d)" % (a[1], eng.n), "u"))
        vals = {self.value_of(st, self.data(a)) for a in st.mem if self.isnode(st, a)}
        rel = {k: v for k, v in st.facts.rel.items() if not any(gone(x) for x in k) and all(
            not any(atom(i)[0] == "R" and atom(i) not in st.mem for i in T.value_atoms(x)) for x in k)}
        keep = [l for l in st.facts.ge if all(not str(atom(i)[1]).startswith(("h(", "b(")) for i, _ in l.t) and not gone(l)]
        nes = [l for l in st.facts.ne if not gone(l)]
        st.facts = Facts(tuple(keep), tuple(nes), rel)

    def key(self, eng, st):
        names, queue, slots = {}, [], []

        def ref(a):
            if a not in names:
                names[a] = "n%d" % len(names)
                queue.append(a)
            return names[a]

        def value(v, path):
            if isinstance(v, Lin):
                rs = [(i, k) for i, k in v.t if atom(i)[0] == "R"]
                if rs:
                    if len(rs) == 1 and rs[0][1] == 1 and len(v.t) == 1:
                        return "%s+%d" % (ref(atom(rs[0][0])), v.c)
                    return T.show(v)
                if v.const and v.c == 0:
                    return "0"
                if any(atom(i)[0] in ("G", "undef") for i, k in v.t):
                    return T.show(v)
                slots.append((path, v))
                return "#"
            if isinstance(v, Agg):
                return "{" + ",".join(value(x, path) for x in v.e) + "}"
            return T.show(v)
        out = []
        for i, f in enumerate(st.frames):
            out.append("F%s@%d.%d" % (f.fn["name"], f.bb, f.ip))
            for k in sorted(f.regs, key=str):
                out.append("r%s=%s" % (k, value(f.regs[k], ("r", i, k))))
        for a in st.x.get("keep", ()):
            ref(a)
        for nm in sorted(st.x["cont"]):
            ref(st.x["cont"][nm])
        done = 0
        while done < len(queue):
            a = queue[done]
            done += 1
            r = st.mem.get(a)
            if r is None:
                out.append(names[a] + ":gone")
                continue
            out.append("%s:%s:%s:%s" % (names[a], r.kind, r.live, self.obj(st, self.data(a)) if self.isnode(st, a) else ""))
            isn = self.isnode(st, a)
            if isn:
                for kk in ("cloneof", "assigned"):
                    if st.x[kk].get(a) is not None:
                        out.append("%s=%s" % (kk, value(st.x[kk][a], None)))
                out.append("fl=" + ",".join(sorted(str(x) for x in st.x["flag"].get(a, ()) if isinstance(x, str))))
                for g in LINKS + ("color",):
                    v = self.pre(st, a, g)
                    if v is not None:
                        out.append("%s=%s" % (g, value(v, ("p", a, g)) if v != ZERO and not v.const else v.c))
            for o in sorted(r.cells, key=str):
                if isn and o in self.field and not self.wrote(st, a, self.field[o]):
                    continue
                out.append("%s.%d=%s" % (o, r.cells[o][0], value(r.cells[o][1], ("c", a, o))))
        for i, a in enumerate(queue):
            if a in st.mem and self.isnode(st, a):
                kv = st.x.get("keyval")
                if kv is not None:
                    out.append("k%d%s" % (i, "".join(sorted(self.rel(st, self.value_of(st, self.data(a)), kv)))))
                for j, c in enumerate(queue[:i]):
                    if c in st.mem and self.isnode(st, c):
                        out.append("%d,%d%s" % (i, j, "".join(sorted(self.rel(st, self.value_of(st, self.data(a)), self.value_of(st, self.data(c)))))))
        out.append("m=%s" % (st.x.get("misc"),))
        out.append("hv=%s" % st.x.get("hv"))
        return "|".join(out), slots


def _merge(a, b):
    out = list(a)
    for x in b:
        if x not in out:
            out.append(x)
    return out
