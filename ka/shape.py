"""Doubly linked structures: list-segment shape domain.

A structure is a sequence of tokens: ('n', region) a node that has been looked at, ('g', q) a segment of
unknown length whose elements form the value sequence q, ('f',) nodes that have been given back.  Links are
materialised lazily from the sequence; a written link overrides it.  At loop heads nodes nobody names are
folded back into segments and states of equal shape are joined (lengths by affine equalities with segment
lengths), so loops over structures of any length reach a fixpoint.
"""
from .terms import *
from . import terms as T
from .facts import Facts
from .engine import *
from .common import *


def glen(q):
    return A(("s", "|%s|" % q, "u"))


class DLL(KSpec):
    max_disjuncts = 60

    def __init__(self, mod, lay):
        """lay: dict(head, tail, length, malloc: offsets in the container; next, prev, data, size of a node)"""
        super().__init__(mod)
        self.L = lay

    # ------------------------------------------------------------- construction of pre-states
    def new_list(self, eng, st, name, tokens, malloc=None):
        """a container whose initial chain is `tokens`; tokens: 'g' or a node name"""
        cont = eng.new_region(st, "input", None, {"name": name, "list": name})
        toks = []
        nodes = {}
        for t in tokens:
            if t == "g":
                eng.n += 1
                toks.append(("g", "%s%d" % (name, eng.n)))
            else:
                a = self.node(eng, st, name, t, malloc)
                nodes[t] = a
                toks.append(("n", a))
        tk = dict(st.x.get("tok", {}))
        tk[name] = tuple(toks)
        st.x["tok"] = tk
        cs = dict(st.x.get("cont", {}))
        cs[name] = cont
        st.x["cont"] = cs
        ow = dict(st.x.get("lmalloc", {}))
        ow[name] = malloc
        st.x["lmalloc"] = ow
        return cont, nodes

    def node(self, eng, st, name, nm, malloc):
        return eng.new_region(st, "input", C(self.L["size"]), {"name": nm, "objs": (self.L["data"],), "owner": None if malloc is None else A(malloc), "node": name})

    def expect(self, st, key, tokens):
        e = dict(st.x.get("exp", {}))
        e[key] = tuple(tokens)
        st.x["exp"] = e

    # ------------------------------------------------------------- tokens
    def seglen(self, st, q):
        e = st.x.get("seglen", {}).get(q)
        return e if e is not None else glen(q)

    def total(self, st, toks):
        n = ZERO
        for t in toks:
            if t[0] == "n":
                n = add(n, ONE)
            elif t[0] == "g":
                n = add(n, self.seglen(st, t[1]))
        return n

    def list_of(self, st, a):
        for nm, ts in st.x.get("tok", {}).items():
            for i, t in enumerate(ts):
                if t[0] == "n" and t[1] == a:
                    return nm, i
        return None, None

    def replace_seg(self, st, q, parts_for):
        """substitute a segment everywhere; parts_for(list name or None) -> tuple of tokens"""
        for key in ("tok", "exp"):
            d = dict(st.x.get(key, {}))
            for nm, ts in d.items():
                out = []
                for t in ts:
                    if t == ("g", q):
                        out.extend(parts_for(nm if key == "tok" else None))
                    else:
                        out.append(t)
                d[nm] = tuple(out)
            st.x[key] = d

    def learn(self, st, d):
        """a length was compared: segments without elements go away"""
        if not any(atom(i)[0] == "s" and str(atom(i)[1])[0] == "|" for i, _ in d.t):
            return True
        for q in {t[1] for ts in st.x.get("tok", {}).values() for t in ts if t[0] == "g"}:
            if st.facts.zero(self.seglen(st, q)):
                self.replace_seg(st, q, lambda nm: ())
                sl = st.x.get("seglen", {})
                if q in sl:
                    st.x["seglen"] = {k: v for k, v in sl.items() if k != q}
                elif not st.rewrite({aid(("s", "|%s|" % q, "u")): ZERO}):
                    return False
        return True

    def split(self, eng, st, q, side):
        """-> states in which segment q is empty, or shows a node at its left/right end"""
        res = []
        holders = [nm for nm, ts in st.x["tok"].items() for t in ts if t == ("g", q)]
        sl = st.x.get("seglen", {}).get(q)
        # empty
        s1 = st.copy()
        if sl is None or (sl.const and sl.c == 0):
            self.replace_seg(s1, q, lambda nm: ())
            if s1.rewrite({aid(("s", "|%s|" % q, "u")): ZERO}):
                res.append((s1, None))
        if sl is not None and sl.const and sl.c == 0:
            return res
        eng.n += 1
        q2 = "%s.%d" % (q.split(".")[0], eng.n)
        nodes = {}
        first = None
        for nm in dict.fromkeys(holders):
            a = self.node(eng, st, nm, "x%d" % eng.n, st.x["lmalloc"].get(nm))
            nodes[nm] = a
            if first is None:
                first = a
            else:
                # equal value sequences: the corresponding elements have equal values
                v = dict(st.x.get("val", {}))
                v[add(A(a), C(self.L["data"]))] = self.value_of(st, add(A(first), C(self.L["data"])))
                st.x["val"] = v
        if first is None:
            raise Incomplete("segment not in any structure")

        def parts(nm):
            n = ("n", nodes[nm] if nm is not None else first)
            return (n, ("g", q2)) if side == "l" else (("g", q2), n)
        self.replace_seg(st, q, parts)
        if sl is None:
            ok = st.rewrite({aid(("s", "|%s|" % q, "u")): add(glen(q2), ONE)})
        else:
            d = dict(st.x["seglen"])
            d.pop(q)
            d[q2] = sub(sl, ONE)
            st.x["seglen"] = d
            ok = True
        if ok:
            res.append((st, nodes))
        return res

    def resolve(self, eng, st, name, idx, side):
        """the node at position idx of structure `name` (looking from `side`): [(state, address)]"""
        out = []
        work = [(st, idx)]
        while work:
            s, i = work.pop()
            ts = s.x["tok"][name]
            if i < 0 or i >= len(ts):
                out.append((s, ZERO))
                continue
            t = ts[i]
            if t[0] == "n":
                out.append((s, A(t[1])))
            elif t[0] == "f":
                eng.finding(s, "use-after-free", eng.cur, "follows a link into a node that was released")
                eng.drop(s)
            else:
                n0 = len(ts)
                for s2, nodes in self.split(eng, s, t[1], "l" if side == "l" else "r"):
                    if nodes is None:
                        work.append((s2, i if side == "l" else i - 1))
                    else:
                        out.append((s2, A(nodes[name])))
        return out

    def materialize(self, eng, st, a, off, size, ty):
        r = st.mem[a]
        L = self.L
        info = r.info or {}
        if "list" in info and info["list"] in st.x.get("tok", {}):
            nm = info["list"]
            ts = st.x["tok"][nm]
            if off == L["head"]:
                return self.resolve(eng, st, nm, 0, "l")
            if off == L["tail"]:
                return self.resolve(eng, st, nm, len(ts) - 1, "r")
            if off == L["length"]:
                return [(st, self.total(st, ts))]
            if off == L["malloc"]:
                m = st.x["lmalloc"].get(nm)
                if m is not None:
                    return [(st, A(m))]
        if "node" in info and off in (L["next"], L["prev"]):
            nm, i = self.list_of(st, a)
            if nm is not None:
                return self.resolve(eng, st, nm, i + 1, "l") if off == L["next"] else self.resolve(eng, st, nm, i - 1, "r")
        return [(st, self.default_cell(eng, a, off, size, ty))]

    # ------------------------------------------------------------- walking the current structure
    def link(self, st, a, which):
        """current link of node a: ('a', Lin) or ('t', token) from the initial sequence, or ('?',)"""
        r = st.mem[a]
        off = self.L[which]
        if off is None:
            return ("?",)
        c = r.cells.get(off)
        if c is not None:
            return ("a", c[1])
        nm, i = self.list_of(st, a)
        if nm is None:
            return ("?",)
        ts = st.x["tok"][nm]
        j = i + 1 if which == "next" else i - 1
        if j < 0 or j >= len(ts):
            return ("a", ZERO)
        t = ts[j]
        if t[0] == "n":
            return ("a", A(t[1]))
        return ("t", t, nm, j)

    def contcell(self, st, name, which):
        cont = st.x["cont"][name]
        c = st.mem[cont].cells.get(self.L[which])
        if c is not None:
            return ("a", c[1])
        ts = st.x["tok"].get(name)
        if ts is None:
            return ("?",)
        if not ts:
            return ("a", ZERO)
        j = 0 if which == "head" else len(ts) - 1
        t = ts[j]
        if t[0] == "n":
            return ("a", A(t[1]))
        return ("t", t, name, j)

    def walk(self, st, name, links="next"):
        """the chain reached from the head cell: (tokens, problems)"""
        out, bad = [], []
        cur = self.contcell(st, name, "head")
        prev = None             # ('n', a) or ('g', q, list, j)
        seen = set()
        while True:
            if cur[0] == "?":
                bad.append("a link of the structure was never set")
                break
            if cur[0] == "a":
                v = cur[1]
                if not isinstance(v, Lin):
                    bad.append("a link of the structure holds an undefined value")
                    break
                if v.const and v.c == 0:
                    break
                a = v.single()
                if a is None or a not in st.mem or not self.is_node(st, a):
                    bad.append("a link leads to %s, which is not a node" % T.show(v))
                    break
                if a in seen:
                    bad.append("the links form a cycle at %s" % T.show_atom(a))
                    break
                seen.add(a)
                if st.mem[a].live is False:
                    bad.append("a released node is still linked: %s" % T.show_atom(a))
                    break
                self.check_back(st, a, prev, bad)
                out.append(("n", a))
                prev = ("n", a)
                cur = self.link(st, a, "next")
            else:
                _, t, nm, j = cur
                if t[0] == "f":
                    bad.append("released nodes are still linked")
                    break
                if (t, nm, j) in seen:
                    bad.append("the links form a cycle")
                    break
                seen.add((t, nm, j))
                # the segment's own first node still points back to what preceded it initially
                ts = st.x["tok"][nm]
                left = ts[j - 1] if j > 0 else None
                if not self.same_left(prev, left, nm, j):
                    bad.append("the back link of the first node of segment %s does not lead to its predecessor" % t[1])
                out.append(t)
                prev = ("g", t, nm, j)
                # leaving the segment: its last node still points to its initial right neighbour
                if j + 1 >= len(ts):
                    cur = ("a", ZERO)
                else:
                    r = ts[j + 1]
                    cur = ("a", A(r[1])) if r[0] == "n" else ("t", r, nm, j + 1)
        # tail
        tl = self.contcell(st, name, "tail") if self.L.get("tail") is not None else None
        if tl is not None and not bad:
            if tl[0] == "a":
                want = ZERO if prev is None else A(prev[1]) if prev[0] == "n" else None
                if want is None or tl[1] != want:
                    if not (want is not None and isinstance(tl[1], Lin) and st.facts.zero(sub(tl[1], want))):
                        bad.append("the tail pointer is %s, not the last node" % (T.show(tl[1])))
            elif tl[0] == "t":
                if prev is None or prev[0] != "g" or prev[1] != tl[1]:
                    bad.append("the tail pointer is not the last node of the chain")
            else:
                bad.append("the tail pointer was never set")
        return tuple(out), bad

    def is_node(self, st, a):
        info = st.mem[a].info or {}
        return "node" in info or st.mem[a].kind == "heap"

    def same_left(self, prev, left, nm, j):
        if left is None:
            return prev is None
        if prev is None:
            return False
        if left[0] == "n":
            return prev[0] == "n" and prev[1] == left[1]
        return prev[0] == "g" and prev[1] == left and prev[2] == nm and prev[3] == j - 1

    def check_back(self, st, a, prev, bad):
        if self.L.get("prev") is None:
            return
        b = self.link(st, a, "prev")
        nm = T.show_atom(a)
        if b[0] == "?":
            bad.append("the back link of %s was never set" % nm)
        elif b[0] == "a":
            if prev is None:
                if b[1] != ZERO:
                    bad.append("the first node's back link is not null (%s)" % T.show(b[1]))
            elif prev[0] == "n":
                if b[1] != A(prev[1]):
                    bad.append("the back link of %s is %s, not %s" % (nm, T.show(b[1]), T.show_atom(prev[1])))
            else:
                bad.append("the back link of %s is %s, not the last node of the segment before it" % (nm, T.show(b[1])))
        else:
            if prev is None or prev[0] != "g" or prev[1] != b[1]:
                bad.append("the back link of %s does not lead to its predecessor" % nm)

    def flatten(self, st, toks):
        """value sequence"""
        out = []
        for t in toks:
            if t[0] == "n":
                out.append(("v", self.value_of(st, add(A(t[1]), C(self.L["data"])))))
            else:
                out.append(t)
        return tuple(out)

    # ------------------------------------------------------------- final checks
    def check_list(self, st, name, expected=None, values=None, length=True):
        """failures of the final structure"""
        out = []
        toks, bad = self.walk(st, name)
        for b in bad:
            out.append(("links", b))
        if bad:
            return out
        if expected is not None and toks != tuple(expected):
            out.append(("content", "the chain is %s, expected %s" % (show_toks(toks), show_toks(expected))))
        if values is not None:
            got = self.flatten(st, toks)
            if got != tuple(values):
                out.append(("content", "the elements are %s, expected %s" % (show_vals(got), show_vals(values))))
        if length and self.L.get("length") is not None:
            cont = st.x["cont"][name]
            c = st.mem[cont].cells.get(self.L["length"])
            want = self.total(st, toks)
            if c is not None:
                if not isinstance(c[1], Lin):
                    out.append(("length", "the length is undefined"))
                elif not st.facts.zero(sub(c[1], want)):
                    out.append(("length", "the length is %s, the chain has %s nodes" % (T.show(c[1]), T.show(want))))
            else:
                ini = st.x["tok"].get(name)
                if ini is None or self.total(st, ini) != want:
                    out.append(("length", "the length was not updated: the chain now has %s nodes" % T.show(want)))
        # ownership
        mo = self.cont_malloc(st, name)
        for t in toks:
            if t[0] == "n":
                ow = (st.mem[t[1]].info or {}).get("owner")
                if ow is not None and mo is not None and ow != mo:
                    out.append(("ownership", "a node comes from allocator %s but its list uses %s" % (T.show(ow), T.show(mo))))
                if not self.obj(st, add(A(t[1]), C(self.L["data"]))):
                    out.append(("lifetime", "a linked node holds an element that is not alive"))
        return out

    def cont_malloc(self, st, name):
        cont = st.x["cont"][name]
        c = st.mem[cont].cells.get(self.L["malloc"]) if self.L.get("malloc") is not None else None
        if c is not None:
            return c[1]
        m = st.x["lmalloc"].get(name)
        return A(m) if m is not None else None

    def check_leaks(self, st, names):
        """every node is in one of the structures or was released; elements of released nodes are dead"""
        out = []
        inn = []
        for nm in names:
            ts, bad = self.walk(st, nm)
            inn += list(ts)
        for nm, ts in st.x.get("tok", {}).items():
            for t in ts:
                if t[0] == "n" and st.mem[t[1]].live is True and t not in inn:
                    out.append(("leak", "node %s is neither linked nor released" % T.show_atom(t[1])))
                if t[0] == "g" and t not in inn:
                    out.append(("leak", "the nodes of segment %s are neither linked nor released" % t[1]))
        for a, r in st.mem.items():
            if r.kind == "heap" and r.live is True and ("n", a) not in inn and not (r.info or {}).get("kept"):
                if not any(t == ("n", a) for ts in st.x.get("tok", {}).values() for t in ts):
                    out.append(("leak", "allocated block %s is neither linked nor released" % T.show_atom(a)))
        return out

    # ------------------------------------------------------------- loops
    def shape_loop(self, eng, st, b, header, blocks):
        f = st.frames[-1]
        depth = len(st.frames)
        ctx = LoopCtx(depth, header, blocks)
        eng.enter(st, b, header)
        store = {}              # key -> [state, version, exits]
        work = []
        rounds = 0

        def arrive(s):
            s.pending = None
            self.canon(eng, s, header)
            key, slots, qs = self.key(eng, s)
            old = store.get(key)
            if old is None:
                if os.environ.get("KA_SHAPE"):
                    print("SHAPE", key)
                if len(store) >= self.max_disjuncts:
                    raise Incomplete("too many shapes at a loop in " + f.fn["d"])
                store[key] = [s, []]
                work.append(key)
                return
            j = self.join(eng, old[0], s, slots, qs, key)
            if j is not None:
                store[key] = [j, []]
                if key not in work:
                    work.append(key)
            else:
                old[0].x["findings"] = merge(old[0].x.get("findings", []), s.x.get("findings", []))

        arrive(st)
        while work:
            key = work.pop(0)
            rounds += 1
            if rounds > 400:
                raise Incomplete("loop did not stabilise in " + f.fn["d"])
            cur = store[key][0]
            outs = eng.explore([cur.copy()], depth - 1, ctx)
            ex = []
            for k, s, v in outs:
                if k == "exit":
                    ex.append(s)
                elif k == "ret":
                    raise Incomplete("return inside a loop body")
            if key in store and store[key][0] is cur:
                store[key][1] = ex
            for k, s, v in outs:
                if k == "back":
                    pb, t = s.pending
                    s.pending = None
                    eng.enter(s, pb, header)
                    arrive(s)
        res = [s for _, ex in store.values() for s in ex]
        if not res:
            fs = []
            for s, _ in store.values():
                fs = merge(fs, s.x.get("findings", []))
            eng.endless = getattr(eng, "endless", []) + [(eng.m.loc(f.fn["blocks"][header][-1].get("l")), tuple(fs), None)]
        return res

    def canon(self, eng, st, header):
        # 1. registers that are still needed
        for i, f in enumerate(st.frames):
            live = eng.m.live_at(f.fn, f.bb, f.ip)
            f.regs = {k: v for k, v in f.regs.items() if k in live}
        # 2. finished locals
        for a in [a for a, r in st.mem.items() if r.live == "stack"]:
            del st.mem[a]
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == "w"]:
            if k[1] not in st.mem:
                del st.x[k]
        st.path = []
        st.events = []
        st.bools = {}
        # 3. rebase
        L = self.L
        if L.get("length") is not None:
            for nm, ts in st.x["tok"].items():
                r = st.mem[st.x["cont"][nm]]
                if L["length"] not in r.cells and r.kind != "heap" and ("f",) not in ts:
                    st.region(st.x["cont"][nm], True).cells[L["length"]] = (8, self.total(st, ts))
        for nm in list(st.x["tok"]):
            ts, bad = self.walk(st, nm)
            if not bad:
                lost = [t for t in st.x["tok"][nm] if t[0] == "g" and t not in ts]
                if lost:
                    continue
                keep = [t for t in st.x["tok"][nm] if t not in ts and t[0] == "n" and st.mem[t[1]].live is True]
                if keep:
                    continue
                if any(t[0] == "n" and self.list_of(st, t[1])[0] not in (None, nm) for t in ts):
                    continue
                old = st.x["tok"][nm]
                d = dict(st.x["tok"])
                d[nm] = ts
                st.x["tok"] = d
                for t in ts:
                    if t[0] == "n":
                        r = st.region(t[1], True)
                        r.info = {"name": (r.info or {}).get("name", "x"), "objs": (L["data"],), "owner": (r.info or {}).get("owner"), "node": nm}
                        if r.kind == "heap":
                            o = dict(st.x.get("obj", {}))
                            da = add(A(t[1]), C(L["data"]))
                            r.kind = "input"
                        r.cells.pop(L["next"], None)
                        r.cells.pop(L["prev"], None)
                for t in old:
                    if t[0] == "n" and t not in ts:
                        st.mem.pop(t[1], None)
                cont = st.x["cont"][nm]
                r = st.region(cont, True)
                r.kind = "input"
                r.cells.pop(L["head"], None)
                if L.get("tail") is not None:
                    r.cells.pop(L["tail"], None)
                if L.get("length") is not None:
                    c = r.cells.get(L["length"])
                    if c is not None and isinstance(c[1], Lin) and st.facts.zero(sub(c[1], self.total(st, ts))):
                        r.cells.pop(L["length"])
            else:
                for t in st.x["tok"][nm]:
                    if t[0] == "n" and st.mem[t[1]].live is True:
                        r = st.mem[t[1]]
                        for w in ("next", "prev"):
                            c = r.cells.get(L[w])
                            if c is None:
                                continue
                            rr = st.region(t[1], True)
                            sv = rr.cells.pop(L[w])
                            if self.link(st, t[1], w) != ("a", sv[1]):
                                rr.cells[L[w]] = sv
        # 4. names
        named = set()

        def mention(v):
            for i in T.value_atoms(v):
                a = atom(i)
                if a[0] == "R":
                    named.add(a)
        for f in st.frames:
            for v in f.regs.values():
                mention(v)
        for a, r in st.mem.items():
            for o, (z, v) in r.cells.items():
                if isinstance(v, (Lin, Agg)):
                    mention(v)
        # 5. fold
        # nodes that carry the value of a node that stays in sight stay in sight too
        pinned_vals = set()
        for nm, ts in st.x["tok"].items():
            for t in ts:
                if t[0] == "n" and t[1] in st.mem and st.mem[t[1]].live is not False and (t[1] in named or st.mem[t[1]].cells):
                    pinned_vals.add(self.value_of(st, add(A(t[1]), C(L["data"]))))
        newtok = {}
        rew = {}
        seglen = dict(st.x.get("seglen", {}))
        drop = set()
        fresh_q = {}
        folds = []
        for nm, ts in st.x["tok"].items():
            out, run = [], []

            def flush():
                if not run:
                    return
                if len(run) == 1 and run[0][0] == "g":
                    out.append(run[0])
                elif run[0][0] == "F":
                    out.append(("f",))
                else:
                    key = self.flatten(st, [t for t in run])
                    if key not in fresh_q:
                        eng.n += 1
                        q = "s%d" % eng.n
                        fresh_q[key] = q
                        tot = ZERO
                        gs = [t[1] for t in run if t[0] == "g"]
                        free = None
                        for t in run:
                            if t[0] == "n":
                                tot = add(tot, ONE)
                            else:
                                tot = add(tot, self.seglen(st, t[1]))
                                if t[1] not in seglen:
                                    free = t[1]
                        if free is None:
                            seglen[q] = tot
                        else:
                            rew[aid(("s", "|%s|" % free, "u"))] = sub(glen(q), sub(tot, glen(free)))
                        lo = sum(1 for t in run if t[0] == "n")
                        folds.append((q, lo))
                    out.append(("g", fresh_q[key]))
                    for t in run:
                        if t[0] == "n":
                            drop.add(t[1])
                    # expected sequences fold alike
                    run_t = tuple(run)
                    ex = dict(st.x.get("exp", {}))
                    for k, e in ex.items():
                        for i in range(len(e) - len(run_t) + 1):
                            if e[i:i + len(run_t)] == run_t:
                                e = e[:i] + (("g", fresh_q[key]),) + e[i + len(run_t):]
                                break
                        ex[k] = e
                    st.x["exp"] = ex
                del run[:]
            for t in ts:
                if t[0] == "n":
                    r = st.mem.get(t[1])
                    if r is None:
                        k = "F"
                    elif t[1] in named or [o for o in r.cells]:
                        if r.live is False and t[1] not in named:
                            k = "F"
                        else:
                            k = None
                    elif r.live is False:
                        k = "F"
                    elif self.obj(st, add(A(t[1]), C(L["data"]))):
                        # an element that is a copy of a named node's stays comparable with it
                        vo = self.value_of(st, add(A(t[1]), C(L["data"])))
                        k = None if vo in pinned_vals else "L"
                    else:
                        k = None
                elif t[0] == "g":
                    k = "L"
                else:
                    k = "F"
                if k is None:
                    flush()
                    out.append(t)
                elif k == "F":
                    if run and run[0][0] != "F":
                        flush()
                    if t[0] == "n":
                        drop.add(t[1])
                    run.append(("F",))
                else:
                    if run and run[0][0] == "F":
                        flush()
                    run.append(t)
            flush()
            newtok[nm] = tuple(out)
        st.x["tok"] = newtok
        st.x["seglen"] = seglen
        for a in drop:
            st.mem.pop(a, None)
        ex = dict(st.x.get("exp", {}))
        for k, e in ex.items():
            out = []
            for t in e:
                if t[0] == "n" and t[1] not in st.mem:
                    t = ("f",)
                if not (out and t == ("f",) and out[-1] == t):
                    out.append(t)
            ex[k] = tuple(out)
        st.x["exp"] = ex
        o = dict(st.x.get("obj", {}))
        v = dict(st.x.get("val", {}))
        for d in (o, v):
            for k in list(d):
                if any(atom(i) in drop or (atom(i)[0] == "R" and atom(i) not in st.mem) for i, _ in k.t):
                    del d[k]
        st.x["obj"], st.x["val"] = o, v
        if rew:
            st.rewrite(rew)
        for q, lo in folds:
            if q not in st.x["seglen"] and lo:
                fz = st.facts.with_ge(add(glen(q), C(-lo)))
                if fz is not None:
                    st.facts = fz
        # freed heap blocks that nobody names
        named2 = set()
        for a in [a for a, r in st.mem.items() if r.live is False and a not in named and not any(("n", a) in ts for ts in newtok.values())]:
            del st.mem[a]
        # forget value orderings of folded elements
        st.facts = Facts(st.facts.ge, st.facts.ne, {})

    def key(self, eng, st):
        """canonical description of the shape; numeric values become slots"""
        names = {}
        queue = []
        slots = []
        qs = []
        vals = {}

        def ref(a):
            if a not in names:
                names[a] = "n%d" % len(names)
                queue.append(a)
            return names[a]

        def qn(q):
            if q not in qs:
                qs.append(q)
            return "q%d" % qs.index(q)

        def value(v, path, ptr=None):
            if isinstance(v, Lin):
                rs = [(i, k) for i, k in v.t if atom(i)[0] == "R" and atom(i) in st.mem]
                if rs:
                    if len(rs) == 1 and rs[0][1] == 1 and len(v.t) == 1:
                        return "%s+%d" % (ref(atom(rs[0][0])), v.c)
                    return "mix:" + ",".join(ref(atom(i)) for i, _ in rs) + T.show(v)
                if any(atom(i)[0] in ("G",) for i, k in v.t):
                    return T.show(v)
                if v.const and v.c in (0,) and ptr:
                    return "null"
                if any(atom(i)[0] == "undef" for i, _ in v.t):
                    return "undef"
                slots.append((path, v))
                return "#"
            if isinstance(v, Agg):
                return "{" + ",".join(value(x, path + (i,)) for i, x in enumerate(v.e)) + "}"
            if isinstance(v, Undef):
                return "undef"
            return T.show(v)
        out = []
        for nm in sorted(st.x["tok"]):
            out.append("C%s=%s" % (nm, ref(st.x["cont"][nm])))
        for i, f in enumerate(st.frames):
            rt = {}
            out.append("F%s@%d.%d" % (f.fn["name"], f.bb, f.ip))
            for k in sorted(f.regs, key=str):
                v = f.regs[k]
                isb = self.reg_type(eng, f.fn, k)
                if isb == "i1" and isinstance(v, Lin) and v.const:
                    out.append("r%s=%s" % (k, v.c))
                    continue
                out.append("r%s=%s" % (k, value(v, ("r", i, k), isb == "ptr")))
        for nm in sorted(st.x["tok"]):
            ts = []
            for t in st.x["tok"][nm]:
                ts.append(ref(t[1]) if t[0] == "n" else "f" if t[0] == "f" else qn(t[1]))
            out.append("T%s=[%s]" % (nm, " ".join(ts)))
        done = 0
        while done < len(queue):
            a = queue[done]
            done += 1
            r = st.mem[a]
            out.append("%s:%s:%s" % (names[a], r.kind, r.live))
            ob = self.obj(st, add(A(a), C(self.L["data"]))) if (r.info or {}).get("node") or r.kind == "heap" else None
            out.append("o%s" % ob)
            for o in sorted(r.cells, key=str):
                z, v = r.cells[o]
                out.append("%s.%d=%s" % (o, z, value(v, ("c", a, o), z == 8)))
            for so, sz, sv in r.symw:
                out.append("sym%s" % T.show(so))
        for nm in sorted(st.x.get("exp", {})):
            out.append("E%s=[%s]" % (nm, " ".join(names.get(t[1], "?") if t[0] == "n" else "f" if t[0] == "f" else qn(t[1]) for t in st.x["exp"][nm])))
        # values of named elements: equality pattern
        for n, a in enumerate(queue):
            da = add(A(a), C(self.L["data"]))
            if da in st.x.get("val", {}):
                v = st.x["val"][da]
                out.append("v%d=%s" % (n, vals.setdefault(v, self.valname(st, v, queue, len(vals)))))
        out.append("misc=%s" % (st.x.get("misc"),))
        sq = [(("q", q), self.seglen(st, q)) for q in qs]
        return "|".join(out), sq + slots, qs

    def valname(self, st, v, queue, n):
        a = v.single() if isinstance(v, Lin) else None
        if a is not None and a[0] == "op" and a[1] in ("val", "movedfrom"):
            x = a[3]
            for i, k in x.t:
                if atom(i) in queue:
                    return "%s(n%d)" % (a[1], queue.index(atom(i)))
            if any(atom(i)[0] == "R" and atom(i) not in st.mem for i in T.value_atoms(v)):
                return "anon%d" % n
        return T.show(v)

    def reg_type(self, eng, fn, rid):
        c = fn.get("_rt")
        if c is None:
            c = {}
            for i, t, _, _ in fn["args"]:
                c[i] = t
            for b in fn["blocks"]:
                for ins in b:
                    if "id" in ins:
                        c[ins["id"]] = ins["t"]
            fn["_rt"] = c
        t = c.get(rid)
        if t is None:
            return "?"
        ty = eng.ty(t)
        return "ptr" if ty["k"] == "ptr" else "i%d" % ty["w"] if ty["k"] == "int" else ty["k"]

    def join(self, eng, old, new, nslots, nqs, key):
        """old state generalised so that it covers new as well; None if it already does"""
        _, oslots, oqs = self.key(eng, old)
        ren = {aid(("s", "|%s|" % b, "u")): glen(a) for a, b in zip(oqs, nqs)}
        # simultaneous renaming
        nv = [T.rewrite(v, ren) if isinstance(v, Lin) else v for _, v in nslots]
        changed = False
        nq = len(oqs)
        # does the old state already cover the new one (free lengths instantiated)?
        inst = {}
        fit = True
        for i in range(nq):
            a, b = oslots[i][1], nv[i]
            if a == glen(oqs[i]):
                inst[aid(a.single())] = b
            elif a != b:
                fit = False
        if fit:
            memo = {}
            jmap = {}
            for (path, a), b in list(zip(oslots, nv))[nq:]:
                sa = a.single() if isinstance(a, Lin) else None
                if sa is not None and sa[0] == "s" and sa[1][0] == "j" and isinstance(b, Lin):
                    if jmap.setdefault(aid(sa), b) != b:
                        fit = False
            inst2 = {**jmap, **inst}
            for (path, a), b in list(zip(oslots, nv))[nq:]:
                if not fit or not (a == b or (isinstance(a, Lin) and T.rewrite(a, inst2, memo) == b)):
                    fit = False
                    break
            if fit:
                back = {aid(glen(a).single()): glen(b) for a, b in zip(oqs, nqs)}
                for l in old.facts.ge:
                    if not new.facts.entails(T.rewrite(T.rewrite(l, inst2, memo), back)):
                        fit = False
                for l in old.facts.ne:
                    if not new.facts.nonzero(T.rewrite(T.rewrite(l, inst2, memo), back)):
                        fit = False
            if fit:
                return None
        res = old.copy()
        lens = {}
        for i in range(nq):
            q = oqs[i]
            a, b = oslots[i][1], nv[i]
            # a segment with known length has an expression different from its own symbol
            if a != b:
                changed = True
                if os.environ.get("KA_SHAPE"):
                    print("JOINLEN", q, a, b)
                d = dict(res.x.get("seglen", {}))
                d.pop(q, None)
                res.x["seglen"] = d
                lo = min(x.c if x.const else 0 for x in (a, b))
                if lo > 0:
                    fz = res.facts.with_ge(add(glen(q), C(-lo)))
                    res.facts = fz or res.facts
            lens[q] = (a, b)
        sub_ = []
        for (path, a), b in list(zip(oslots, nv))[nq:]:
            if a == b:
                sub_.append((path, a))
                continue
            sa = a.single() if isinstance(a, Lin) else None
            if sa is not None and sa[0] == "s" and sa[1][0] == "j" and sum(1 for _, x in oslots if isinstance(x, Lin) and aid(sa) in T.value_atoms(x)) == 1 \
                    and not any(aid(sa) in T.value_atoms(l) for l in old.facts.ge + old.facts.ne):
                sub_.append((path, a))
                continue
            changed = True
            if os.environ.get("KA_SHAPE"):
                print("JOIN", path, a, b)
            for q, (la, lb) in lens.items():
                if la != lb and sub(a, la) == sub(b, lb):
                    sub_.append((path, add(glen(q), sub(a, la))))
                    break
            else:
                # a joined value keeps one symbol per pair
                kd = "u" if old.facts.entails(a) and new.facts.entails(b) else "i"
                sub_.append((path, A(("s", "j%d" % eng.bump(), kd))))
        # facts common to both
        keep = []
        for l in res.facts.ge:
            nl = T.rewrite(l, {aid(glen(a).single()): glen(b) for a, b in zip(oqs, nqs)})
            if new.facts.entails(nl) or (l not in old.facts.ge):
                keep.append(l)
            else:
                changed = True
                if os.environ.get("KA_SHAPE"):
                    print("DROPFACT", l, nl, new.facts.ge)
        keepn = []
        for l in res.facts.ne:
            nl = T.rewrite(l, {aid(glen(a).single()): glen(b) for a, b in zip(oqs, nqs)})
            if new.facts.nonzero(nl):
                keepn.append(l)
            else:
                changed = True
        if not changed:
            return None
        res.facts = Facts(tuple(keep), tuple(keepn), {})
        for path, v in sub_:
            if path[0] == "r":
                if len(path) == 3:
                    res.frames[path[1]].regs[path[2]] = v
                else:
                    raise Incomplete("aggregate join")
            elif path[0] == "c":
                r = res.region(path[1], True)
                z, _ = r.cells[path[2]]
                r.cells[path[2]] = (z, v)
        res.x["findings"] = merge(old.x.get("findings", []), new.x.get("findings", []))
        return res


def merge(a, b):
    out = list(a)
    for x in b:
        if x not in out:
            out.append(x)
    return out


def show_toks(ts):
    return "[" + " ".join(T.show_atom(t[1]) if t[0] == "n" else "released" if t[0] == "f" else "..%s.." % t[1] for t in ts) + "]"


def show_vals(ts):
    return "[" + " ".join(T.show(t[1]) if t[0] == "v" else "..%s.." % (t[1] if len(t) > 1 else t[0]) for t in ts) + "]"
