"""containers/set.h: set algebra as a merge of two ordered sequences, lookups and updates through the tree's contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.tree import *

KEYS = [("R", -1 - i, "key%d" % i) for i in range(5)]
OUT = ("R", -9, "out")


class SeqSpec(RBT):
    """sets are strictly increasing sequences; nodes are materialised one by one along the threads"""
    max_disjuncts = 400

    def isnode(self, st, a):
        return bool((st.mem[a].info or {}).get("chainof"))

    def begin(self, st):
        super().begin(st)
        st.x.update(first={}, chain={"A": (), "B": ()}, seen={"A": frozenset(), "B": frozenset()}, below={}, dropped={"A": False, "B": False},
                    rm={}, mark={}, sub={}, contents={})

    def new_set(self, eng, st, nm, label):
        a = eng.new_region(st, "input", C(self.L["setsz"]), {"name": label, "set": nm})
        self.put(st, "cont", label, a)
        self.put(st, "contents", a, ("set", label))
        return a

    def count_of(self, st, nm):
        if st.x["first"][nm] == ZERO:
            return ZERO
        n = A(("s", "|%s|" % nm, "u"))
        st.facts = st.facts.with_ge(sub(n, ONE))
        return n

    def opaque(self, a):
        # how many elements a set has is not related to the elements that were seen
        return a[0] == "s" and a[1] in ("|A|", "|B|")

    def other(self, st, nm):
        return nm if st.x.get("self") else {"A": "B", "B": "A"}[nm]

    def materialize(self, eng, st, a, off, size, ty):
        info = st.mem[a].info or {}
        base = self.L["tree"]
        if "set" in info:
            nm = info["set"]
            if off == base + self.L["root"]:
                if st.x["first"].get(nm) is None:
                    s1 = st.copy()
                    self.put(s1, "first", nm, ZERO)
                    r = eng.new_region(st, "input", C(self.L["size"]), {"name": "root" + nm, "rootof": nm})
                    self.put(st, "first", nm, A(r))
                    return [(s1, ZERO), (st, A(r))]
                return [(st, st.x["first"][nm])]
            if off == base + self.L["numNodes"]:
                if st.x["first"].get(nm) is None:
                    return [(s, self.count_of(s, nm)) for s, _ in self.materialize(eng, st, a, base + self.L["root"], size, ty)]
                return [(st, self.count_of(st, nm))]
            raise Incomplete("field of a set")
        if info.get("chainof"):
            if off == self.L["next"]:
                return self.get_next(eng, st, a)
            if off == self.L["prev"]:
                ch = st.x["chain"][info["chainof"]]
                i = ch.index(a)
                if i:
                    return [(st, A(ch[i - 1]))]
                if not st.x["dropped"][info["chainof"]]:
                    return [(st, ZERO)]
            raise Incomplete("link of a set node")
        if info.get("rootof"):
            raise Incomplete("the root node is looked at")
        return super().materialize(eng, st, a, off, size, ty)

    def seqnode(self, eng, st, nm):
        ch = st.x["chain"][nm]
        a = eng.new_region(st, "input", C(self.L["size"]), {"name": nm.lower(), "chainof": nm})
        if ch:
            if st.x["below"].get(ch[-1]) in ("<", "<="):
                self.put(st, "below", a, "<")
        st.x["chain"] = {**st.x["chain"], nm: ch + (a,)}
        return a

    def get_first(self, eng, st, nm):
        if st.x["chain"][nm] and not st.x["dropped"][nm]:
            a = st.x["chain"][nm][0]
            if a in st.x["rm"] or st.mem[a].live is False:
                raise Incomplete("first node after a removal")
            return a
        if st.x["dropped"][nm]:
            raise Incomplete("the first node is looked up again")
        return self.seqnode(eng, st, nm)

    def get_next(self, eng, st, a):
        v = self.pre(st, a, "next")
        if v is not None:
            return [(st, v)]
        nm = st.mem[a].info["chainof"]
        if st.x.get("tainted") == nm:
            raise Incomplete("follows links after an insertion")
        s1 = st.copy()
        self.setpre(s1, a, "next", ZERO)
        n = self.seqnode(eng, st, nm)
        self.setpre(st, a, "next", A(n))
        return [(s1, ZERO), (st, A(n))]

    # ---- ordering facts, closed under transitivity and thread order
    def val(self, st, a):
        return self.value_of(st, self.data(a))

    def closure(self, st, extra=()):
        vs = []
        for nm in ("A", "B"):
            for a in st.x["chain"][nm]:
                v = self.val(st, a)
                if v not in vs:
                    vs.append(v)
        for v in extra:
            if v not in vs:
                vs.append(v)
        ix = {v: i for i, v in enumerate(vs)}
        n = len(vs)
        INF = 3  # 2: strictly less, 1: less or equal, 0: nothing
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            m[i][i] = 1
        for nm in ("A", "B"):
            ch = st.x["chain"][nm]
            for a, b in zip(ch, ch[1:]):
                m[ix[self.val(st, a)]][ix[self.val(st, b)]] = 2
        for (x, y), r in st.facts.rel.items():
            if x in ix and y in ix:
                i, j = ix[x], ix[y]
                if r <= {"<", "="}:
                    m[i][j] = max(m[i][j], 2 if r == {"<"} else 1)
                if r <= {">", "="}:
                    m[j][i] = max(m[j][i], 2 if r == {">"} else 1)
        for k in range(n):
            for i in range(n):
                if m[i][k]:
                    for j in range(n):
                        if m[k][j]:
                            m[i][j] = max(m[i][j], 2 if 2 in (m[i][k], m[k][j]) else 1)
        return ix, m

    def rel(self, st, x, y):
        if x == y:
            return frozenset("=")
        ix, m = self.closure(st, (x, y))
        i, j = ix[x], ix[y]
        r = super().rel(st, x, y)
        if m[i][j] == 2:
            r &= {"<"}
        elif m[i][j] == 1:
            r &= {"<", "="}
        if m[j][i] == 2:
            r &= {">"}
        elif m[j][i] == 1:
            r &= {">", "="}
        return r

    def order_split(self, eng, st, opn, x, y):
        out = []
        for s, v in super().order_split(eng, st, opn, x, y):
            ix, m = self.closure(s, (x, y))
            if any(m[i][i] == 2 for i in range(len(m))):
                continue
            r = self.rel(s, x, y)
            if not r:
                continue
            truth = r <= {opn[0]} if v == ONE else opn[0] not in r
            if not truth:
                if v == ONE and opn[0] not in r:
                    continue
                if v == ZERO and r == {opn[0]}:
                    continue
            out.append((s, v))
        return out

    # ---- membership of an element of one set in the other
    def classify(self, st, a):
        nm = st.mem[a].info["chainof"] if a in st.mem else None
        if st.x.get("self"):
            return "in"
        o = self.other(st, nm)
        v = self.val(st, a)
        if st.x["mark"].get(a):
            return st.x["mark"][a]
        ch = st.x["chain"][o]
        if st.x["first"].get(o) == ZERO:
            return "out"
        rs = [self.rel(st, v, self.val(st, b)) for b in ch]
        if any(r == {"="} for r in rs):
            return "in"
        if not ch:
            return "unk"
        # position in the other sequence
        if rs[0] == {"<"} and (not st.x["dropped"][o] or st.x["below"].get(a) == "<"):
            return "out"
        for i in range(len(ch) - 1):
            if rs[i] == {">"} and rs[i + 1] == {"<"}:
                return "out"
        if rs[-1] == {">"} and self.pre(st, ch[-1], "next") == ZERO:
            return "out"
        return "unk"

    def ended(self, st, nm):
        if st.x["first"].get(nm) == ZERO:
            return True
        ch = st.x["chain"][nm]
        return bool(ch) and self.pre(st, ch[-1], "next") == ZERO

    def rest(self, st, nm):
        """class of the elements after the last materialised one: None when there are none"""
        if self.ended(st, nm):
            return None
        if st.x.get("self"):
            return "in"
        o = self.other(st, nm)
        if st.x["first"].get(o) == ZERO:
            return "out"
        ch, co = st.x["chain"][nm], st.x["chain"][o]
        if ch and co and self.ended(st, o) and self.rel(st, self.val(st, co[-1]), self.val(st, ch[-1])) <= {"<", "="}:
            return "out"
        return "unk"

    def classes(self, st, nm):
        """set of (class, removed) over all elements of one set; the rest is ('rest-..', False)"""
        out = set(st.x["seen"][nm])
        for a in st.x["chain"][nm]:
            out.add((self.classify(st, a), bool(st.x["rm"].get(a))))
        r = self.rest(st, nm)
        if r is not None:
            out.add(("rest-" + r, False))
        return out

    # ---- contracts of the tree
    def handler(self, eng, name, dem):
        head = dem[:dem.index("(")] if "(" in dem else dem
        if "BinaryNode<" in head and not head.startswith("Set<"):
            h = getattr(self, "n_" + short(dem), None)
            if h:
                return h
        if "BinaryTree<" in head and not head.startswith("Set<"):
            h = getattr(self, "t_" + short(dem).replace("~", "d_").replace("operator=", "assign").replace("BinaryTree", "ctor"), None)
            if h:
                return h
        if getattr(self, "nested", False) and dem.startswith("Set<") and "operator" in dem and dem.split("operator")[1][:2] in ("+=", "*=", "-="):
            return self.s_compound
        return super().handler(eng, name, dem)

    def setof(self, st, p):
        b = self.base(st, p) if isinstance(p, Lin) else None
        nm = (st.mem[b].info or {}).get("set") if b is not None else None
        if nm is None or sub(p, A(b)) != C(self.L["tree"]):
            raise Incomplete("not one of the sets")
        return nm, b

    def n_getMin(self, eng, st, ins, args, dem):
        a = args[0].single() if isinstance(args[0], Lin) else None
        if args[0] == ZERO:
            eng.finding(st, "null-deref", ins, "minimum of an empty tree")
            eng.drop(st)
            return []
        nm = (st.mem[a].info or {}).get("rootof")
        if nm is None:
            raise Incomplete("minimum of another node")
        if st.x.get("single"):
            return [(st, A(("op", "first", 64, args[0])))]
        return [(st, A(self.get_first(eng, st, nm)))]

    def n_getMax(self, eng, st, ins, args, dem):
        raise Incomplete("the last node is looked up")

    def found(self, eng, st, nm, key):
        """look up a value: a node of the set or nothing"""
        if st.x["first"].get(nm) is None:
            outs = []
            base = st.x["cont"]["this" if nm == "A" else "other"]
            for s, v in self.materialize(eng, st, base, self.L["tree"] + self.L["root"], 8, None):
                outs += self.found(eng, s, nm, key)
            return outs
        if st.x["first"].get(nm) == ZERO:
            return [(st, None)]
        if st.x.get("single"):
            got = st.x.setdefault("hits", {})
            if (nm, key) in got:
                return [(st, got[(nm, key)])]
            s2 = st.copy()
            s2.x["hits"] = {**got, (nm, key): None}
            n = eng.new_region(st, "input", C(self.L["size"]), {"name": "hit", "hit": nm})
            st.x["hits"] = {**got, (nm, key): n}
            return [(st, n), (s2, None)]
        for a in st.x["chain"][nm]:
            if self.rel(st, self.val(st, a), key) == {"="}:
                if st.x["rm"].get(a):
                    return [(st, None)]
                return [(st, a)]
        # is it known to be missing?
        for o in ("A", "B"):
            for b in st.x["chain"][o]:
                if o != nm and self.val(st, b) == key:
                    c = self.classify(st, b)
                    if c == "out":
                        return [(st, None)]
                    if c == "unk":
                        s2 = st.copy()
                        self.put(st, "mark", b, "in")
                        self.put(s2, "mark", b, "out")
                        n = eng.new_region(st, "input", C(self.L["size"]), {"name": "hit", "hit": nm})
                        return [(st, n), (s2, None)]
        raise Incomplete("look-up of another value")

    def n_find(self, eng, st, ins, args, dem):
        a = args[0].single() if isinstance(args[0], Lin) else None
        nm = (st.mem[a].info or {}).get("rootof") if a in st.mem else None
        if nm is None:
            raise Incomplete("search from another node")
        st.events.append(("find", short(dem), args[1]))
        return [(s, A(n) if n is not None else ZERO) for s, n in self.found(eng, st, nm, self.value_of(st, args[1]))]
    n_findMin = n_findMax = n_find

    def t_insertUnique(self, eng, st, ins, args, dem):
        nm, b = self.setof(st, args[0])
        key = self.value_of(st, args[1])
        st.events.append(("insert", args[1]))
        if st.x.get("single"):
            st.x["ins"] = st.x.get("ins", ()) + (args[1],)
            return [(st, A(("op", "placed", 64, args[0], args[1])))]
        if nm != "A":
            eng.finding(st, "modified", ins, "the other set is changed")
        src = [x for x in st.x["chain"]["B"] if self.val(st, x) == key]
        if not src and not any(self.val(st, x) == key for x in st.x["chain"]["A"]):
            eng.finding(st, "content", ins, "an element is added that is in neither set")
            return [(st, A(("op", "placed", 64, args[0], args[1])))]
        for x in src:
            self.put(st, "mark", x, "in")
            # links read so far stay valid only where the new node cannot come between
            ch = st.x["chain"]["A"]
            for a in ch:
                if self.rel(st, key, self.val(st, a)) <= {"<", "="}:
                    break
            else:
                st.x["tainted"] = "A"
        return [(st, A(("op", "placed", 64, args[0], args[1])))]

    def t_insert(self, eng, st, ins, args, dem):
        raise Incomplete("insertion without a look-up")

    def t_removeNode(self, eng, st, ins, args, dem):
        nm, b = self.setof(st, args[0])
        n = args[1].single() if isinstance(args[1], Lin) else None
        if args[1] == ZERO:
            eng.finding(st, "null-deref", ins, "removal of no node")
            eng.drop(st)
            return []
        if n is None or n not in st.mem:
            raise Incomplete("removal of a computed node")
        eng.check_live(st, n, st.mem[n], ins, "use")
        if st.x.get("single"):
            st.x["removed"] = st.x.get("removed", ()) + (args[1],)
            st.region(n, True).live = False
            return [(st, A(("s", "after%d" % eng.bump(), "p")))]
        if (st.mem[n].info or {}).get("hit"):
            raise Incomplete("removal of a node found by value")
        if st.mem[n].info["chainof"] != nm or nm != "A":
            eng.finding(st, "modified", ins, "a node of the other set is removed")
        if st.x["rm"].get(n):
            eng.finding(st, "double-free", ins, "a node is removed twice")
        out = []
        for s, v in self.get_next(eng, st, n):
            self.put(s, "rm", n, True)
            s.region(n, True).live = False
            if v == ZERO:
                out.append((s, ZERO))
                continue
            # the successor may change its node
            m = v.single()
            k = eng.new_region(s, "input", C(self.L["size"]), {"name": nm.lower(), "chainof": nm})
            s.x["chain"] = {**s.x["chain"], nm: tuple(k if x == m else x for x in s.x["chain"][nm])}
            o = dict(s.x.get("val", {}))
            o[self.data(k)] = self.val(s, m)
            s.x["val"] = o
            for d in ("below", "mark"):
                if m in s.x[d]:
                    self.put(s, d, k, s.x[d][m])
            nx = self.pre(s, m, "next")
            if nx is not None:
                self.setpre(s, k, "next", nx)
            self.setpre(s, n, "next", A(k))
            s.region(m, True).live = False
            out.append((s, A(k)))
        return out

    def t_remove(self, eng, st, ins, args, dem):
        if not st.x.get("single"):
            raise Incomplete("removal by value")
        nm, b = self.setof(st, args[0])
        if "Iterator" in dem[dem.index("("):] or "IteratorBase" in dem[dem.rindex("("):]:
            raise Incomplete("removal by iterator")
        out = []
        for s, n in self.found(eng, st, nm, self.value_of(st, args[1])):
            if n is not None:
                s.x["removed"] = s.x.get("removed", ()) + (A(n),)
                s.region(n, True).live = False
            out.append((s, ONE if n is not None else ZERO))
        return out

    def t_empty(self, eng, st, ins, args, dem):
        nm, b = self.setof(st, args[0])
        st.x["emptied"] = True
        for a in st.x["chain"][nm]:
            st.region(a, True).live = False
        return [(st, None)]

    # copies of whole sets as terms
    def t_ctor(self, eng, st, ins, args, dem):
        b = self.base(st, args[0])
        if b is None or st.mem[b].kind not in ("alloca", "heap"):
            raise Incomplete("construction of a tree")
        if len(args) == 1:
            self.put(st, "contents", b, ("empty",))
        else:
            src = self.base(st, args[1])
            if src is None or src not in st.x["contents"]:
                raise Incomplete("copy of an unknown set")
            self.put(st, "contents", b, st.x["contents"][src])
            if "&&" in dem:
                self.put(st, "contents", src, ("empty",))
        return [(st, None)]

    def t_assign(self, eng, st, ins, args, dem):
        d, s = self.base(st, args[0]), self.base(st, args[1])
        if s not in st.x["contents"]:
            raise Incomplete("assignment of an unknown set")
        self.put(st, "contents", d, st.x["contents"][s])
        if "&&" in dem:
            self.put(st, "contents", s, ("empty",))
        return [(st, args[0])]

    def t_d_ctor(self, eng, st, ins, args, dem):
        return [(st, None)]

    def s_compound(self, eng, st, ins, args, dem):
        d, s = self.base(st, args[0]), self.base(st, args[1])
        if d not in st.x["contents"] or s not in st.x["contents"]:
            raise Incomplete("operation on an unknown set")
        self.put(st, "contents", d, (dem.split("operator")[1][:2], st.x["contents"][d], st.x["contents"][s]))
        return [(st, args[0])]

    # ---- loops
    def canon(self, eng, st):
        for f in st.frames:
            live = eng.m.live_at(f.fn, f.bb, f.ip)
            f.regs = {k: v for k, v in f.regs.items() if k in live}
        for a in [a for a, r in st.mem.items() if r.live == "stack"]:
            del st.mem[a]
        st.path, st.events, st.bools = [], [], {}
        named = set()

        def mention(v):
            for i in T.value_atoms(v):
                if atom(i)[0] == "R":
                    named.add(atom(i))
        for f in st.frames:
            for v in f.regs.values():
                mention(v)
        for a, r in st.mem.items():
            if not self.isnode(st, a):
                for o, (z, v) in r.cells.items():
                    if isinstance(v, (Lin, Agg)):
                        mention(v)
        # what is known about membership stays known
        if not st.x.get("self"):
            for nm in ("A", "B"):
                for a in st.x["chain"][nm]:
                    c = self.classify(st, a)
                    if c != "unk":
                        self.put(st, "mark", a, c)
            self.save_rel(st)
        # forget the front of each sequence
        for nm in ("A", "B"):
            while True:
                ch = st.x["chain"][nm]
                if len(ch) < 2 or ch[0] in named or self.pre(st, ch[0], "next") is None:
                    break
                a = ch[0]
                cls = (self.classify(st, a), bool(st.x["rm"].get(a)))
                st.x["seen"] = {**st.x["seen"], nm: st.x["seen"][nm] | {cls}}
                o = self.other(st, nm)
                if o != nm:
                    for b in st.x["chain"][o]:
                        r = self.rel(st, self.val(st, a), self.val(st, b))
                        was = st.x["below"].get(b, None if st.x["dropped"][nm] else "<")
                        self.put(st, "below", b, "<" if r == {"<"} and was == "<" else "<=" if r <= {"<", "="} and was else "")
                st.x["dropped"] = {**st.x["dropped"], nm: True}
                st.x["chain"] = {**st.x["chain"], nm: ch[1:]}
                # what its value implied between the others must not be lost
                self.save_rel(st)
                st.x["pre"] = {k: v for k, v in st.x["pre"].items() if k[0] != a}
                for d in ("rm", "mark", "below"):
                    st.x[d] = {k: v for k, v in st.x[d].items() if k != a}
                del st.mem[a]
        alive = {a for nm in ("A", "B") for a in st.x["chain"][nm]}
        vals = {self.val(st, a) for a in alive} | {self.value_of(st, A(k)) for k in KEYS}
        for a in [a for a in st.mem if self.isnode(st, a) and a not in alive and a not in named]:
            del st.mem[a]
        rel = {k: v for k, v in st.facts.rel.items() if k[0] in vals and k[1] in vals}
        st.facts = Facts(st.facts.ge, st.facts.ne, rel)

    def save_rel(self, st):
        vs = [self.val(st, a) for nm in ("A", "B") for a in st.x["chain"][nm]]
        rel = dict(st.facts.rel)
        for x in vs:
            for y in vs:
                if x != y and aidkey_(x) < aidkey_(y):
                    r = self.rel(st, x, y)
                    if r != frozenset("<=>"):
                        rel[(x, y)] = r
        st.facts = Facts(st.facts.ge, st.facts.ne, rel)

    def key(self, eng, st):
        st.x["keep"] = tuple(a for nm in ("A", "B") for a in st.x["chain"][nm])
        k, slots = super().key(eng, st)
        extra = []
        for nm in ("A", "B"):
            extra.append("%s:%s:%s:%s:%s" % (nm, "0" if st.x["first"].get(nm) == ZERO else "?" if st.x["first"].get(nm) is None else "r",
                                            sorted(st.x["seen"][nm]), st.x["dropped"][nm], self.ended(st, nm)))
            for a in st.x["chain"][nm]:
                extra.append("%s%s%s%s" % (st.x["rm"].get(a), st.x["mark"].get(a), st.x["below"].get(a), self.classify(st, a)))
        return k + "|" + "|".join(extra) + str(st.x.get("tainted")) + str(st.x.get("emptied")), slots


def setup(pid):
    import small
    ck = Checker(pid, "set.cpp", fallback=lambda rep: small.small(rep, "algebra" if pid == "S01" else "set"))
    return ck, SeqSpec(ck.m, dict(ck.m.K))


def run_algebra(ck, sp):
    def pre(eng):
        for self_ in (False, True):
            st = State()
            sp.begin(st)
            a = sp.new_set(eng, st, "A", "this")
            if self_:
                st.x["self"] = True
                yield "with itself", st, [A(a), A(a)]
            else:
                b = sp.new_set(eng, st, "B", "other")
                yield "", st, [A(a), A(b)]

    def every(cl, ok):
        return all(c in ok for c in cl)

    def all_in(c):
        return all(x[0] in ("in", "rest-in") for x in c)

    def has_out(c):
        return any(x[0] == "out" for x in c)

    def post_cmp(op):
        def f(eng, label, s, v):
            if not (isinstance(v, Lin) and v.const):
                raise Incomplete("undetermined result")
            a = sp.classes(s, "A")
            b = a if s.x.get("self") else sp.classes(s, "B")
            if op in (">=", ">"):
                a, b = b, a
            if s.x.get("emptied") or any(s.x["rm"].values()) or any(x[1] for x in a | b):
                return [("modified", "a comparison changes a set")]
            if op in ("<=", ">="):
                yes, no = all_in(a), has_out(a)
            elif op in ("<", ">"):
                yes, no = all_in(a) and has_out(b), has_out(a) or (all_in(a) and all_in(b))
            else:
                yes, no = all_in(a) and all_in(b), has_out(a) or has_out(b)
                if op == "!=":
                    yes, no = no, yes
            if v.c and not yes:
                return [("result", "yields true where that is not established")]
            if not v.c and not no:
                return [("result", "yields false where that is not established")]
            return []
        return f
    for f, op in (("s_eq", "=="), ("s_ne", "!="), ("s_le", "<="), ("s_ge", ">="), ("s_lt", "<"), ("s_gt", ">")):
        ck.obligation(f, sp, f, pre, post_cmp(op))

    def post_op(op):
        def f(eng, label, s, v):
            out = []
            a = sp.classes(s, "A")
            b = sp.classes(s, "B") if not s.x.get("self") else set()
            if v != A(s.x["cont"]["this"]):
                out.append(("result", "the operation does not return the set it changed"))
            if s.x.get("emptied"):
                if not (op == "-" and s.x.get("self")):
                    out.append(("content", "the set is emptied"))
                return out
            if any(x[1] for x in b):
                out.append(("modified", "the other set is changed"))
            if op == "+":
                if any(x[1] for x in a):
                    out.append(("content", "an element is removed"))
                if not all(x[0] in ("in", "rest-in") for x in b):
                    out.append(("content", "an element of the other set may be missing from the union"))
            elif op == "*":
                if any(x[0].endswith("in") and x[1] for x in a):
                    out.append(("content", "a common element is removed"))
                if any(x[0].endswith("out") and not x[1] for x in a):
                    out.append(("content", "an element that is not in the other set stays"))
                if any(x[0].endswith("unk") for x in a):
                    out.append(("content", "an element is %s without knowing whether the other set has it" % ("removed" if any(x[0].endswith("unk") and x[1] for x in a) else "kept")))
            else:
                if s.x.get("self") and any(not x[1] for x in a):
                    out.append(("content", "something is left after subtracting the set from itself"))
                if any(x[0].endswith("in") and not x[1] for x in a):
                    out.append(("content", "a common element stays"))
                if any(x[0].endswith("out") and x[1] for x in a):
                    out.append(("content", "an element that is not in the other set is removed"))
                if any(x[0].endswith("unk") for x in a):
                    out.append(("content", "an element is %s without knowing whether the other set has it" % ("removed" if any(x[0].endswith("unk") and x[1] for x in a) else "kept")))
            return out
        return f
    for f, op in (("s_add", "+"), ("s_mul", "*"), ("s_sub", "-")):
        ck.obligation(f, sp, f, pre, post_op(op))

    def pre_c(eng):
        st = State()
        sp.begin(st)
        a = sp.new_set(eng, st, "A", "this")
        b = sp.new_set(eng, st, "B", "other")
        r = eng.new_region(st, "heap", C(sp.L["setsz"]), {"name": "result", "kept": True})
        st.x["r"] = r
        yield "", st, [A(r), A(a), A(b)]
    sp.nested = True

    def post_c(op):
        def f(eng, label, s, v):
            out = []
            t, o = ("set", "this"), ("set", "other")
            got = s.x["contents"].get(s.x["r"])
            good = [(op, t, o)] + ([(op, o, t)] if op != "-=" else [])
            if got not in good:
                out.append(("content", "the result is %s" % (got,)))
            for nm in ("this", "other"):
                if s.x["contents"][s.x["cont"][nm]] != ("set", nm):
                    out.append(("modified", "an operand is changed"))
            return out
        return f
    for f, op in (("s_addC", "+="), ("s_mulC", "*="), ("s_subC", "-=")):
        ck.obligation(f, sp, f, pre_c, post_c(op))
    sp.nested = False


def run_lookup(ck, sp):
    def pre(n, out=False):
        def f(eng):
            st = State()
            sp.begin(st)
            st.x["single"] = True
            a = sp.new_set(eng, st, "A", "this")
            for k in KEYS[:n] + ([OUT] if out else []):
                st.mem[k] = Region("input", C(8), {"name": k[2]})
            yield "", st, [A(a)] + [A(k) for k in KEYS[:n]] + ([A(OUT)] if out else [])
        return f

    def hit(s, i):
        if s.x["first"].get("A") == ZERO:
            return None, True
        h = s.x.get("hits", {})
        k = ("A", A(("op", "val", 64, A(KEYS[i]))))
        if k not in h:
            return None, False
        return h[k], True

    def quiet(s):
        out = []
        for k in KEYS:
            if sp.value_of(s, A(k)) != A(("op", "val", 64, A(k))):
                out.append(("modified", "a key is changed"))
        if s.x.get("removed") or s.x.get("ins") or s.x.get("emptied"):
            out.append(("modified", "the set is changed"))
        return out

    def post_get(n, mode, out_=False):
        def f(eng, label, s, v):
            out = quiet(s)
            if not v.const:
                raise Incomplete("undetermined result")
            hs = [hit(s, i) for i in range(n)]
            if mode == "any":
                yes, no = any(k and h is not None for h, k in hs), all(k and h is None for h, k in hs)
            else:
                yes, no = all(k and h is not None for h, k in hs), any(k and h is None for h, k in hs)
            if v.c and not yes:
                out.append(("result", "reports success without a match for the keys"))
            if not v.c and not no:
                out.append(("result", "reports a miss although a key may be in the set"))
            if out_:
                got = sp.value_of(s, A(OUT))
                if yes and hs[0][0] is not None and got != A(("op", "val", 64, sp.data(hs[0][0]))):
                    out.append(("result", "the stored element is not handed out"))
                if not yes and got != A(("op", "val", 64, A(OUT))):
                    out.append(("result", "something is handed out without a match"))
            return out
        return f
    ck.obligation("s_get", sp, "s_get", pre(1), post_get(1, "any"))
    ck.obligation("s_getV", sp, "s_getV", pre(1, True), post_get(1, "any", True))
    ck.obligation("s_getVC", sp, "s_getVC", pre(1, True), post_get(1, "any", True))
    for n in (1, 2, 3, 4, 5):
        ck.obligation("s_any%d" % n, sp, "s_any%d" % n, pre(n), post_get(n, "any"))
        ck.obligation("s_all%d" % n, sp, "s_all%d" % n, pre(n), post_get(n, "all"))

    def post_set(n):
        def f(eng, label, s, v):
            want = tuple(A(k) for k in KEYS[:n])
            out = []
            if s.x.get("ins") != want:
                out.append(("content", "the elements are not each inserted once"))
            if n == 1 and v != A(("op", "placed", 64, add(A(s.x["cont"]["this"]), C(sp.L["tree"])), want[0])):
                out.append(("result", "the result is not the stored element"))
            if s.x.get("removed"):
                out.append(("modified", "something is removed"))
            return out
        return f
    ck.obligation("s_set", sp, "s_set", pre(1), post_set(1))
    ck.obligation("s_set2", sp, "s_set2", pre(2), post_set(2))

    def post_rem(out_):
        def f(eng, label, s, v):
            out = []
            h, known = hit(s, 0)
            if not known:
                return [("search", "the key is not looked up")]
            rm = s.x.get("removed", ())
            if h is None:
                if rm or v != ZERO:
                    out.append(("result", "a removal happens or is reported although nothing matches"))
                if out_ and sp.value_of(s, A(OUT)) != A(("op", "val", 64, A(OUT))):
                    out.append(("result", "something is handed out without a match"))
            else:
                if rm != (A(h),):
                    out.append(("content", "the matching element is not removed exactly once"))
                if v != ONE:
                    out.append(("result", "the removal is not reported"))
                if out_ and sp.value_of(s, A(OUT)) != A(("op", "val", 64, sp.data(h))):
                    out.append(("result", "the removed element is not handed out"))
            return out
        return f
    ck.obligation("s_remove", sp, "s_remove", pre(1), post_rem(False))
    ck.obligation("s_removeV", sp, "s_removeV", pre(1, True), post_rem(True))
    for f in ("s_size", "s_count", "s_items"):
        ck.obligation(f, sp, f, pre(0), lambda eng, l, s, v: quiet(s) + ([] if v == (ZERO if s.x["first"].get("A") == ZERO else A(("s", "|A|", "u"))) else [("count", "reports %s elements" % T.show(v))]))

    def post_it(kind):
        def f(eng, label, s, v):
            out = quiet(s)
            r = s.x["first"].get("A")
            if kind == "end":
                return out + ([] if v == ZERO else [("result", "end is not null")])
            if kind == "begin":
                want = ZERO if r == ZERO else A(("op", "first", 64, r)) if r is not None else None
                return out + ([] if v == want else [("result", "begin is not the first element")])
            h, known = hit(s, 0)
            fs = [e[1] for e in s.events if e[0] == "find"]
            if not known:
                return out + [("search", "the key is not looked up")]
            if h is not None and fs[-1:] != ["findMin" if kind == "beginK" else "findMax"]:
                out.append(("search", "the range does not start at the first and end after the last match"))
            if kind == "beginK":
                want = A(h) if h is not None else ZERO
                if v != want:
                    out.append(("result", "the range does not begin at the first match"))
            elif h is None and v != ZERO:
                out.append(("result", "the end of an empty range is not null"))
            return out
        return f

    ck.obligation("s_begin", sp, "s_begin", pre(0), post_it("begin"))
    ck.obligation("s_beginC", sp, "s_beginC", pre(0), post_it("begin"))
    ck.obligation("s_end", sp, "s_end", pre(0), post_it("end"))
    ck.obligation("s_endC", sp, "s_endC", pre(0), post_it("end"))
    for f in ("s_beginK", "s_beginKC"):
        ck.obligation(f, sp, f, pre(1), post_it("beginK"))


if __name__ == "__main__":
    pid = sys.argv[1] if len(sys.argv) > 1 else "S01"
    ck, sp = setup(pid)
    import small
    small.small(ck.rep, "algebra" if pid == "S01" else "set")
    if pid == "S01":
        run_algebra(ck, sp)
        ck.rep.rule("at every exit of a set operation each element of both sets is classified as in or out of the other set by its position in the other sequence; "
                    "results, removals and insertions must agree with that classification")
        finish(ck.rep, 6)
    run_lookup(ck, sp)
    ck.rep.rule("each key is searched in the tree (contract: a matching node, or none when nothing matches); reported results, handed-out values, insertions and removals must agree with what was found")
    finish(ck.rep, 11)
