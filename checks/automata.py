"""regex/*.h, regex.cpp: states, the automaton a pattern compiles to, and its execution."""
import sys, os, signal, resource
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *

P0 = ("R", -50, "pattern")
TEXT = [("R", -60, "text0"), ("R", -61, "text1"), ("R", -62, "text2")]


class ReSpec(ScnSpec):
    unroll = 4000
    runaway = True
    unroll_width = 4000
    max_recursion = 12
    max_states = 40000
    max_steps = 6000000
    record_stores = False

    def global_init(self, name):
        return True

    def handler(self, eng, name, dem):
        h = {"k_choose": self.h_choose, "k_state": self.h_state, "k_edge": self.h_edge, "k_todo": self.h_todo, "k_count": self.h_count, "k_skip": self.h_skip,
             "k_pick": self.h_pick, "k_before": self.h_before, "k_text": self.h_text, "k_probe": self.h_probe,
             "__dynamic_cast": self.h_dyncast, "strlen": self.h_strlen}.get(name)
        if h is None and "::enterState(" in dem:
            return lambda eng, st, ins, args, dem: self.h_enter(eng, st, ins, args, name)
        return h or super().handler(eng, name, dem)

    def h_enter(self, eng, st, ins, args, name):
        """a state is entered over and over at the same position: the run never ends"""
        k = (args[0], args[3])
        n = st.x.get("entered", {})
        c = n.get(k, 0) + 1
        st.x["entered"] = {**n, k: c}
        if c > 80:
            eng.finding(st, "does-not-return", ins, "a state is entered without end at the same position of the text")
            eng.drop(st)
            return []
        st.frames[-1].ip += 1
        eng.push(st, self.m.funcs[name], args, ins.get("id"), ins)
        return "pushed"

    limit = 20000

    def grows(self, eng, st, ins):
        if eng.n > self.limit:
            eng.finding(st, "does-not-return", ins, "more and more storage is allocated for a finite pattern")
            eng.drop(st)
            return True
        return False

    def h_memalign(self, eng, st, ins, args, dem):
        return [] if self.grows(eng, st, ins) else super().h_memalign(eng, st, ins, args, dem)

    def h_cmalloc(self, eng, st, ins, args, dem):
        return [] if self.grows(eng, st, ins) else super().h_cmalloc(eng, st, ins, args, dem)

    def h_choose(self, eng, st, ins, args, dem):
        out = []
        for i in range(args[0].c):
            s = st.copy()
            out.append((s, C(i)))
        return out

    # ------------------------------------------------------------ the graph
    def idx(self, st, p):
        b = self.base(st, p) if isinstance(p, Lin) else None
        if b is None or sub(p, A(b)) != ZERO:
            raise Incomplete("state address %s" % (T.show(p) if isinstance(p, Lin) else p))
        return b

    def h_state(self, eng, st, ins, args, dem):
        b = self.idx(st, args[0])
        eng.check_live(st, b, st.mem[b], ins, "read")
        g = st.x.get("nodes", ())
        if b not in g:
            st.x["nodes"] = g + (b,)
        if args[1].c:
            st.x["kind"] = {**st.x.get("kind", {}), b: args[1].c | st.x.get("kind", {}).get(b, 0)}
        return [(st, None)]

    def h_edge(self, eng, st, ins, args, dem):
        st.x["edges"] = st.x.get("edges", ()) + ((self.idx(st, args[0]), self.idx(st, args[1])),)
        return [(st, None)]

    def h_todo(self, eng, st, ins, args, dem):
        n = st.x.get("done", 0)
        g = st.x.get("nodes", ())
        if n >= len(g):
            return [(st, ZERO)]
        st.x["done"] = n + 1
        return [(st, A(g[n]))]

    def h_count(self, eng, st, ins, args, dem):
        return [(st, C(len(st.x.get("nodes", ()))))]

    def h_skip(self, eng, st, ins, args, dem):
        """as if that many more states had been made before: every process-wide number moves on"""
        for n, g in self.m.globals.items():
            ty = self.m.types[g["init"][1]] if "init" in g and not g.get("const") else {}
            if ty.get("k") == "int" and ty["w"] >= 8 and "2Re" in n:
                for s, a, off in eng.locate(st, A(("G", n)), ins):
                    ((s2, v),) = eng.read(s, a, off, ty["sz"], ty)
                    if not isinstance(v, Lin) or not v.const:
                        raise Incomplete("a process-wide number is unknown")
                    eng.store(s2, A(("G", n)), C((v.c + args[0].c) % (1 << ty["w"])), ty, ins)
                    st = s2
        return [(st, None)]

    def h_pick(self, eng, st, ins, args, dem):
        return [(st, A(st.x["nodes"][args[0].c]))]

    # ------------------------------------------------------------ texts
    def text(self, st, v):
        r = TEXT[v]
        if r not in st.mem:
            st.mem[r] = Region("input", None, {"name": r[2] + "_", "text": 1, "before": v})
            st.own.add(r)
            for k in range(v):
                c = A(("s", "%s_%d" % (r[2], k), "i"))
                st.mem[r].cells[k] = (1, c)
                st.facts = st.facts.with_ge(add(c, C(128)), sub(C(127), c)).with_ne(c)
        return r

    def h_text(self, eng, st, ins, args, dem):
        v = args[0].c
        return [(st, add(A(self.text(st, v)), C(v)))]

    def h_before(self, eng, st, ins, args, dem):
        v = args[0].c
        if v < 2:
            return [(st, C(v))]
        n = A(("s", "before", "u"))
        st.facts = st.facts.with_ge(add(n, C(-2)), sub(C(1 << 30), n))
        return [(st, n)]

    def h_probe(self, eng, st, ins, args, dem):
        i, v, e, n = args
        self.rows.append((st.facts, i.c, v.c, e, n))
        eng.findings.extend(st.x.get("findings", ()))
        # the automaton is taken apart on one path only, it is the same on all
        return [(st, None)] if i.c == 0 and v.c == 0 else []

    def materialize(self, eng, st, a, off, size, ty):
        r = st.mem[a]
        if r.info and r.info.get("text"):
            if size != 1:
                raise Incomplete("text is not read by symbol")
            k = off.c if isinstance(off, Lin) else off
            if k < 0:
                eng.finding(st, "out-of-bounds", eng.cur, "a symbol before the beginning of the text is read")
            elif k > 0:
                p = A(("s", "%s%d" % (r.info["name"], k - 1), "i"))
                if not st.facts.nonzero(p):
                    if k > r.info.get("before", 0):
                        eng.finding(st, "out-of-bounds", eng.cur, "a symbol after the end of the text is read")
            if k >= r.info.get("len", 1 << 30):
                return [(st, ZERO)]
            c = A(("s", "%s%d" % (r.info["name"], k), "i"))
            st.facts = st.facts.with_ge(add(c, C(128)), sub(C(127), c))
            return [(st, c)]
        return super().materialize(eng, st, a, off, size, ty)

    def h_strlen(self, eng, st, ins, args, dem):
        p = args[0]
        b = self.base(st, p)
        if b is not None and st.mem[b].info and "strlen" in st.mem[b].info:
            return [(st, sub(C(st.mem[b].info["strlen"]), sub(p, A(b))))]
        from ka.text import lit_bytes
        for i, k in p.t:
            a = atom(i)
            if a[0] == "G":
                g = self.m.globals.get(a[1])
                lit = lit_bytes(g["init"], self.m.types[g["init"][1]]) if g and g.get("const") and "init" in g else None
                if lit and 0 in lit:
                    return [(st, sub(C(lit.index(0)), sub(p, A(a))))]
        raise Incomplete("length of an unknown string")

    # ------------------------------------------------------------ run-time types
    def h_dyncast(self, eng, st, ins, args, dem):
        p, src, dst = args[:3]
        if p == ZERO:
            return [(st, ZERO)]
        out = []
        for s, a, off in eng.locate(st, p, ins):
            for s2, vt in eng.read(s, a, off, 8, {"k": "ptr", "sz": 8}):
                g = next((atom(i) for i, k in vt.t if atom(i)[0] == "G"), None)
                if g is None:
                    raise Incomplete("dynamic_cast of an object of unknown type")
                cls = g[1].replace("_ZTV", "_ZTI", 1)
                want = next(atom(i)[1] for i, k in dst.t)
                out.append((s2, p if want in self.ancestors(cls) else ZERO))
        return out

    def ancestors(self, ti):
        """the type and its (single, non-virtual) bases"""
        out = []
        while ti:
            out.append(ti)
            g = self.m.globals.get(ti)
            if not g or "init" not in g:
                raise Incomplete("no type information " + ti)
            nxt = [x for x in refs(g["init"]) if x.startswith("_ZTI") and x != ti]
            if len(nxt) > 1:
                raise Incomplete("several bases of " + ti)
            ti = nxt[0] if nxt else None
        return out


def refs(v):
    if isinstance(v, list):
        if len(v) == 3 and v[0] == "g":
            return [v[2]]
        return [y for x in v for y in refs(x)]
    return []


# ---------------------------------------------------------------------- what a pattern means
DIGIT = frozenset(range(48, 58))
WORD = DIGIT | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}
SPACE = frozenset(map(ord, " \t\r\n\v\f"))
SYMS = frozenset(x for x in range(-128, 128) if x)
ESC = {"d": DIGIT, "w": WORD, "s": SPACE, "D": SYMS - DIGIT, "W": SYMS - WORD, "S": SYMS - SPACE}


class Ref:
    """pattern text -> non-deterministic automaton; letters: value of each letter that stands for an unknown symbol"""

    def __init__(self, pat, sym, letters):
        self.p, self.sym, self.let = pat, sym, letters
        self.i = 0
        self.n = 0
        self.trans = []             # (from, label, to); label None, ("set", S) or ("at", name)
        self.start, self.end = self.alt()
        if self.i != len(pat):
            raise Incomplete("reference cannot read the pattern")

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, l, b):
        self.trans.append((a, l, b))

    def alt(self):
        s, e = self.new(), self.new()
        while True:
            x, y = self.seq()
            self.edge(s, None, x)
            self.edge(y, None, e)
            if self.i < len(self.p) and self.p[self.i] == "|":
                self.i += 1
                continue
            return s, e

    def seq(self):
        s = e = self.new()
        while self.i < len(self.p) and self.p[self.i] not in "|)":
            x, y = self.piece()
            self.edge(e, None, x)
            e = y
        return s, e

    def char(self):
        i = self.i
        self.i += 1
        return self.let[self.p[i]] if i in self.sym else ord(self.p[i])

    def piece(self):
        i0 = self.i
        f = self.atom()
        while self.i < len(self.p) and self.p[self.i] in "*+?{":
            lo, hi = self.count()
            if lo is None:
                break
            if f is None:           # nothing to repeat
                continue
            f = self.repeat(f, lo, hi)
        return f() if f else (lambda x: (x, x))(self.new())

    def count(self):
        c = self.p[self.i]
        if c in "*+?":
            self.i += 1
            return {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
        import re
        m = re.match(r"\{(\d+)(,(\d*))?\}", self.p[self.i:])
        if not m:
            return None, None
        self.i += m.end()
        lo = int(m.group(1))
        return lo, lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None

    def repeat(self, f, lo, hi):
        def g():
            s = e = self.new()
            for _ in range(lo):
                x, y = f()
                self.edge(e, None, x)
                e = y
            if hi is None:
                x, y = f()
                n = self.new()
                self.edge(e, None, n)
                self.edge(n, None, x)
                self.edge(y, None, n)
                e = n
            else:
                end = self.new()
                for _ in range(hi - lo):
                    self.edge(e, None, end)
                    x, y = f()
                    self.edge(e, None, x)
                    e = y
                self.edge(e, None, end)
                e = end
            return s, e
        return g

    def label(self, l):
        def f():
            a, b = self.new(), self.new()
            self.edge(a, l, b)
            return a, b
        return f

    def atom(self):
        """a function that builds a fresh copy, or None for an empty atom"""
        p = self.p
        c = p[self.i]
        if c == "(":
            i = self.i

            def f():
                save, self.i = self.i, i + 1
                r = self.alt()
                f.end = self.i + 1
                if f.end > len(p):
                    raise Incomplete("reference: open group")
                self.i = save
                return r
            save = self.trans, self.n
            self.trans = list(self.trans)
            f()
            self.trans, self.n = save
            self.i = f.end
            return f
        if c in "*+?":
            self.i += 1
            return None
        if c == "{":
            lo, hi = self.count()
            if lo is not None:
                return None
            return self.label(("set", {self.char()}))
        if c == "[":
            return self.bracket()
        if c == ".":
            self.i += 1
            return self.label(("set", SYMS))
        if c in "^$":
            self.i += 1
            return self.label(("at", c))
        if c == "\\":
            if self.i + 1 == len(p):
                self.i += 1
                return self.label(("set", set()))
            e = p[self.i + 1]
            if e in "bB":
                self.i += 2
                return self.label(("at", e))
            if e in ESC:
                self.i += 2
                return self.label(("set", ESC[e]))
            self.i += 1
            return self.label(("set", {self.char()}))
        return self.label(("set", {self.char()}))

    def bracket(self):
        p = self.p
        j = self.i
        while j < len(p) and (p[j] != "]" or p[j - 1] == "\\"):
            j += 1
        if j == len(p):
            return self.label(("set", {self.char()}))
        self.i += 1
        if self.i == j:
            self.i += 1
            return None
        neg = p[self.i] == "^"
        if neg:
            self.i += 1
        S = set()
        while self.i < j:
            if p[self.i] == "\\":
                e = p[self.i + 1]
                if e in ESC:
                    S |= ESC[e]
                    self.i += 2
                else:
                    self.i += 1
                    S.add(self.char())
            elif p[self.i + 1] == "-" and p[self.i + 2] != "]":
                S |= set(range(ord(p[self.i]), ord(p[self.i + 2]) + 1))
                self.i += 3
            else:
                S.add(self.char())
        self.i = j + 1
        return self.label(("set", SYMS - S if neg else S))

    @staticmethod
    def at(name, pos, prev, cur):
        w, pw = cur in WORD, pos > 0 and prev in WORD
        return {"^": pos == 0, "$": cur == 0, "b": w != pw, "B": w and pw}[name]


class RefNfa:
    def __init__(self, r):
        self.start, self.acc = r.start, r.end
        self.out = {}
        for a, l, b in r.trans:
            self.out.setdefault(a, []).append((l, b))

    def close(self, conf, pos, prev, cur):
        """-> reachable without reading, and after reading cur"""
        todo, seen, nxt = list(conf), set(conf), set()
        while todo:
            s = todo.pop()
            for l, b in self.out.get(s, ()):
                if l is None or l[0] == "at" and Ref.at(l[1], pos, prev, cur):
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
                elif l[0] == "set" and cur in l[1]:
                    nxt.add(b)
        return self.acc in seen, frozenset(nxt)

    def begin(self):
        return frozenset([self.start])


def symbolic(pat):
    """positions of the pattern whose letter may be any letter"""
    out = set()
    i = 0
    inb = False
    while i < len(pat):
        c = pat[i]
        if c == "\\":
            i += 2
            continue
        if c == "[" and "]" in pat[i:]:
            inb = True
        elif c == "]":
            inb = False
        elif inb and i + 2 < len(pat) and pat[i + 1] == "-" and pat[i + 2] != "]":
            i += 3
            continue
        elif c.islower():
            out.add(i)
        i += 1
    return out


def pattern_state(sp, pat, sym=()):
    st = State()
    st.mem[P0] = Region("input", C(len(pat) + 1), {"name": "pattern", "strlen": len(pat)})
    letters = sorted({pat[i] for i in sym})
    for l in letters:
        a = A(("s", "letter_" + l, "u"))
        st.facts = st.facts.with_ge(add(a, C(-97)), sub(C(122), a))
    for k, l in enumerate(letters):
        for m in letters[:k]:
            st.facts = st.facts.with_ne(sub(A(("s", "letter_" + l, "u")), A(("s", "letter_" + m, "u"))))
    for i, c in enumerate(pat):
        st.mem[P0].cells[i] = (1, A(("s", "letter_" + c, "u")) if i in sym else C(ord(c) - 256 * (ord(c) > 127)))
    st.mem[P0].cells[len(pat)] = (1, ZERO)
    return st


# ---------------------------------------------------------------------- the automaton that was found
def evaluate(l, env):
    """linear term under an assignment of the atoms; unknown atoms stay"""
    c, t = l.c, []
    for i, k in l.t:
        a = atom(i)
        if a in env:
            c += k * env[a]
        else:
            t.append((i, k))
    return Lin(c, tuple(t))


class Outcomes:
    """what one state does at one kind of position: list of (facts, entered, numRead)"""

    def __init__(self, v, res, env):
        self.v = v
        self.prev = ("s", "text%d_%d" % (v, v - 1), "i") if v else None
        self.cur = ("s", "text%d_%d" % (v, v), "i")
        self.rows = []
        for f, e, n in res:
            ge = [evaluate(l, env) for l in f.ge]
            ne = [evaluate(l, env) for l in f.ne]
            if any(not l.t and l.c < 0 for l in ge) or any(not l.t and l.c == 0 for l in ne):
                continue
            ge, ne = [l for l in ge if l.t], [l for l in ne if l.t]
            if f.rel:
                raise Incomplete("an ordering of symbols")
            for l in ge + ne:
                if len(l.t) != 1:
                    raise Incomplete("a relation between symbols")
                a = atom(l.t[0][0])
                if a[0] != "s":
                    raise Incomplete("a symbol is computed with: %s" % T.show_atom(a))
            self.rows.append((ge, ne, e, n))

    def breaks(self):
        out = set()
        for ge, ne, e, n in self.rows:
            for l in ge + ne:
                if atom(l.t[0][0]) in (self.prev, self.cur):
                    b = -l.c // l.t[0][1]
                    out |= {b - 1, b, b + 1}
        return out

    def hold(self, row, env):
        for l in row[0]:
            l = evaluate(l, env)
            if not l.t and l.c < 0:
                return False
        for l in row[1]:
            l = evaluate(l, env)
            if not l.t and l.c == 0:
                return False
        return True

    def at(self, prev, cur):
        env = {self.cur: cur}
        if self.v:
            env[self.prev] = prev
        got = {(e, n if e else 0) for ge, ne, e, n in self.rows if self.hold((ge, ne), env)}
        if len(got) != 1:
            raise Incomplete("a state is not determined by the symbols next to the position")
        return got.pop()

    def uses_prev(self):
        return any(atom(l.t[0][0]) == self.prev for ge, ne, e, n in self.rows for l in ge + ne)


class Nfa:
    def __init__(self, sp, results, env):
        s0 = results[0][0]
        self.nodes = s0.x["nodes"]
        kind = s0.x.get("kind", {})
        self.start = self.nodes.index(next(b for b in self.nodes if kind.get(b, 0) & 1))
        self.acc = {i for i, b in enumerate(self.nodes) if kind.get(b, 0) & 2}
        self.next = {}
        for a, b in s0.x.get("edges", ()):
            self.next.setdefault(self.nodes.index(a), set()).add(self.nodes.index(b))
        rows = {}
        for f, i, w, e, n in sp.rows:
            if not (isinstance(e, Lin) and e.const):
                raise Incomplete("the answer of a state is not determined")
            if e.c and not (isinstance(n, Lin) and n.const):
                raise Incomplete("the number of symbols a state reads is not determined")
            rows.setdefault((i, w), []).append((f, bool(e.c), n.c if e.c else 0))
        self.tab = {k: Outcomes(k[1], r, env) for k, r in rows.items()}
        self.memo = {}

    def symbols(self, more):
        b = set(more)
        for o in self.tab.values():
            b |= o.breaks()
        return sorted(x for x in b if -128 <= x <= 127 and x)

    def outcome(self, s, pos, prev, cur):
        o = self.tab[(s, min(pos, 2))]
        k = (s, min(pos, 2), prev if o.uses_prev() else None, cur)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = o.at(prev, cur)
        return r

    def close(self, conf, pos, prev, cur):
        todo, seen, nxt = list(conf), set(conf), set()
        acc = False
        while todo:
            s = todo.pop()
            if s in self.acc:
                acc = True
            e, n = self.outcome(s, pos, prev, cur)
            if not e:
                continue
            if n not in (0, 1):
                raise Incomplete("a state reads %d symbols at once" % n)
            if n and cur == 0:
                raise Bad("a state reads the end of the text as a symbol")
            for t in self.next.get(s, ()):
                if n:
                    nxt.add(t)
                elif t not in seen:
                    seen.add(t)
                    todo.append(t)
        return acc, frozenset(nxt)

    def begin(self):
        return frozenset([self.start])


class Bad(Exception):
    pass


LIMIT = 6000


def compare(nfa, ref, syms):
    """None, or a text on which the two differ"""
    # symbols that nobody tells apart are one symbol
    start = (nfa.begin(), ref.begin(), 0, 0)
    seen = {start}
    todo = [(start, "")]
    while todo:
        new = []
        for (a, b, pos, prev), w in todo:
            x, y = nfa.close(a, pos, prev, 0)[0], ref.close(b, pos, prev, 0)[0]
            if x != y:
                return "%s, which the pattern %s" % (repr(w), "does not accept, is accepted" if x else "accepts, is rejected")
            for c in syms:
                na, nb = nfa.close(a, pos, prev, c)[1], ref.close(b, pos, prev, c)[1]
                if not na and not nb:
                    continue
                k = (na, nb, min(pos + 1, 2), c)
                if k not in seen:
                    seen.add(k)
                    if len(seen) > LIMIT:
                        raise Incomplete("the automaton has too many distinct configurations")
                    new.append((k, w + (chr(c) if 32 < c < 127 else "\\x%02x" % (c & 255))))
        todo = new
    return None


def merged(syms, nfa, r):
    """one symbol for each class of symbols that satisfy the same facts in all states and sets of the reference"""
    sets = {frozenset(l[1]) for a, l, b in r.trans if l and l[0] == "set"} | {WORD}
    facts = set()
    for o in nfa.tab.values():
        for ge, ne, e, n in o.rows:
            facts |= {(0, l.c, l.t[0][1]) for l in ge if atom(l.t[0][0]) in (o.prev, o.cur)}
            facts |= {(1, l.c, l.t[0][1]) for l in ne if atom(l.t[0][0]) in (o.prev, o.cur)}
    facts = sorted(facts)
    out = {}
    for c in syms:
        out.setdefault((tuple(c in s for s in sets), tuple(k + q * c >= 0 if w == 0 else k + q * c != 0 for w, k, q in facts)), c)
    return sorted(out.values())


def gather(ck, sp, name, fname, pats_state, args, judge):
    """run the analysis, collect every exit state, judge them together"""
    if ck.only and ck.only not in name:
        return
    bad = []
    n = 0
    try:
        eng = Engine(ck.m, sp)
        sp.rows = []
        eng.findings, eng.dropped, eng.endless = [], [], []
        res = eng.run(ck.find(fname), args, pats_state)
        n = len(res)
        ck.rep.functions |= {ck.m.funcs[c]["d"] for c in eng.covered}
        ck.rep.callsites += eng.callsites
        ck.rep.states += n
        for f in eng.findings:
            if f[0] != "maybe-null":
                bad.append((f[0], "at %s: %s" % (f[1], f[2])))
        for s, v in res:
            for f in s.x.get("findings", ()):
                if f[0] != "maybe-null":
                    bad.append((f[0], "at %s: %s" % (f[1], f[2])))
            bad += sp.leftovers(s)
        if not res and not bad:
            if eng.endless:
                bad.append(("does-not-return", "no path returns"))
            else:
                raise Incomplete("no abstract state survives")
        if not bad:
            bad += judge(res)
    except Bad as e:
        bad.append(("result", str(e)))
    except Incomplete as e:
        if not bad:
            if os.environ.get("KA_DEBUG"):
                traceback.print_exc()
            ck.rep.undecided(name, str(e))
            return
    except Exception as e:
        if not bad:
            if os.environ.get("KA_DEBUG"):
                traceback.print_exc()
            ck.rep.undecided(name, "internal: %s %s" % (type(e).__name__, e))
            return
    if bad:
        ck.rep.failed(name)
        for rule, text in dict.fromkeys(bad):
            ck.rep.violation(name, rule, text, key=(name, rule, text[:80]))
    else:
        ck.rep.ok(name, "%d abstract exit states" % n)


def lang_judge(sp, pat):
    sym = symbolic(pat)
    letters = sorted({pat[i] for i in sym})

    def judge(res):
        for k in (0, 1):
            let = {l: (ord(l) if k == 0 else 122 - (ord(l) - 97)) for l in set(letters) | set("abc")}
            env = {("s", "letter_" + l, "u"): v for l, v in let.items()}
            r = Ref(pat, sym, let)
            nfa = Nfa(sp, res, env)
            more = set()
            for a, l, b in r.trans:
                if l and l[0] == "set":
                    more |= {x + d for x in l[1] for d in (-1, 0, 1)} if len(l[1]) < 100 else {x + d for x in SYMS - l[1] for d in (-1, 0, 1)}
            syms = merged(nfa.symbols(more | {48, 95, 65, 97, 32, 45}), nfa, r)
            w = compare(nfa, RefNfa(r), syms)
            if w:
                return [("language", "the text " + w + (" (with %s)" % ", ".join("%s for %s" % (chr(v), l) for l, v in let.items()) if k else ""))]
        return []
    return judge


def size_limit(pat):
    return 2000 + 250 * Ref(pat, (), {}).n


def language(ck, sp, pat, fname="s_pattern"):
    sym = symbolic(pat)
    sp.limit = size_limit(pat)
    gather(ck, sp, ("/%s/" if fname == "s_pattern" else "again /%s/") % pat, fname, pattern_state(sp, pat, sym), [A(P0)], lang_judge(sp, pat))


# ---------------------------------------------------------------------- runs over whole texts
def satisfies(f, env):
    for l in f.ge:
        l = evaluate(l, env)
        if not l.t and l.c < 0:
            return False
    for l in f.ne:
        l = evaluate(l, env)
        if not l.t and l.c == 0:
            return False
    return True


def possible(f):
    """facts about one symbol each: is there a value for every symbol?"""
    by = {}
    for w, ls in ((0, f.ge), (1, f.ne)):
        for l in ls:
            if l.t:
                by.setdefault(l.t[0][0], []).append((w, l.c, l.t[0][1]))
    return all(any(all(c + k * x >= 0 if w == 0 else c + k * x != 0 for w, c, k in v) for x in range(-128, 128)) for v in by.values())


def accepts(nfa, txt):
    conf, prev = nfa.begin(), 0
    for i, c in enumerate(txt):
        conf = nfa.close(conf, min(i, 2), prev, c)[1]
        prev = c
    return nfa.close(conf, min(len(txt), 2), prev, 0)[0]


def whole(ck, sp, pat, n, fname="s_accept", odd=False, yes=()):
    """the answer for every text of at most n symbols"""
    sym = symbolic(pat)
    letters = sorted({pat[i] for i in sym})
    st = pattern_state(sp, pat, sym)
    r = ("R", -70, "text")
    st.mem[r] = Region("input", None, {"name": "text", "text": 1, "before": 0, "len": n})
    args = [A(P0), A(r)]
    if fname == "s_reset":
        o = ("R", -71, "other")
        st.mem[o] = Region("input", None, {"name": "other", "text": 1, "before": 0, "len": 2})
        args = [A(P0), A(o), A(r)]
    if fname in ("s_free", "s_string"):
        st.mem[r].size = C(n + 1)
        st.mem[r].info["strlen"] = n
        for k in range(n):
            c = A(("s", "text%d" % k, "i"))
            st.mem[r].cells[k] = (1, c)
            st.facts = st.facts.with_ge(add(c, C(128)), sub(C(127), c)).with_ne(c)
        st.mem[r].cells[n] = (1, ZERO)

    def judge(res):
        for s, v in res:
            saw = {}
            for t, *w in s.x.get("saw", ()):
                saw.setdefault(t, []).append(w[0])
            for t, e in ((1, 1), (3, 1), (4, 1), (5, 1), (6, 0), (7, 1)):
                for x in saw.get(t, ()):
                    if x != C(e):
                        return [("result", "observation %d is %s, expected %d" % (t, show(x), e))]
            if len(saw.get(2, ())) != 1:
                raise Incomplete("no answer")
            if not isinstance(saw[2][0], Lin) or not saw[2][0].const:
                return [("result", "the answer is %s" % show(saw[2][0]))]
        if odd:
            return []
        for k in (0, 1):
            let = {l: (ord(l) if k == 0 else 122 - (ord(l) - 97)) for l in letters}
            env = {("s", "letter_" + l, "u"): v for l, v in let.items()}
            ref = Ref(pat, sym, let)
            nfa = RefNfa(ref)
            sets = {frozenset(l[1]) for a, l, b in ref.trans if l and l[0] == "set"} | {WORD}
            syms = {}
            rows = []
            for s, v in res:
                f = Facts(tuple(evaluate(l, env) for l in s.facts.ge), tuple(evaluate(l, env) for l in s.facts.ne))
                if not satisfies(f, {}):
                    continue
                for l in f.ge + f.ne:
                    if len(l.t) > 1:
                        raise Incomplete("a relation between symbols")
                if f.rel:
                    raise Incomplete("an ordering of symbols")
                if not possible(f):
                    continue
                rows.append((f, next(w[0].c for t, *w in s.x["saw"] if t == 2)))
            single = sorted({(l.c, l.t[0][1]) for f, a in rows for l in f.ge + f.ne if l.t})
            for c in SYMS:
                syms.setdefault((tuple(c in x for x in sets), tuple((q + m * c > 0) - (q + m * c < 0) for q, m in single)), c)
            syms = sorted(syms.values())
            texts = [()]
            for m in range(n + 1):
                for t in texts:
                    if fname in ("s_free", "s_string") and m < n:
                        continue
                    e2 = {("s", "text%d" % i, "i"): c for i, c in enumerate(t + (0,))}
                    got = {a for f, a in rows if satisfies(f, e2)}
                    want = int(accepts(nfa, t))
                    if got and got != {want}:
                        return [("language", "the text %s, which the pattern %s%s" % (repr("".join(chr(c) if 32 < c < 127 else "\\x%02x" % (c & 255) for c in t)),
                                 "accepts, is rejected" if want else "does not accept, is accepted",
                                 " (with %s)" % ", ".join("%s for %s" % (chr(v), l) for l, v in let.items()) if k else ""))]
                    if not got:
                        raise Incomplete("no path for a text")
                texts = [t + (c,) for t in texts for c in syms]
        return []
    gather(ck, sp, "%s /%s/ %d" % (fname[2:], pat, n), fname, st, args, judge)


# ---------------------------------------------------------------------- built automata and single states
BUILDS = {"empty": "", "seq": "ab", "any": ".", "branch": "a|b", "branch_empty": "a|", "group": "(a|b)+", "jump": "a+b+", "skip": "a?b?", "star": "a*b",
          "skipjump": "a*b", "rep22": "a{2}b", "rep13": "a{1,3}b", "rep20": "a{2,}b", "rep10": "a+b", "rep00": "a*b", "rep02": "a{0,2}b",
          "repgrp": "(ab?){2,3}c", "repjump": "(a{2}b)+", "nested": "((a|b){2}){1,2}c", "ahead": "(a|b)", "notahead": "[^a]b", "aheadrep": "[^a]{2}",
          "aheadempty": "ab", "aheadpos": "a?^b", "notpos": "a+^b", "wide": "(a|b|c|.a)(a|b)", "notempty": "a?\\"}


def built(ck, sp, kind, name):
    pat = BUILDS[name]
    st = pattern_state(sp, "abc", range(3))
    args = [A(("s", "letter_" + l, "u")) for l in "abc"]
    sp.limit = size_limit(pat)
    gather(ck, sp, "%s %s /%s/" % (kind, name, pat), "s_%s_%s" % (kind, name), st, args, lang_judge(sp, pat))


REPS = [-128, -7, -1, 1, 9, 48, 96, 97, 98, 99, 122, 126, 127]
# what a state does: (entered, symbols read) for its parameters, the position (0 the first symbol, 1 the second, 2 later), the symbol there
STATES = {
    "symbol": ("p", lambda p, q, v, n, c: (c == p and c != 0, 1)),
    "range": ("pq", lambda p, q, v, n, c: (p <= c <= q and c != 0, 1)),
    "any": ("", lambda p, q, v, n, c: (c != 0, 1)),
    "epsilon": ("", lambda p, q, v, n, c: (True, 0)),
    "lambda": ("pq", lambda p, q, v, n, c: (c == p, q)),
    "lambda_at": ("q", lambda p, q, v, n, c: (n == q, 1)),
    "ahead": ("p", lambda p, q, v, n, c: (c == p and c != 0, 0)),
    "notahead": ("p", lambda p, q, v, n, c: (not (c == p and c != 0), 0)),
}


def single(ck, sp, name):
    params, want = STATES[name]
    st = State()
    args = []
    for p in params:
        a = A(("s", p, "i"))
        lo, hi = (-128, 127) if p == "p" or name == "range" else (0, 1000)
        st.facts = st.facts.with_ge(add(a, C(-lo)), sub(C(hi), a))
        if name == "symbol" or name == "range" or "ahead" in name:
            st.facts = st.facts.with_ne(a)
        args.append(a)

    def judge(res):
        s0 = res[0][0]
        for t, *w in s0.x.get("saw", ()):
            if w[0] != C({1: 1, 2: 0}[t]):
                return [("result", {1: "the clone is not told apart from the original", 2: "a fresh clone is linked"}[t])]
        for i in (0, 1):
            for v in range(3):
                rows = [(f, e, n) for f, j, w, e, n in sp.rows if (j, w) == (i, v)]
                if not rows:
                    raise Incomplete("no outcome")
                cur, before = ("s", "text%d_%d" % (v, v), "i"), ("s", "before", "u")
                qs = [-7, 97, 99, 127] if name == "range" else [0, 1, 2, 5]
                for p in (REPS if "p" in params else [0]):
                    for q in (qs if "q" in params else [0]):
                        for c in [0] + REPS:
                            for k in ([v] if v < 2 else [2, 3, 5, 9]):
                                env = {("s", "p", "i"): p, ("s", "q", "i"): q, cur: c, before: k}
                                if v:
                                    env.update({("s", "text%d_%d" % (v, x), "i"): 97 for x in range(v)})
                                got = set()
                                for f, e, n in rows:
                                    if not satisfies(f, env):
                                        continue
                                    if f.rel:
                                        raise Incomplete("an ordering of symbols")
                                    if not isinstance(e, Lin) or not isinstance(n, Lin):
                                        raise Incomplete("no outcome")
                                    e, n = evaluate(e, env), evaluate(n, env)
                                    if e.t or (n.t and e.c):
                                        raise Incomplete("outcome not determined")
                                    got.add((bool(e.c), n.c if e.c else 0))
                                if len(got) != 1:
                                    raise Incomplete("outcome not determined")
                                w = want(p, q, k, k, c)
                                w = (w[0], w[1] if w[0] else 0)
                                if got != {w}:
                                    g = got.pop()
                                    return [("outcome", "%s%s of parameters %s at symbol %d after %d symbols: %s, %d read; expected %s, %d read" % (
                                        "the clone of " if i else "", name, (p, q)[:len(params)], c, k, "entered" if g[0] else "refused", g[1], "entered" if w[0] else "refused", w[1]))]
        return []
    gather(ck, sp, "state %s" % name, "s_state_" + name, st, args, judge)


LINKS = {
    "link": [(1, 0), (2, 1), (3, 3), (4, 0), (5, 0), (6, 10), (7, 1), (8, 10), (9, 1), (10, 3), (11, 3), (12, 3), (13, 21), (14, 12), (15, 11),
             (16, 1), (17, 0), (18, 1), (19, 1), (20, 0)],
    "merge_next": [(1, 1), (2, 3), (3, 3), (4, 3), (5, 3), (6, 10), (7, 20), (8, 12), (9, 2)],
    "merge_prev": [(1, 1), (2, 3), (3, 3), (4, 3), (5, 3), (6, 31), (7, 2), (8, 1), (9, 10)],
    "many": [x for k in (8, 16, 31, 32) for x in ((1, 0), (2, 1), (3, 2))],
    "ids": [x for i in range(4) for j in range(4) for x in ((1, 1) if i == j else (2, 0), (3, 1))] + [(4, 1), (5, 1), (6, 0), (7, 0), (8, 0), (9, 0)],
}


def linked(ck, sp, name):
    def judge(res):
        for s, v in res:
            saw = s.x.get("saw", ())
            want = LINKS[name]
            if len(saw) != len(want):
                return [("result", "%d observations, expected %d" % (len(saw), len(want)))]
            for (t, g), (u, e) in zip(saw, want):
                if not isinstance(g, Lin) or not g.const:
                    raise Incomplete("observation not determined")
                if g.c != e:
                    return [("result", "observation %d is %d, expected %d" % (t, g.c, e))]
        return []
    gather(ck, sp, name, "s_" + name, State(), [], judge)


# ---------------------------------------------------------------------- catalogues
QUANT = ["*", "+", "?", "{0}", "{1}", "{2}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}", "{1,2}", "{2,3}", "{1,1}", "{0,0}"]
ATOMS = ["a", ".", "\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "[ab]", "[^ab]", "[b-d]", "[^b-d]", "[\\d_]", "[^\\s]", "(ab)", "(a|b)", "(a|)", "()", "(a*)", "(a?b)",
         "\\b", "^", "$", "\\.", "\\*", "[.]", "[a-cx-z]", "((a)b)", "(ab|c)"]
BASIC = ["", "a", "ab", "abc", "a|b", "a|b|c", "ab|cd", "|a", "a|", "|", "a||b", "(a|b|c)d", "a(b|c)", "(a|b)(c|d)", "a(b(c|d)|e)f", "(a)", "((a))", "()", "()()", "a()b", "(|a)b", "(a|)b", "(|)",
         "^a", "a$", "^a$", "^$", "^", "$", "a^b", "a$b", "(^a|b)c", "^*a", "(^|a)b", "a(b|$)", "\\ba", "a\\b", "\\ba\\b", "a\\bb", "a\\b b", "a \\bb", ". \\b.", "\\b\\b", "\\bab\\b|cd", "(a\\b|b)*", "a.\\bc", "a\\B.",
         "\\.", "\\\\", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\|", "\\*", "\\+", "\\?", "\\^", "\\$", "\\-", "\\/", "\\a\\.", "a\\*b", "a\\|b",
         "[a]", "[abc]", "[^a]", "[^abc]", "[a-z]", "[^a-z]", "[a-zA-Z0-9_]", "[a-c1-3]", "[ab-d]", "[a-cd]", "[\\d]", "[\\w-]", "[^\\d]", "[^\\w]", "[^\\da]", "[\\s\\d]", "[\\]]", "[^\\]]", "[\\^a]", "[a^]", "[.]", "[*+?]", "[(|)]", "[{}]", "[$]",
         "[a-a]", "[-a]", "[a-]", "[]", "[]a", "a[]b", "[^]", "a[^]b", "[a][b]", "[^a][^b]", "[^a]*b", "([^a]b)*", "[^a]|a", "([^ab]|c)d", "([^a]|[^b])c",
         "(b)(*a)", "(b|c)(+)a", "(b)|(?a)", "((b)c)((*a)d)", "(b)(c|{2}a)", "[b](*a)", "b(+)c", "*a", "+a", "?a", "{2}a", "a|*b", "(*a)", "(+)", "(?a|b)", "*", "+", "**", "a|+", "a**", "a*+", "a+*", "a?*", "a*?", "a+?", "a??", "a++", "a{2}*", "a*{2}", "a{2}{2}", "a{1,2}{2}", "a+{2}", "a?{2}", "a{2}?", "a{0}*", "a{0}b", "a*{0}b", "(a|b){0}c", "a|b{0}",
         "[", "[a", "a[b", "{", "a{", "a{1", "a{1,", "a{1,2", "a\\", "\\", "a|\\", "a{2}{", "]", "a]", "}", "a}", "a-b", "a,b", "-", ",", "a b", " ", "a=b", "#", "A", "aB", "A*b", "0", "01*",
         "(a|b|c|d)(e|f)", "(a|b|c|d|e)+f", "(a|b|c)(d|e|f)(g|h)", "(a|b|c|d|e|f)*x", "(a|b|)(c|d|)(e|f|)", "(a|bc|d|ef|)(gh|i|)+", "(ab+c){2}", "(ab*|cd+){2,3}e", "(a|b|c|d){2}", "a|b|c|d|e|f|g", "(a|b|c|d)?(e|f|g|h)*",
         "(a*)*", "(a+)+", "(a?)*", "(a*)+", "(a?)+", "(a*)*b", "(a|b*)*", "((a*)*)*", "(a*b*)*", "(a*b?)*c", "((a|b)*c)*", "(a|)*", "()*", "()+a", "(()*)*", "(a*){2}", "(a|b){2,}", "(a?){2,3}b", "((a{2}){2})b", "((a|b){2}|c){2}", "(a{1,2}b){1,2}", "(a(b|c)?){2}", "((ab)*|c){2}d",
         "a*a", "a*ab", "(ab)*a", "(a|ab)(c|bcd)", "a?a?aa", "(a|b)*abb", "a{10}", "a{3,10}", "a{0,10}b", "a{12,}", "a{10,12}", "(ab){10}", ".*", ".*a", "a.*b", ".+.", "..", "\\d{3}-\\d{2}", "\\w+@\\w+\\.com", "\\d+(\\.\\d*)?", "#[0-9a-f]{6}", "(\\d|[a-c])+", "\\s*a\\s*", "a\\s+b", "0x[0-9A-F]+", "-?\\d+"]


def crossed():
    out = []
    for a in ATOMS:
        out.append("x%sy" % a)
        for q in QUANT:
            out.append("x%s%sy" % (a, q))
            out.append("%s%s" % (a, q))
    return out


def pairs():
    """two quantifiers around each other, in a group and stacked"""
    out = []
    for q in QUANT:
        for r in QUANT:
            out.append("x(a%s)%sy" % (q, r))
            out.append("a%s%sb" % (q, r))
            out.append("(a%s|b)%s" % (q, r))
            out.append("a%sb%s" % (q, r))
    return out


def random_patterns(rng, n):
    def atom(d):
        k = rng.random()
        if d > 0 and k < .35:
            return "(" + alt(d - 1) + ")"
        if k < .8:
            return rng.choice("abc")
        return rng.choice([".", "\\d", "\\w", "[ab]", "[^a]", "[a-c]", "[^b-d]", "\\b", "^", "$", "\\W", "[\\d,]"])

    def piece(d):
        s = atom(d)
        if rng.random() < .4:
            s += rng.choice(["*", "+", "?", "{2}", "{1,2}", "{0,1}", "{1,}", "{0,}", "{2,}", "{0}"])
        if rng.random() < .06:
            s += rng.choice(["*", "+", "?", "{2}"])
        return s

    def seq(d):
        return (rng.choice("*+?") if rng.random() < .07 else "") + "".join(piece(d) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))

    def alt(d):
        return "|".join(seq(d) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])))
    out = []
    while len(out) < n:
        p = alt(2)
        if Ref(p, (), {}).n <= 110:
            out.append(p)
    return out


def random_odd(rng, n):
    return ["".join(rng.choice("()()()[]{}|||*+?^$\\\\.-,01ab") for _ in range(rng.randrange(1, 9))) for _ in range(n)]


ODD = [")", "a)", "a)b", "a)|b", "(a", "((", "(a|", "(a(b", "(()", "())", ")(", ")))|", "|)", "|(", "(|", "a)*", ")*", "(*", "a)+b", "(a)*)b", "()|)(", "(" * 40, "(" * 130, ")" * 40, "a(" * 70, *("(" * k + "[^a]" for k in range(120, 129)), "|" * 60, "(|" * 70, "a|" * 40,
       "[^" * 10, "[^a]" * 40, "([^" * 20, "[^[^a]]", "[^]]", "[]]", "[[]", "[a-", "[a-]", "[-", "[^-a]", "[a--]", "[]-a]", "[z-a]", "[\\", "[\\]", "[a\\", "[\\d-a]", "[a-\\d]", "[^\\", "[^a\\]",
       "a{b}", "a{}", "a{,}", "a{,2}", "a{2,1}", "a{3,0}", "a{-1}", "a{1,2,3}", "{}", "{a}", "a{1}{", "a{9", "a{99", "a{{2}}", "a{2}}", "{2", "{2}{3}", "(a){", "(a{2)", "a{1,2)b}", "\\", "a\\", "(\\", "(a\\)", "[a\\]", "a\\{2}",
       "a{2147483647", "a{0,a}", "a{ 2}", "(^*$+)?", "^*^+", "\\b*\\b{2}", "a**+?{2}", "a|*|+|?", "(|(|(|)))", "a\x80\xff", "\xff*", "[\x80-\xff]"]


def garbled(ck, sp, pat, n):
    whole(ck, sp, pat, n, "s_odd", True)


# ---------------------------------------------------------------------- many patterns at once
def late(*_):
    raise Incomplete("out of time")


def spread(ck, sp, jobs, workers=8, budget=None):
    """jobs: list of (function, args); each runs in one of several processes, the reports are merged in order"""
    import pickle, tempfile
    jobs = [j for j in jobs]
    ck.rep.notes.append("%d patterns or scenarios" % len(jobs))
    pids = []
    t0 = time.time()
    for w in range(workers):
        fd, path = tempfile.mkstemp(prefix="ka_")
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, late)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                out = []
                for k in range(w, len(jobs), workers):
                    rep = ck.rep = Report(ck.rep.pid, ck.rep.level)
                    f, a = jobs[k]
                    sp.limit = ReSpec.limit
                    signal.alarm(60)
                    if budget and time.time() - t0 > budget or sum(1 for o in out if o[1]) > 2:
                        continue
                    f(ck, sp, *a)
                    out.append((k, rep.viol, rep.obl, rep.functions, rep.callsites, rep.states))
                pickle.dump(out, open(path, "wb"))
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        pids.append((pid, path))
    got = []
    for pid, path in pids:
        _, rc = os.waitpid(pid, 0)
        if rc == 0:
            got += pickle.load(open(path, "rb"))
        os.unlink(path)
    for k, viol, obl, fns, cs, n in sorted(got, key=lambda x: x[0]):
        for v in viol:
            ck.rep.violation(v["where"], v["rule"], v["text"], v["key"])
        ck.rep.obl += obl
        ck.rep.functions |= fns
        ck.rep.callsites += cs
        ck.rep.states += n


def seeded():
    import random
    return random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))


THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"


def E01(ck, sp):
    spread(ck, sp, [(single, (n,)) for n in STATES] + [(linked, (n,)) for n in LINKS] + [(built, (k, n)) for n in BUILDS for k in ("build", "simple")])
    ck.rep.rule("Every kind of state and its clone is interpreted on an unknown text at the first, second and a later position: it is entered for exactly the symbols it stands for, reads exactly that symbol (or none), and never the end of the text.")
    ck.rep.rule("Linking and merging leave exactly the links that the merged graph has, from both ends; identifiers are distinct and the order is strict; every state is released once.")
    ck.rep.rule("The automaton that each sequence of builder calls makes, before and after simplification, is extracted and must accept the same language as the equivalent pattern.")


def E02(ck, sp):
    rng = seeded()
    cross = crossed()
    pats = list(BASIC)
    if THOROUGH:
        pats += cross + pairs() + random_patterns(rng, 900)
    else:
        pats += rng.sample(cross, 130) + rng.sample(pairs(), 70) + random_patterns(rng, 120)
    pats = list(dict.fromkeys(pats))
    spread(ck, sp, [(language, (p,)) for p in pats] + [(language, (p, "s_again")) for p in BASIC[:len(BASIC) if THOROUGH else 40]], budget=600)
    ck.rep.rule("The compiler is interpreted on each pattern, its letters unknown; the automaton it leaves is read off the abstract memory together with what every state does with an unknown symbol, "
                "and compared with the reference meaning of the pattern for all texts of any length (product of the two subset constructions over the classes of symbols that either tells apart).")


RUNS = ["a", "ab*", "(a*)*", "a|b", "\\ba|.$", "^a*$", "(a|ab)(c|bc)", "[^a]b?", "(a?){2}", "", "a{2}", "(a*b*)*", ".*a", "a\\b", "(|a)+"]


def E03(ck, sp):
    jobs = [(whole, (p, 3 if THOROUGH else 2)) for p in RUNS]
    jobs += [(whole, (p, 1)) for p in RUNS]
    for f in ("s_steps", "s_reset0", "s_reset", "s_free", "s_string"):
        for p in (RUNS if THOROUGH else RUNS[:8] if f != "s_reset" else RUNS[:4]):
            jobs.append((whole, (p, 2 if THOROUGH else 1, f)))
            if f in ("s_free", "s_string"):
                jobs.append((whole, (p, 2, f)))
                jobs.append((whole, (p, 0, f)))
    spread(ck, sp, jobs, budget=600)
    ck.rep.rule("Runs of an executor are interpreted on texts of a given length with unknown symbols; each class of texts must get the answer of the reference meaning, through accept, through single steps, and after a reset with another text half way.")
    ck.rep.rule("No symbol before the beginning or after the end of the text is read; no state is entered without end at the same position; everything is released.")


def E04(ck, sp):
    rng = seeded()
    pats = ODD + random_odd(rng, 900 if THOROUGH else 160)
    pats = [p.encode("latin1").decode("latin1") for p in dict.fromkeys(pats)]
    spread(ck, sp, [(garbled, (p, 1)) for p in pats], budget=600)
    ck.rep.rule("Compiling and running is interpreted on patterns that are not well formed, on an unknown text: no access outside an object, no use of a value that was never set, no null dereference, no endless loop, everything released once.")


def main():
    pid = sys.argv[1]
    ck = Checker(pid, "regex.cpp", link=("hal", "regex"))
    sp = ReSpec(ck.m)
    {"E01": E01, "E02": E02, "E03": E03, "E04": E04}[pid](ck, sp)
    finish(ck.rep, {"E01": 30, "E02": 150, "E03": 30, "E04": 60}[pid])


if __name__ == "__main__":
    main()
