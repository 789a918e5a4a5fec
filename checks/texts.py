"""Texts of few unknown characters, followed exactly through the string operations and compared with their definition (called
from the string checks)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.hist import *
from ka.engine import Engine

DEEP = os.environ.get("VERIF_TIER", "quick") == "thorough"


class TextsSpec(HistSpec):
    exact_bytes = True
    max_states = 60000
    unroll_width = 8192

    def handler(self, eng, name, dem):
        return {"memcmp": self.h_memcmp, "bcmp": self.h_memcmp, "strlen": self.h_strlen}.get(name) or super().handler(eng, name, dem)

    def default_cell(self, eng, a, off, size, ty):
        v = super().default_cell(eng, a, off, size, ty)
        if size == 1:
            raise Incomplete("a character that was never given is read")
        return v

    def h_memcmp(self, eng, st, ins, args, dem):
        if not args[2].const:
            raise Incomplete("comparison of unknown length")
        out, todo = [], [st]
        for i in range(args[2].c):
            nxt = []
            for s in todo:
                for s1, x in eng.load(s, add(args[0], C(i)), BYTE, ins):
                    for s2, y in eng.load(s1, add(args[1], C(i)), BYTE, ins):
                        for s3, e in eng.split_lin_eq(s2, sub(x, y)):
                            if e:
                                nxt.append(s3)
                            else:
                                k = eng.fresh("differ", "i")
                                s3.facts = s3.facts.with_ne(A(k))
                                out.append((s3, A(k)))
            todo = nxt
        return out + [(s, ZERO) for s in todo]

    def h_strlen(self, eng, st, ins, args, dem):
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i > 64:
                raise Incomplete("length of an endless text")
            for s1, x in eng.load(s, add(args[0], C(i)), BYTE, ins):
                for s2, e in eng.split_lin_eq(s1, x):
                    if e:
                        out.append((s2, C(i)))
                    else:
                        todo.append((s2, i + 1))
        return out


BYTE = {"k": "int", "w": 8, "sz": 1}


class Need(Exception):
    pass


class Ask:
    """decisions about characters: what the facts say, or both ways"""

    def __init__(self, f):
        self.f = f

    def ge(self, l):
        if self.f.entails(l):
            return True
        n = add(scale(l, -1), C(-1))
        if self.f.entails(n):
            return False
        raise Need(l, n)

    def eq(self, a, b):
        d = sub(a, b)
        if not d.t:
            return d.c == 0
        if self.f.nonzero(d):
            return False
        return self.ge(d) and self.ge(scale(d, -1))

    def within(self, c, lo, hi):
        return self.ge(add(c, C(-lo))) and self.ge(sub(C(hi), c))

    def low(self, c):
        return add(c, C(32)) if self.within(c, 65, 90) else c

    def up(self, c):
        return add(c, C(-32)) if self.within(c, 97, 122) else c

    def sign(self, d):
        return 0 if self.eq(d, ZERO) else 1 if self.ge(d) else -1


def outcomes(f, oracle):
    todo = [f]
    while todo:
        g = todo.pop()
        if any(g.zero(n) for n in g.ne):
            continue                # the path cannot be taken
        try:
            yield g, oracle(Ask(g))
        except Need as e:
            for l in e.args:
                h = g.with_ge(l)
                if h is not None:
                    todo.append(h)


def lits(x):
    return [C(ord(c)) for c in x]


def see(out, s):
    out += [(1, len(s))] + [(2, c) for c in s] + [(2, 0)]


def cmp(q, a, b):
    for x, y in zip(a + [ZERO], b + [ZERO]):
        if not q.eq(x, y):
            return sub(x, y)
    return ZERO


def icmp(q, a, b):
    for x, y in zip(a, b):
        if not q.eq(x, y) and not q.eq(q.low(x), q.low(y)):
            return q.sign(sub(x, y))
    # the end of a text is smaller than what is not negative and larger than what is
    n = min(len(a), len(b))
    return q.sign(a[n]) if len(a) > n else -q.sign(b[n]) if len(b) > n else 0


def match(q, s, p, i):
    return i + len(p) <= len(s) and all(q.eq(x, y) for x, y in zip(s[i:i + len(p)], p))


def find(q, s, p, x):
    for i in range(x, len(s) - len(p) + 1):
        if match(q, s, p, i):
            return i
    return -1


def every(q, out, s, p):
    l = [i for i in range(len(s) - len(p) + 1) if match(q, s, p, i)]
    out += [(6, i) for i in l] + [(7, len(l))]


def definition(op, a, b, c, x, y, q):
    out = []
    s, t = list(a), list(b)
    if op == 0:
        for u in (s, t, t, s, [], [c[0]] * len(a), [], s, s, t, t):
            see(out, u)
    elif op in (1, 2):
        d = cmp(q, s, t)
        r = q.sign(d)
        out += [(3, int(v)) for v in (r == 0, r != 0, r < 0, r <= 0, r > 0, r >= 0)] + [(4, d)]
    elif op in (3, 4):
        out.append((4, icmp(q, s, t)))
    elif op == 5:
        out.append((4, next((sub(m, n) for m, n in zip(s[y:y + x], t[y:y + x]) if not q.eq(m, n)), ZERO)))
    elif op == 6:
        out.append((4, next((q.sign(sub(m, n)) for m, n in zip(s[y:y + x], t[y:y + x]) if not q.eq(m, n) and not q.eq(q.low(m), q.low(n))), 0)))
    elif op == 7:
        out += [(5, len(s)), (5, len(t)), (4, cmp(q, s, t))]
    elif op == 8:
        out.append((4, icmp(q, s, t)))
    elif op == 9:
        out += [(5, find(q, s, t, x))] * 2
    elif op == 10:
        out.append((5, find(q, s, t, x)))
    elif op == 11:
        out.append((5, find(q, s, c[:y] if y else c, x)))
    elif op == 12:
        out.append((5, find(q, s, c[:1], x)))
        every(q, out, s, c[:1])
    elif op in (13, 14):
        every(q, out, s, t)
    elif op == 15:
        i = 0
        while t:
            i = find(q, s, t, i)
            if i < 0:
                break
            s = s[:i] + c + s[i + len(t):]
            i += len(c)
        out.append((8, 1))
        see(out, s)
        see(out, c)
    elif op == 16:
        see(out, [q.low(k) for k in s])
    elif op == 17:
        see(out, [q.up(k) for k in s])
    elif op in (18, 19, 20):
        s = s[:x] + (t if op < 20 else s) + s[x + y:]
        if op < 20:
            out.append((8, 1))
        see(out, s)
    elif op == 21:
        see(out, s[x:x + y])
        if not x:
            see(out, s[:y])
        see(out, s)
    elif op == 22:
        out.append((8, 1))
        for k in (t, t, c[:1]):
            s = s + k
            see(out, s)
        s = s + s
        see(out, s)
    elif op == 23:
        for k in (t, t, c[:1], s):
            see(out, s + k)
    elif op == 24:
        see(out, lits("[") + [k for i, e in enumerate(c) for k in (lits(", ") if i else []) + [e]] + lits("]"))
    elif op == 25:
        see(out, lits("[ ") + [k for i, e in enumerate(c) for k in (lits("-> ") if i else []) + [e]] + lits(" ]") if c else lits("[]"))
    elif op == 26:
        see(out, lits("[") + s + lits(", ") + t + lits("]"))
    see(out, s)
    see(out, t)
    return out


def chars(n, k):
    return [A(("s", "%s%d" % (n, i), "i")) for i in range(k)]


def run_text(mod, spec, fname, seqs, pid):
    ck = Checker.__new__(Checker)
    ck.rep, ck.m, ck.only, ck.first = Report(pid), mod, None, True
    Facts.thorough = True
    for label, (op, na, nb, nc, x, y), _ in seqs:
        if ck.rep.viol:
            break
        abc = [chars(n, k) for n, k in (("a", na), ("b", nb), ("c", nc))]

        def pre(eng):
            st = State()
            ps = []
            for j, (n, cs) in enumerate(zip("abc", abc)):
                r = ("R", -20 - j, n)
                end = n != "a"
                st.mem[r] = Region("input", C(len(cs) + end), {"name": n})
                for i, ch in enumerate(cs):
                    st.mem[r].cells[i] = (1, ch)
                    st.facts = st.facts.with_ge(add(ch, C(128)), sub(C(127), ch)).with_ne(ch)
                if end:
                    st.mem[r].cells[len(cs)] = (1, ZERO)
                ps += [A(r), C(len(cs))]
            yield label, st, [C(op)] + ps + [C(x), C(y)]

        def post(eng, label, s, v):
            out = list(spec.leftovers(s))
            saw = s.x.get("saw", ())
            for f, exp in outcomes(s.facts, lambda q: definition(op, *[list(k) for k in abc], x, y, q)):
                if len(saw) != len(exp):
                    out.append(("result", "%s: %d observations, expected %d" % (label, len(saw), len(exp))))
                    break
                for (t, *g), (u, e) in zip(saw, exp):
                    g, e = g[-1], C(e) if isinstance(e, int) else e
                    if t != u:
                        out.append(("result", "%s: observation of kind %s (%s), expected kind %s (%s)" % (label, t, show(g), u, show(e))))
                        break
                    if g == e or isinstance(g, Lin) and f.zero(sub(g, e)):
                        continue
                    if isinstance(g, Undef) or f.nonzero(sub(g, e)) or f.entails(add(sub(g, e), C(-1))) or f.entails(add(sub(e, g), C(-1))) or plain(g):
                        out.append(("result", "%s: observation (kind %s) is %s, expected %s" % (label, t, show(g), show(e))))
                        break
                    raise Incomplete("a character is not determined")
            return out
        ck.obligation("text", spec, fname, pre, post)
    r = ck.rep
    return r.functions, r.callsites, r.states, [(v["rule"], v["text"]) for v in r.viol], r.obl


def plain(g):
    return all(T.atom(i)[0] == "s" for i, _ in g.t)


NAMES = {0: "construction", 1: "comparison with a string", 2: "comparison with a C string", 3: "icmp of strings", 4: "icmp with a C string", 5: "cmpn", 6: "icmpn", 7: "cmp and length of C strings", 8: "icmp of C strings",
         9: "findIndex of a string", 10: "findIndex of a C string", 11: "findIndex of a part of a C string", 12: "occurrences of a character", 13: "findAll of a string", 14: "findAll of a C string", 15: "replaceAll",
         16: "toLower", 17: "toUpper", 18: "splice of a string", 19: "splice of a C string", 20: "splice of itself", 21: "substr", 22: "append", 23: "operator+", 24: "Array::toString", 25: "List::toString", 26: "Array of strings"}


def cases(edit):
    groups = {}
    M = 5 if DEEP else 4

    def put(op, *a):
        groups.setdefault(NAMES[op], []).append(("%s %s" % (NAMES[op], a), (op,) + a, None))
    if edit:
        for na in range(3):
            for nb in range(3):
                put(0, na, nb, 1, 0, na + nb)
                put(22, na, nb, 1, 0, 0)
                put(23, na, nb, 1, 0, 0)
                put(26, na, nb, 0, 0, 0)
        for na in range(M + 1):
            for x in range(na + 1):
                for y in range(na - x + 1):
                    put(21, na, 0, 0, x, y)
                    put(20, na, 0, 0, x, y)
                    for nb in range(3):
                        put(18, na, nb, 0, x, y)
                        put(19, na, nb, 0, x, y)
        for nc in range(4):
            put(24, 0, 0, nc, 0, 0)
            put(25, 0, 0, nc, 0, 0)
        return groups
    for na in range(M + 1):
        for nb in range(M + 1):
            for op in (1, 2, 7):
                put(op, na, nb, 0, 0, 0)
            if na + nb <= (6 if DEEP else 5):
                for op in (3, 4, 8):
                    put(op, na, nb, 0, 0, 0)
            for x in range(na + 2):
                if nb <= na + 1:
                    put(9, na, nb, 0, x, 0)
                    if nb or x < na + 1:
                        put(10, na, nb, 0, x, 0)
            if nb <= na + 1:
                put(13, na, nb, 0, 0, 0)
                put(14, na, nb, 0, 0, 0)
            for nc in range(3):
                if nb <= na:
                    put(15, na, nb, nc, 0, 0)
        for nc in range(1, 3):
            for y in range(nc + 1):
                for x in range(na + 2):
                    put(11, na, 0, nc, x, y)
        for x in range(na + 2):
            put(12, na, 0, 1, x, 0)
        for y in range(na + 1):
            for x in range(na - y + 1):
                put(5, na, na, 0, x, y)
                if x < 3:
                    put(6, na, na, 0, x, y)
        if na < 4:
            put(16, na, 0, 0, 0, 0)
            put(17, na, 0, 0, 0, 0)
    return groups


def texts(rep, edit):
    only = os.environ.get("KA_ONLY")
    try:
        m = witness("texts.cpp", ("hal",))
    except Broken as e:
        # the rules on the representation still decide; finish() complains if they do not
        rep.undecided("histories" if __name__ != "__main__" else "all", str(e)[:400])
        return
    g = cases(edit)
    if only:
        g = {k: v for k, v in g.items() if only in k}
    histories(rep, m, TextsSpec(m), "s_text", g, run=run_text)
    rep.rule("Texts of few unknown characters are followed exactly through each operation; every observation must be what the definition says for all characters with which the path can be taken.")


if __name__ == "__main__":
    import time
    for n in sys.argv[1:]:
        t = time.time()
        r = Report("TEXTS")
        texts(r, n == "edit")
        print(n, len(r.obl), "groups", sum(1 for o in r.obl if o[1] == "discharged"), "ok", "%.1fs" % (time.time() - t))
        for v in r.viol[:12]:
            print("  ", v["where"], v["rule"], v["text"][:300])
        for o in [o for o in r.obl if o[1] == "undecided"][:30]:
            print("   UNDECIDED", o[0], o[2][:200])
