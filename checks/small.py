"""Mathematical models of the containers, and the histories that are compared with them (called from the container checks)."""
import sys, os, re, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.hist import *

DEEP = os.environ.get("VERIF_TIER", "quick") == "thorough"
DEF = ZERO          # a default constructed value
NONE = 99
END = (2, -1)


class Src:
    def __init__(self):
        self.i = 0

    def __call__(self):
        self.i += 1
        return el(self.i - 1)


def packed(rs):
    return sum(r << (4 * i) for i, r in enumerate(rs))


# ------------------------------------------------------------------ lists
def see_list(out, l):
    out += [(1, x) for x in l] + [END, (3, len(l))] + [(4, x) for x in reversed(l)] + [(5, len(l))] + [(6, x) for x in l] + [(7, 3 if l else 0)]


def step_list(out, l, op, i, s):
    """the list after the step, or None when the step is not defined"""
    n = len(l)
    if op in (0, 1):
        x = s()
        out.append((8, x))
        l = l + [x] if op == 0 else [x] + l
    elif op in (2, 3):
        a, b = s(), s()
        l = l + [a, b] if op == 2 else [b, a] + l
    elif op in (4, 5):
        if i >= n:
            return None
        l = l[:i] + l[i + 1:]
    elif op in (6, 7):
        out.append((8, int(n > 0)))
        l = l[:-1] if op == 6 else l[1:]
    elif op in (8, 9):
        o = s()
        out += [(8, int(n > 0)), (9, (l[-1] if op == 8 else l[0]) if n else o)]
        l = l[:-1] if op == 8 else l[1:]
    elif op == 10:
        l = []
    elif op in (11, 15):
        see_list(out, l)
    elif op == 12:
        for _ in range(i):
            s()
        out.append((8, 1))
        see_list(out, l)
        see_list(out, l + [s()])
    elif op == 13:
        see_list(out, l)
    elif op == 14:
        for _ in range(i):
            s()
        see_list(out, l)
        l = [s()] + l
    elif op == 16:
        out.append((8, 1))
    elif op == 17:
        l = [s() for _ in range(i)]
        see_list(out, l)
    see_list(out, l)
    return l


LIST_OPS = [(o, 0) for o in (0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 13, 15, 16)] + [(o, i) for o in (4, 5) for i in range(4)] + [(o, i) for o in (12, 14, 17) for i in range(4)]


def step_array(out, l, op, i, s):
    n = len(l)
    if op in (0, 1, 2):
        x = s()
        out.append((8, x))
        p = n if op == 0 else 0 if op == 1 else i
        l = l + [DEF] * (p - n)
        l = l[:p] + [x] + l[p:]
    elif op in (3, 4, 5, 6):
        xs = [s() for _ in range(3 if op == 6 else 2)]
        p = n if op == 3 else 0 if op == 4 else i
        l = l + [DEF] * (p - n)
        l = l[:p] + xs + l[p:]
    elif op in (7, 23, 24):
        p = i if op == 7 else 0 if op == 23 else n - 1
        if p < 0 or p >= n:
            return None
        l = l[:p] + l[p + 1:]
    elif op == 8:
        if i + 2 > n:
            return None
        l = l[:i] + l[i + 2:]
    elif op in (9, 10, 11):
        s()
        p = i if op == 9 else 0 if op == 10 else n - 1
        if p < 0 or p >= n:
            return None
        out.append((9, l[p]))
        l = l[:p] + l[p + 1:]
    elif op in (12, 13):
        l = []
    elif op == 14:
        see_array(out, l)
        see_array(out, l + [s()])
    elif op == 15:
        for _ in range(i):
            s()
        out.append((8, 1))
        see_array(out, l)
        see_array(out, l + [s()])
    elif op == 16:
        see_array(out, l)
    elif op == 17:
        for _ in range(i):
            s()
        see_array(out, l)
        l = [s()] + l
    elif op == 18:
        if i >= n:
            l = l + [DEF] * (i - n) + [s()]
        out.append((8, l[i]))
    elif op == 19:
        x = s()
        if i >= n:
            l = l + [DEF] * (i - n) + [x]
        out.append((8, l[i]))
    elif op == 20:
        d = [DEF] * i
        see_array(out, d)
        see_array(out, d + [s(), s()])
    elif op == 21:
        if not l:
            return None
        see_array(out, l)
        see_array(out, l + [s()])
    elif op == 22:
        l = [s() for _ in range(i)]
        see_array(out, l)
    elif op == 25:
        if i > n:
            return None
    see_array(out, l)
    return l


def see_array(out, l):
    out += [(1, x) for x in l] + [END, (3, len(l)), (4, int(not l))] + [(5, x) for x in l]


ARRAY_OPS = [(o, 0) for o in (0, 1, 3, 4, 10, 11, 12, 13, 14, 16, 23, 24)] + [(o, i) for o in (2, 5, 6, 7, 8, 9, 15, 17, 18, 19, 20, 21, 22, 25) for i in ((0, 1, 3, 5) if not DEEP else range(6))]


def linear(ops, step, sizes, depth, nargs=3):
    """group -> histories of `depth` steps over a sequence container"""
    groups = {}
    nop = (63, 0)
    for n in sizes:
        for seq in itertools.product(ops, repeat=depth):
            s = Src()
            l = [s() for _ in range(n)]
            out = []
            ok = True
            for o, i in seq + (nop,) * (nargs - depth):
                l = step(out, l, o, i, s)
                if l is None or len(l) > 11 or s.i > 22:
                    ok = False
                    break
            if ok:
                args = [n] + [x for p in seq + (nop,) * (nargs - depth) for x in p]
                groups.setdefault("histories of step %d from %d elements" % (seq[0][0], n), []).append((str(seq), args, out))
    return groups


# ------------------------------------------------------------------ trees
def see_tree(out, t):
    for x, r in t:
        out += [(1, x), (2, r)]
    out.append((3, len(t)))
    out += [(4, r) for x, r in reversed(t)] + [(5, r) for x, r in t] + [(6, int(not t))]


def put(t, x, r):
    """behind its equals"""
    k = sum(1 for y, q in t if q <= r)
    return t[:k] + [(x, r)] + t[k:]


def step_tree(out, t, op, i, s):
    eq = [y for y, q in t if q == i]
    if op == 0:
        x = s()
        out.append((8, x))
        t = put(t, x, i)
    elif op == 1:
        x = s()
        if eq:
            if len(eq) > 1:
                return None
            out.append((8, eq[0]))
        else:
            out.append((8, x))
            t = put(t, x, i)
    elif op == 2:
        x = s()
        if len(eq) > 1:
            return None
        out.append((8, x))
        t = [(x if q == i else y, q) for y, q in t] if eq else put(t, x, i)
    elif op == 3:
        if i >= len(t):
            return None
        t = t[:i] + t[i + 1:]
        out.append((8, t[i][1] if i < len(t) else NONE))
    elif op == 4:
        s()
        if len(eq) > 1:
            return None
        out.append((8, int(bool(eq))))
        t = [(y, q) for y, q in t if q != i]
    elif op == 5:
        t = []
    elif op == 6:
        see_tree(out, t)
        see_tree(out, put(t, s(), i))
    elif op == 7:
        for _ in range(i):
            s()
        out.append((8, 1))
        see_tree(out, t)
    elif op == 8:
        see_tree(out, t)
    elif op == 9:
        for _ in range(i):
            s()
        see_tree(out, t)
    elif op == 10:
        for r in range(i):
            ys = [y for y, q in t if q == r]
            out += [(10, r if ys else NONE), (11, r if ys else NONE)] + [(12, y) for y in ys] + [(13, len(ys))]
    elif op == 11:
        a, b = s(), s()
        t = put(put(t, a, i), b, i + 1)
    elif op == 12:
        out.append((8, 1))
    see_tree(out, t)
    return t


def trees():
    groups = {}
    nop = (63, 0)
    one = [(0, r) for r in (1, 2, 4)] + [(1, r) for r in (1, 2, 6)] + [(2, r) for r in (1, 2, 6)] + [(3, p) for p in range(6)] + [(4, r) for r in (1, 2, 3, 6)] + [(5, 0), (6, 2), (7, 0), (7, 3), (8, 0), (9, 0), (9, 2), (10, 6), (11, 2), (12, 0)]
    starts = []
    for n in range(5):
        starts += list(itertools.permutations(range(1, n + 1)))
    starts += [(1, 1), (1, 1, 1), (2, 1, 2), (1, 2, 1, 2), (2, 2, 1, 1), (1, 2, 2, 3), (3, 2, 2, 1)]
    five = list(itertools.permutations(range(1, 6)))
    for start, steps in [(st, [(a, nop) for a in one]) for st in starts] + [(st, [((3, a), (3, b)) for a in range(5) for b in ((0, 1, 2, 3) if DEEP else (1,))]) for st in five] \
            + [(tuple(range(1, 9)), [((3, a), (3, b)) for a in range(8) for b in range(7)]), (tuple(range(8, 0, -1)), [((3, a), (3, b)) for a in range(8) for b in range(7)]), ((4, 2, 6, 1, 3, 5, 7, 8), [((3, a), (3, b)) for a in range(8) for b in range(7)])] \
            + ([(st, [(a, b) for a in one for b in one]) for st in starts[:10]] if DEEP else [((), [(a, b) for a in one for b in one]), ((1,), [(a, b) for a in one for b in one])]):
        for seq in steps:
            s = Src()
            t = []
            for r in start:
                t = put(t, s(), r)
            out = []
            for o, i in seq:
                t = step_tree(out, t, o, i, s)
                if t is None:
                    break
            if t is not None:
                groups.setdefault("histories of step %d from %d nodes" % (seq[0][0], len(start)), []).append((str((start, seq)), [len(start), packed(start)] + [x for p in seq for x in p], out))
    return groups


# ------------------------------------------------------------------ sets and maps
def see_set(out, t):
    for r in sorted(t):
        out += [(1, t[r]), (2, r)]
    out.append((3, len(t)))


def ranks(out, t):
    out += [(2, r) for r in sorted(t)] + [(3, len(t))]


def algebra():
    groups = {}
    dom = (1, 2, 3, 4) if DEEP else (1, 2, 3)
    subs = [c for n in range(len(dom) + 1) for c in itertools.combinations(dom, n)]
    extra = [((1, 2, 3, 4, 5, 6), (2, 4, 6)), ((2, 4, 6), (1, 2, 3, 4, 5, 6)), ((1, 2, 3), (4, 5, 6)), ((4, 5, 6), (1, 2, 3)), ((1, 3, 5), (2, 4, 6)), ((6, 5, 4, 3, 2, 1), (3, 4, 5, 7)), ((1, 4), (2, 3, 5)), ((3,), (1, 2, 4, 5))]
    names = ["+=", "*=", "-=", "+", "*", "-", "comparison", "+= itself", "*= itself", "-= itself", "comparison with itself", "copy", "move"]
    for op, nm in enumerate(names):
        for ra, rb in [(a, b) for a in subs for b in subs] + extra:
            if op in (7, 8, 9, 10) and rb:
                continue
            s = Src()
            a = {r: s() for r in ra}
            b = {r: s() for r in rb}
            A_, B_ = set(a), set(b)
            out = []
            if op < 3:
                out.append((8, 1))
                ranks(out, [A_ | B_, A_ & B_, A_ - B_][op])
            elif op < 6:
                ranks(out, [A_ | B_, A_ & B_, A_ - B_][op - 3])
                ranks(out, a)
            elif op in (6, 10):
                y = B_ if op == 6 else A_
                out += [(20, int(A_ == y)), (21, int(A_ != y)), (22, int(A_ <= y)), (23, int(A_ >= y)), (24, int(A_ < y)), (25, int(A_ > y))]
                ranks(out, a)
            elif op in (7, 8):
                ranks(out, a)
            elif op == 9:
                ranks(out, {})
            elif op == 11:
                see_set(out, a)
                see_set(out, b)
                see_set(out, a)
            elif op == 12:
                see_set(out, a)
                see_set(out, a)
                see_set(out, a)
            if op != 12:
                see_set(out, b)
            groups.setdefault("set %s" % nm, []).append((str((ra, rb)), [packed(ra), packed(rb), op], out))
    return groups


def step_set(out, t, op, i, s):
    t = dict(t)
    if op == 0:
        x = s()
        t.setdefault(i, x)
        out.append((8, t[i]))
    elif op == 1:
        a, b = s(), s()
        t.setdefault(i, a)
        t.setdefault(i + 1, b)
    elif op == 2:
        out.append((8, int(i in t)))
        t.pop(i, None)
    elif op == 3:
        x = s()
        out += [(8, int(i in t)), (9, i if i in t else 50), (9, t.get(i, x))]
        t.pop(i, None)
    elif op == 4:
        for r in range(1, 5):
            out += [(8, int(r in t)), (8, int(r in t)), (9, r if r in t else 50), (9, t.get(r, el(s.i))), (8, int(r in t)), (9, r if r in t else 50)]
    elif op == 5:
        for r in range(1, 5):
            for f in (any, all):
                out += [(8, int(f(k in t for k in ks))) for ks in ((r,), (r, i), (i, r, i))]
    elif op == 6:
        for r in range(6):
            out += [(8, 1 + 100 * r if r in t else 0)] * 2
    see_set(out, t)
    return t


def sets():
    groups = {}
    ops = [(0, 1), (0, 2), (0, 4), (1, 1), (1, 3), (2, 1), (2, 2), (2, 5), (3, 1), (3, 3), (3, 5), (4, 0), (5, 1), (5, 3), (5, 5), (6, 0), (2, 3), (2, 4), (0, 3)]
    starts = [p for n in range(5 if DEEP else 4) for p in itertools.permutations((1, 2, 3, 4)[:n])] + [(2, 4), (3, 1), (1, 2, 3, 4), (4, 2, 1, 3), (1, 2, 3, 4, 5), (1, 3, 5)]
    for st in starts:
        for seq in itertools.product(ops, ops):
            if not DEEP and len(st) > 2 and seq[1][0] not in (4, 5, 6) and seq[0] > (2, 0):
                continue
            s = Src()
            t = {r: s() for r in st}
            out = []
            for o, i in seq:
                t = step_set(out, t, o, i, s)
            groups.setdefault("set histories of step %d from %d elements" % (seq[0][0], len(st)), []).append((str((st, seq)), [packed(st)] + [x for p in seq for x in p], out))
    return groups


def see_map(out, t):
    for r in sorted(t):
        out += [(1, r), (2, t[r])]
    out.append((3, len(t)))


def step_map(out, t, op, i, s):
    t = dict(t)
    if op == 0:
        s()
        t.setdefault(i, DEF)
        out.append((8, t[i]))
    elif op == 1:
        s()
        t[i] = s()
    elif op == 2:
        s()
        x = s()
        t[i] = x
        out.append((8, x))
    elif op == 3:
        out.append((8, int(i in t)))
        t.pop(i, None)
    elif op == 4:
        x = s()
        out += [(8, int(i in t)), (9, t.get(i, x))]
        t.pop(i, None)
    elif op == 5:
        for r in range(1, 5):
            out += [(8, int(r in t)), (8, int(r in t)), (9, t.get(r, el(s.i))), (8, r if r in t else NONE)]
            if r in t:
                out.append((9, t[r]))
    elif op == 6:
        ks = sorted(t)
        if i >= len(ks):
            return None
        t.pop(ks[i])
        out.append((8, ks[i + 1] if i + 1 < len(ks) else NONE))
    elif op in (7, 8):
        if op == 7:
            see_map(out, t)
        s()
        x = s()
        see_map(out, {**t, i: x} if op == 7 else t)
    elif op in (9, 10):
        if op == 10:
            s()
            s()
        see_map(out, t)
    elif op == 11:
        for r in range(6):
            out += [(8, 1 + 100 * r if r in t else 0)] * 2
    see_map(out, t)
    return t


def maps():
    groups = {}
    ops = [(0, 1), (0, 2), (0, 4), (1, 1), (1, 3), (2, 1), (2, 2), (2, 4), (3, 1), (3, 2), (3, 5), (4, 1), (4, 3), (4, 5), (5, 0), (6, 0), (6, 1), (6, 2), (7, 1), (7, 4), (8, 2), (9, 0), (10, 1), (11, 0)]
    starts = [p for n in range(5 if DEEP else 4) for p in itertools.permutations((1, 2, 3, 4)[:n])] + [(2, 4), (3, 1), (1, 2, 3, 4), (4, 2, 1, 3), (1, 3, 5)]
    for st in starts:
        for seq in itertools.product(ops, ops):
            if not DEEP and (len(st) > 2 and seq[1][0] not in (5, 11) or len(st) > 1 and seq[0][0] > 6 and seq[1][0] > 4):
                continue
            s = Src()
            t = {}
            for r in st:
                s()
                t[r] = s()
            out = []
            for o, i in seq:
                t = step_map(out, t, o, i, s)
                if t is None:
                    break
            if t is not None and s.i < 22:
                groups.setdefault("map histories of step %d from %d pairs" % (seq[0][0], len(st)), []).append((str((st, seq)), [packed(st)] + [x for p in seq for x in p], out))
    return groups


PARTS = {"list": lambda: linear(LIST_OPS, step_list, range(4), 2), "array": lambda: linear(ARRAY_OPS, step_array, (0, 1, 3) if not DEEP else range(6), 2), "tree": trees, "algebra": algebra, "set": sets, "map": maps}


def small(rep, *names, steps=None):
    """add the histories of the named containers to a report (steps: only those that begin with one of these steps)"""
    only = os.environ.get("KA_ONLY")
    try:
        m = witness("small.cpp", ("hal",))
    except Broken as e:
        # the rules on the representation still decide; finish() complains if they do not
        rep.undecided("histories" if __name__ != "__main__" else "all", str(e)[:400])
        return
    for n in names:
        g = PARTS[n]()
        if steps is not None:
            g = {k: v for k, v in g.items() if int(re.search(r"step (\d+)", k).group(1)) in steps}
        if only:
            g = {k: v for k, v in g.items() if only in k}
        histories(rep, m, HistSpec(m), "s_" + n, g)
    rep.rule("Every history of short length over containers of few elements with unknown values is interpreted exactly, and every observation is compared with a mathematical model: results, contents forwards and "
             "backwards, counts, untouched sources, element lifetimes and memory at the end.")


if __name__ == "__main__":
    import time
    for n in sys.argv[1:]:
        t = time.time()
        r = Report("SMALL")
        small(r, n)
        print(n, len(r.obl), "groups", sum(1 for o in r.obl if o[1] == "discharged"), "ok", "%.1fs" % (time.time() - t))
        for v in r.viol[:12]:
            print("  ", v["where"], v["rule"], v["text"][:300])
        for o in [o for o in r.obl if o[1] == "undecided"][:5]:
            print("   UNDECIDED", o[0], o[2][:200])
