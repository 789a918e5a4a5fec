"""Linear-inequality facts (convex polyhedra with integer tightening) and ordering facts."""
from math import gcd
from .terms import Lin, C, A, add, sub, scale, atom, aid, value_atoms

LIMIT = 600


def _norm(c, t):
    """c + sum t >= 0 over the integers, divided by the gcd of the coefficients"""
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if g > 1:
        c = c // g          # floor: integer tightening
        t = tuple((i, k // g) for i, k in t)
    return (c, t)


_nn_cache = {}


def atom_nonneg(i):
    r = _nn_cache.get(i)
    if r is None:
        a = atom(i)
        r = False
        if a[0] == "s":
            r = a[2] == "u"
        elif a[0] in ("R", "G"):
            r = True
        elif a[0] == "mono":
            r = all(atom_nonneg(j) for j in a[1:])
        elif a[0] == "op" and a[1] in ("udiv", "urem", "lshr", "zext", "ctlz", "ctpop", "cttz"):
            r = True
        elif a[0] == "op" and a[1] in ("and",):
            r = any(isinstance(x, Lin) and lin_nonneg(x) for x in a[3:])
        elif a[0] == "op" and a[1] in ("umax", "umin", "smax", "smin", "or", "shl"):
            r = all(isinstance(x, Lin) and lin_nonneg(x) for x in a[3:])
        _nn_cache[i] = r
    return r


def lin_nonneg(l):
    return l.c >= 0 and all(k > 0 and atom_nonneg(i) for i, k in l.t)


def derived(i):
    """facts that hold for an operation atom by definition"""
    a = atom(i)
    out = []
    if a[0] == "op":
        me = Lin(0, ((i, 1),))
        if a[1] in ("umax", "smax"):
            out += [sub(me, a[3]), sub(me, a[4])]
        elif a[1] in ("umin", "smin"):
            out += [sub(a[3], me), sub(a[4], me)]
        elif a[1] == "udiv" and isinstance(a[4], Lin) and a[4].const and a[4].c > 0:
            out += [sub(a[3], scale(me, a[4].c)), add(sub(scale(me, a[4].c), a[3]), C(a[4].c - 1))]
        elif a[1] == "urem" and isinstance(a[4], Lin):
            out += [add(sub(a[4], me), C(-1))]
            if a[4].const and a[4].c > 0:
                pass
            out += [sub(a[3], me)]
        elif a[1] == "and":
            for x in a[3:]:
                if isinstance(x, Lin) and lin_nonneg(x):
                    out.append(sub(x, me))
    return out


_inf_cache = {}


def infeasible(cons):
    """True if the integer constraints  lin >= 0  have no rational solution (after tightening)"""
    key = frozenset((l.c, l.t) for l in cons)
    r = _inf_cache.get(key)
    if r is None:
        r = _infeasible(cons)
        _inf_cache[key] = r
    return r


def _infeasible(cons):
    cur = {}

    def put(d, c, t):
        if not t:
            return c < 0
        c, t = _norm(c, t)
        o = d.get(t)
        if o is None or c < o:
            d[t] = c
            # opposite constraint contradiction
            n = tuple((i, -k) for i, k in t)
            p = d.get(n)
            if p is not None and p + c < 0:
                return True
        return False

    seen = set()
    todo = list(cons)
    while todo:
        l = todo.pop()
        if put(cur, l.c, l.t):
            return True
        for i, _ in l.t:
            if i not in seen:
                seen.add(i)
                if atom_nonneg(i):
                    lo = 1 if atom(i)[0] in ("R", "G") else 0
                    if put(cur, -lo, ((i, 1),)):
                        return True
                todo.extend(derived(i))
    while cur:
        # choose the variable with the least fill-in
        pos, neg = {}, {}
        for t in cur:
            for i, k in t:
                (pos if k > 0 else neg).setdefault(i, []).append(t)
        best = None
        for i in set(pos) | set(neg):
            n = len(pos.get(i, ())) * len(neg.get(i, ())) - len(pos.get(i, ())) - len(neg.get(i, ()))
            if best is None or n < best[0]:
                best = (n, i)
        i = best[1]
        P, N = pos.get(i, []), neg.get(i, [])
        new = {t: c for t, c in cur.items() if all(j != i for j, _ in t)}
        for p in P:
            kp = dict(p)[i]
            for n in N:
                kn = -dict(n)[i]
                d = {}
                for j, k in p:
                    d[j] = d.get(j, 0) + k * kn
                for j, k in n:
                    d[j] = d.get(j, 0) + k * kp
                t = tuple(sorted((j, k) for j, k in d.items() if k))
                if put(new, cur[p] * kn + cur[n] * kp, t):
                    return True
        if len(new) > LIMIT:
            return False
        cur = new
    return False


def component(facts, lins):
    """the facts connected with the atoms of lins"""
    want = set()
    for l in lins:
        want |= {i for i, _ in l.t}
        for i, _ in l.t:
            for d in derived(i):
                want |= {j for j, _ in d.t}
    out = []
    rest = list(facts)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if any(i in want for i, _ in f.t):
                out.append(f)
                for i, _ in f.t:
                    if i not in want:
                        want.add(i)
                        ch = True
                        for d in derived(i):
                            want |= {j for j, _ in d.t}
                ch = True
            else:
                nr.append(f)
        rest = nr
    return out


class Facts:
    """immutable set of known facts"""
    __slots__ = ("ge", "ne", "rel", "subst")
    thorough = False            # also look for inequalities that have become impossible together

    def __init__(self, ge=(), ne=(), rel=None, subst=None):
        self.ge = ge            # tuple of Lin >= 0
        self.ne = ne            # tuple of Lin != 0
        self.rel = rel or {}    # (x, y) -> frozenset of '<','=','>','U'  (float / opaque orderings)
        self.subst = subst or {}

    def entails(self, lin):
        """lin >= 0 ?"""
        if not lin.t:
            return lin.c >= 0
        neg = Lin(-lin.c - 1, tuple((i, -k) for i, k in lin.t))
        fs = component(self.ge, [neg])
        if infeasible(fs + [neg]):
            return True
        for n in self.ne:
            # use  n != 0  together with  n >= 0 or n <= 0
            if not set(i for i, _ in n.t) & (set(i for f in fs + [neg] for i, _ in f.t)):
                continue
            nn = scale(n, -1)
            for m in (n, nn):
                o = scale(m, -1)
                if infeasible(component(self.ge, [m]) + [add(o, C(-1))]):        # m >= 0 holds
                    if infeasible(fs + component(self.ge, [m]) + [neg, add(m, C(-1))]):
                        return True
        return False

    def nonzero(self, lin):
        if not lin.t:
            return lin.c != 0
        nl = scale(lin, -1)
        for n in self.ne:
            if n == lin or n == nl:
                return True
        return self.entails(add(lin, C(-1))) or self.entails(add(nl, C(-1)))

    def zero(self, lin):
        if not lin.t:
            return lin.c == 0
        return self.entails(lin) and self.entails(scale(lin, -1))

    def with_ge(self, *lins):
        ls = [l for l in lins if l.t and l not in self.ge]
        if any(not l.t and l.c < 0 for l in lins):
            return None
        if not ls:
            return self
        for l in ls:
            if infeasible(component(self.ge, ls) + ls):
                return None
        f = Facts(self.ge + tuple(ls), self.ne, self.rel, self.subst)
        for n in self.ne:
            if f.zero_quick(n) or Facts.thorough and f.zero(n):
                return None
        return f

    def zero_quick(self, n):
        return (n in self.ge or not n.t) and (scale(n, -1) in self.ge) or (not n.t and n.c == 0)

    def with_ne(self, lin):
        if not lin.t:
            return self if lin.c else None
        if self.zero(lin):
            return None
        if lin in self.ne or scale(lin, -1) in self.ne:
            return self
        return Facts(self.ge, self.ne + (lin,), self.rel, self.subst)
