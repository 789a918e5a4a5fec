"""Value terms: linear integer/pointer terms, real polynomials for floating point, aggregates.

Integers are mathematical integers (signed reading of constants); wrap-around of counters is an
assumption recorded in DESIGN.md.  Atoms are interned: an atom is any hashable tuple whose head
says what it is:
  ('s', name, kind)          symbol; kind in p(ointer) u(nsigned) i(nt) f(loat)
  ('R', n, kind)             base address of a region (alloca, heap, input object)
  ('G', name)                base address of a global / function
  ('op', name, w, args...)   an operation that is not linear; args are values
  ('undef', ...)             content of memory that was never written
"""
from fractions import Fraction

_atoms = []
_ids = {}


def aid(atom):
    i = _ids.get(atom)
    if i is None:
        i = len(_atoms)
        _ids[atom] = i
        _atoms.append(atom)
    return i


def atom(i):
    return _atoms[i]


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    @property
    def const(self):
        return not self.t

    def atoms(self):
        return [atom(i) for i, _ in self.t]

    def coeff(self, a):
        i = aid(a)
        for j, k in self.t:
            if i == j:
                return k
        return 0

    def single(self):
        """the atom, if this is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return atom(self.t[0][0])
        return None

    def __repr__(self):
        return show(self)


ZERO = Lin(0)
ONE = Lin(1)


def C(n):
    return Lin(int(n))


def A(a, k=1):
    return Lin(0, ((aid(a), k),))


def add(x, y, k=1):
    if not y.t:
        return Lin(x.c + k * y.c, x.t) if (y.c and k) else x
    d = dict(x.t)
    for i, c in y.t:
        n = d.get(i, 0) + k * c
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return Lin(x.c + k * y.c, tuple(sorted(d.items())))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    if k == 1:
        return x
    return Lin(x.c * k, tuple((i, c * k) for i, c in x.t))


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Agg:
    """vector or struct value"""
    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = tuple(e)
        self._h = hash(self.e)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Agg) and self.e == o.e

    def __repr__(self):
        return "{" + ", ".join(map(show, self.e)) + "}"


class Flt:
    """real polynomial over float atoms: p = tuple of (monomial(tuple of atom ids), Fraction)"""
    __slots__ = ("p", "_h")

    def __init__(self, p):
        if isinstance(p, dict):
            p = tuple(sorted((m, c) for m, c in p.items() if c))
        self.p = p
        self._h = hash(p)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Flt) and self.p == o.p

    @property
    def const(self):
        return not self.p or (len(self.p) == 1 and self.p[0][0] == ())

    def value(self):
        return self.p[0][1] if self.p else Fraction(0)

    def __repr__(self):
        return show(self)


def fconst(x):
    x = Fraction(x)
    return Flt({(): x})


def fatom(a):
    return Flt({(aid(a),): Fraction(1)})


def fadd(x, y, k=1):
    d = dict(x.p)
    for m, c in y.p:
        d[m] = d.get(m, 0) + k * c
    return Flt(d)


def fmul(x, y):
    d = {}
    for m, c in x.p:
        for n, e in y.p:
            q = tuple(sorted(m + n))
            d[q] = d.get(q, 0) + c * e
    return Flt(d)


def fdiv(x, y):
    if y.const and y.value() != 0:
        return fmul(x, fconst(1 / y.value()))
    # x / y = x * (1/y), with 1/y an atom (real-number reading)
    return fmul(x, fatom(("fop", "inv", y)))


def fcall(name, *args):
    return fatom(("fop", name) + args)


def show(v):
    if isinstance(v, Lin):
        if not v.t:
            return str(v.c)
        s = []
        for i, k in v.t:
            a = show_atom(atom(i))
            s.append(a if k == 1 else "%d*%s" % (k, a))
        r = " + ".join(s)
        if v.c:
            r += " %s %d" % ("+" if v.c > 0 else "-", abs(v.c))
        return r
    if isinstance(v, Flt):
        if not v.p:
            return "0.0"
        s = []
        for m, c in v.p:
            f = "*".join(show_atom(atom(i)) for i in m)
            s.append(("%s*" % c if c != 1 and m else ("" if m else str(c))) + f)
        return "(" + " + ".join(s) + ")"
    return repr(v)


def show_atom(a):
    if a[0] == "s":
        return a[1]
    if a[0] == "R":
        return "%s#%d" % (a[2], a[1])
    if a[0] == "G":
        return "&" + a[1]
    if a[0] in ("op", "fop"):
        return "%s(%s)" % (a[1], ", ".join(show(x) if not isinstance(x, (int, str)) else str(x) for x in a[2:]))
    return "<" + ",".join(show(x) if isinstance(x, (Lin, Flt)) else str(x) for x in a) + ">"


def value_atoms(v, acc=None):
    """all atoms mentioned anywhere in a value, including inside operations"""
    if acc is None:
        acc = set()
    if isinstance(v, Lin):
        for i, _ in v.t:
            if i not in acc:
                acc.add(i)
                for x in atom(i)[1:]:
                    if isinstance(x, (Lin, Flt, Agg)):
                        value_atoms(x, acc)
    elif isinstance(v, Flt):
        for m, _ in v.p:
            for i in m:
                if i not in acc:
                    acc.add(i)
                    for x in atom(i)[1:]:
                        if isinstance(x, (Lin, Flt, Agg)):
                            value_atoms(x, acc)
    elif isinstance(v, Agg):
        for x in v.e:
            value_atoms(x, acc)
    return acc


def rewrite(v, m, memo=None):
    """replace atoms (by id) with values, everywhere in v; m: {atom id: Lin}"""
    if not m:
        return v
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r
    if isinstance(v, Lin):
        out = None
        for n, (i, k) in enumerate(v.t):
            x = _rw_atom(i, m, memo)
            if x is not None:
                if out is None:
                    out = Lin(v.c, v.t[:n])
                out = add(out, x, k)
            elif out is not None:
                out = add(out, Lin(0, ((i, 1),)), k)
        r = v if out is None else out
    elif isinstance(v, Flt):
        out = Flt(())
        changed = False
        for mo, c in v.p:
            t = fconst(c)
            for i in mo:
                x = _rw_atom(i, m, memo)
                if x is None:
                    x = Flt({(i,): Fraction(1)})
                else:
                    changed = True
                    if isinstance(x, Lin):
                        x = fatom(("fop", "int", x))
                t = fmul(t, x)
            out = fadd(out, t)
        r = out if changed else v
    elif isinstance(v, Agg):
        r = Agg([rewrite(x, m, memo) for x in v.e])
    else:
        r = v
    memo[v] = r
    return r


def _rw_atom(i, m, memo):
    if i in m:
        return m[i]
    a = atom(i)
    if a[0] == "mono":
        if any(j in m or _rw_atom(j, m, memo) is not None for j in a[1:]):
            out = ONE
            for j in a[1:]:
                x = _rw_atom(j, m, memo)
                out = mkop("mul", 64, out, Lin(0, ((j, 1),)) if x is None else x)
            return out
        return None
    if a[0] in ("op", "fop"):
        args = []
        ch = False
        for x in a:
            if isinstance(x, (Lin, Flt, Agg)):
                y = rewrite(x, m, memo)
                ch = ch or (y != x)
                args.append(y)
            else:
                args.append(x)
        if ch:
            if a[0] == "op":
                return mkop(*args[1:])
            return fatom(tuple(args))
    return None


def _signed(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) and w > 1 else n


def _uns(n, w):
    return n & ((1 << w) - 1)


def mkop(name, w, *args):
    """non linear integer operation with constant folding and a few exact simplifications"""
    if all(isinstance(a, Lin) and a.const for a in args):
        v = [a.c for a in args]
        try:
            if name == "mul":
                return C(_signed(v[0] * v[1], w))
            if name == "and":
                return C(_signed(v[0] & v[1], w))
            if name == "or":
                return C(_signed(v[0] | v[1], w))
            if name == "xor":
                return C(_signed(v[0] ^ v[1], w))
            if name == "shl":
                return C(_signed(v[0] << v[1], w))
            if name == "lshr":
                return C(_signed(_uns(v[0], w) >> v[1], w))
            if name == "ashr":
                return C(_signed(v[0] >> v[1], w))
            if name == "udiv":
                return C(_signed(_uns(v[0], w) // _uns(v[1], w), w))
            if name == "urem":
                return C(_signed(_uns(v[0], w) % _uns(v[1], w), w))
            if name == "sdiv":
                q = abs(v[0]) // abs(v[1])
                return C(q if (v[0] < 0) == (v[1] < 0) else -q)
            if name == "srem":
                q = abs(v[0]) % abs(v[1])
                return C(-q if v[0] < 0 else q)
            if name == "umax":
                return C(_signed(max(_uns(v[0], w), _uns(v[1], w)), w))
            if name == "umin":
                return C(_signed(min(_uns(v[0], w), _uns(v[1], w)), w))
            if name == "smax":
                return C(max(v))
            if name == "smin":
                return C(min(v))
            if name == "abs":
                return C(abs(v[0]))
            if name == "ctlz":
                n = _uns(v[0], w)
                return C(w - n.bit_length())
            if name == "cttz":
                n = _uns(v[0], w)
                return C(w if n == 0 else (n & -n).bit_length() - 1)
            if name == "ctpop":
                return C(bin(_uns(v[0], w)).count("1"))
        except (ZeroDivisionError, ValueError):
            pass
    if name == "mul":
        a, b = args
        if a.const:
            return scale(b, a.c)
        if b.const:
            return scale(a, b.c)
        # distribute into monomials so that x*(y+1) and x*y + x agree
        out = ZERO
        out = add(out, scale(b, a.c))
        out = add(out, scale(a, b.c))
        out = add(out, C(-a.c * b.c))
        for i, k in a.t:
            for j, l in b.t:
                x, y = atom(i), atom(j)
                fx = x[1:] if x[0] == "mono" else (i,)
                fy = y[1:] if y[0] == "mono" else (j,)
                out = add(out, A(("mono",) + tuple(sorted(fx + fy)), k * l))
        return out
    if name in ("and", "or", "xor"):
        a, b = args
        if a == b:
            return ZERO if name == "xor" else a
        for x, y in ((a, b), (b, a)):
            if x.const:
                if name == "and" and x.c == 0:
                    return ZERO
                if name == "and" and x.c == -1:
                    return y
                if name in ("or", "xor") and x.c == 0:
                    return y
                if name == "or" and x.c == -1:
                    return C(-1)
                if name == "xor" and w == 1:
                    return sub(ONE, y) if x.c & 1 else y
                if name == "xor" and x.c == -1:
                    return sub(C(-1), y)      # ~y == -1 - y
        if a.t and b.t and aidkey(a) > aidkey(b):
            args = (b, a)
        elif a.const:
            args = (b, a)
    if name == "shl" and args[1].const and 0 <= args[1].c < w:
        return scale(args[0], 1 << args[1].c)
    if name in ("lshr", "ashr") and args[1].const:
        if args[1].c == 0:
            return args[0]
        if name == "lshr":
            return mkop("udiv", w, args[0], C(1 << args[1].c))
        k = 1 << args[1].c
        if args[0].c % k == 0 and all(c % k == 0 for _, c in args[0].t):
            return Lin(args[0].c // k, tuple((i, c // k) for i, c in args[0].t))
    if name in ("udiv", "sdiv") and args[1].const and args[1].c > 0:
        k = args[1].c
        if k == 1:
            return args[0]
        if args[0].c % k == 0 and all(c % k == 0 for _, c in args[0].t):
            return Lin(args[0].c // k, tuple((i, c // k) for i, c in args[0].t))
    if name == "abs" and args[0].const:
        return C(abs(args[0].c))
    if name in ("umax", "umin", "smax", "smin"):
        if args[0] == args[1]:
            return args[0]
        if aidkey(args[0]) > aidkey(args[1]):
            args = (args[1], args[0])
    return A(("op", name, w) + tuple(args))


def aidkey(l):
    return (l.t, l.c)
