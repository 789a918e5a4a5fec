"""Bit vectors as polynomials over GF(2) (algebraic normal form) in the bits of the unknown inputs: exact and canonical for
and, or, xor, complement, addition, subtraction, and shifts, products and quotients by powers of two."""
from .terms import atom, Lin, C

ZERO = frozenset()
ONE = frozenset([frozenset()])
LIMIT = 3000


class TooBig(Exception):
    pass


def xor(a, b):
    return a ^ b


def and_(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if len(a) * len(b) > LIMIT:
        raise TooBig("bit polynomial too large")
    out = set()
    for x in a:
        for y in b:
            out ^= {x | y}
    return frozenset(out)


def or_(a, b):
    return a ^ b ^ and_(a, b)


def addv(x, y, carry=ZERO):
    out = []
    for a, b in zip(x, y):
        s = a ^ b
        out.append(s ^ carry)
        carry = and_(a, b) ^ and_(s, carry)
    return out


def neg(x):
    return addv([a ^ ONE for a in x], [ZERO] * len(x), ONE)


def const(n):
    return [ONE if n >> i & 1 else ZERO for i in range(64)]


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def bits(v, w):
    """64 bits of a value whose unsigned inputs have w bits"""
    memo = {}

    def val(v):
        if not isinstance(v, Lin):
            raise TooBig("not an integer")
        out = None
        for i, k in v.t:
            b = at(i)
            if abs(k) != 1 or k < 0:
                m = abs(k)
                r = None
                for s in range(64):
                    if m >> s & 1:
                        t = ([ZERO] * s + b)[:64]
                        r = t if r is None else addv(r, t)
                b = r if k > 0 else neg(r)
            out = b if out is None else addv(out, b)
        c = v.c & (1 << 64) - 1
        if out is None:
            return const(c)
        return addv(out, const(c)) if c else out

    def at(i):
        if i in memo:
            return memo[i]
        a = atom(i)
        if a[0] == "s":
            if a[2] != "u":
                raise TooBig("signed input")
            r = [frozenset([frozenset([(i, b)])]) if b < w else ZERO for b in range(64)]
        elif a[0] == "op":
            r = op(a)
        else:
            raise TooBig("depends on " + str(a[0]))
        memo[i] = r
        return r

    def op(a):
        name, args = a[1], a[3:]
        if name in ("and", "or", "xor"):
            x, y = val(args[0]), val(args[1])
            f = {"and": and_, "or": or_, "xor": xor}[name]
            return [f(p, q) for p, q in zip(x, y)]
        if name in ("shl", "lshr", "udiv", "urem", "mul"):
            x, y = args[0], args[1]
            if name == "mul" and isinstance(x, Lin) and x.const:
                x, y = y, x
            if not y.const:
                raise TooBig("unknown operand of " + name)
            k = y.c
            if name in ("udiv", "urem", "mul"):
                if not pow2(k):
                    raise TooBig("operand of %s is no power of two" % name)
                k = k.bit_length() - 1
            x = val(x)
            if name in ("shl", "mul"):
                return ([ZERO] * k + x)[:64]
            if name == "urem":
                return x[:k] + [ZERO] * (64 - k)
            return x[k:] + [ZERO] * k
        if name in ("trunc", "zext"):
            n = a[2] if name == "trunc" else args[1].c
            x = val(args[0])
            return x[:n] + [ZERO] * (64 - n)
        raise TooBig("operation " + str(name))
    return val(v)


def show(p):
    return " ^ ".join(sorted("*".join("%s.%d" % (atom(i)[1], b) for i, b in sorted(m)) or "1" for m in p)[:8]) or "0"
