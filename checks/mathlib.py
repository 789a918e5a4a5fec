"""math/*.h and PlatformMath: vectors, quaternions, matrices and scalar helpers over real polynomials and bit polynomials."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from ka.scn import *
from ka.terms import fadd, fmul, fconst, fatom, fcall, Flt
from ka import anf

KNOWN = {"inv", "sqrt", "sin", "cos", "acos", "asin", "tan", "atan", "pow", "int", "abs"}
NEG = fconst(-1)


def fatoms(v):
    return {i for m, _ in v.p for i in m}


class MathSpec(ScnSpec):
    unroll = 400
    unroll_width = 600
    max_recursion = 12
    max_states = 20000
    max_steps = 2000000

    def global_init(self, name):
        return True

    def handler(self, eng, name, dem):
        base = name.split(".")[1] if name.startswith("llvm.") else name
        h = {"k_f": self.num("f"), "k_d": self.num("f"), "k_i": self.num("i"), "k_l": self.num("i"), "k_u": self.num("u"), "k_n": self.num("u"),
             "k_eqf": self.h_eqf, "k_eqd": self.h_eqf, "k_eqi": self.h_eqi, "k_bits": self.h_bits, "k_true": self.h_true, "k_unit": self.h_unit,
             "k_top": self.h_top, "k_top32": self.h_top, "k_top16": self.h_top, "k_top8": self.h_top}.get(name)
        if h:
            return h
        h = {"fabs": self.h_fabs, "fabsf": self.h_fabs, "sqrt": self.h_sqrt, "sqrtf": self.h_sqrt, "sin": self.h_sin, "sinf": self.h_sin,
             "cos": self.h_cos, "cosf": self.h_cos, "acos": self.h_acos, "acosf": self.h_acos, "ctlz": self.h_ctlz, "powi": self.h_powi}.get(base)
        if h:
            return h
        if name.startswith("llvm.x86.avx.maskstore.ps"):
            return self.h_maskstore
        return super().handler(eng, name, dem)

    def num(self, kind):
        def h(eng, st, ins, args, dem):
            a = ("s", "%s%d" % ({"f": "x", "i": "i", "u": "u"}[kind], args[0].c), kind)
            return [(st, fatom(a) if kind == "f" else A(a))]
        return h

    # ---- real arithmetic
    def rules(self, st):
        return st.x.get("unit", {})

    def reduce(self, st, d):
        """normal form modulo: declared unit vectors, sqrt(p)^2 = p, sin^2 + cos^2 = 1"""
        unit = self.rules(st)
        for _ in range(200):
            for m, c in d.p:
                hit = None
                for j, i in enumerate(m):
                    if j + 1 < len(m) and m[j + 1] == i:
                        a = atom(i)
                        sq = unit.get(i)
                        if sq is None and a[0] == "fop" and a[1] == "sqrt":
                            sq = a[2]
                        elif sq is None and a[0] == "fop" and a[1] == "cos":
                            s = fcall("sin", a[2])
                            sq = fadd(fconst(1), fmul(s, s), -1)
                        if sq is not None:
                            hit = (j, sq)
                            break
                if hit:
                    j, sq = hit
                    rest = Flt({m[:j] + m[j + 2:]: c})
                    d = fadd(fadd(d, Flt({m: c}), -1), fmul(rest, sq))
                    break
            else:
                return d
            if len(d.p) > 4000:
                break
        raise Incomplete("polynomial too large")

    def iszero(self, st, d):
        d = self.reduce(st, d)
        for _ in range(40):
            inv = sorted((i for i in fatoms(d) if atom(i)[0] == "fop" and atom(i)[1] == "inv"), reverse=True)
            if not inv:
                return not d.p, d
            v = inv[0]
            q = atom(v)[2]
            parts = {}
            for m, c in d.p:
                k = m.count(v)
                parts.setdefault(k, {})[tuple(x for x in m if x != v)] = c
            top = max(parts)
            out = Flt({})
            for k, p in parts.items():
                t = Flt(p)
                for _ in range(top - k):
                    t = fmul(t, q)
                out = fadd(out, t)
            d = self.reduce(st, out)
        raise Incomplete("quotients nested too deeply")

    def h_eqf(self, eng, st, ins, args, dem):
        tag, got, want = args
        if isinstance(got, Undef) or isinstance(got, Flt) and any(atom(i)[0] == "undef" for i in T.value_atoms(got)):
            eng.finding(st, "result", ins, "value %s is not defined" % self.tagname(tag))
            return [(st, None)]
        if not isinstance(got, Flt) or not isinstance(want, Flt):
            raise Incomplete("not a real number")
        ok, d = self.iszero(st, fadd(got, want, -1))
        if not ok:
            for i in T.value_atoms(d):
                a = atom(i)
                if a[0] == "s" and not a[1][1:].isdigit() or a[0] not in ("s", "fop", "op") or a[0] == "fop" and a[1] not in KNOWN:
                    raise Incomplete("value %s depends on %s" % (self.tagname(tag), T.show_atom(a)))
            eng.finding(st, "result", ins, "value %s is %s, expected %s" % (self.tagname(tag), T.show(got)[:200], T.show(want)[:200]))
        st.x["n"] = st.x.get("n", 0) + 1
        return [(st, None)]

    def tagname(self, tag):
        return str(tag.c) if tag.const else T.show(tag)

    def h_eqi(self, eng, st, ins, args, dem):
        tag, got, want = args
        if isinstance(got, Undef) or eng.is_undef(got):
            eng.finding(st, "result", ins, "value %s is not defined" % self.tagname(tag))
            return [(st, None)]
        d = sub(got, want)
        if not st.facts.zero(d):
            for i in T.value_atoms(d):
                a = atom(i)
                if a[0] not in ("s", "mono") and not (a[0] == "op" and a[1] in ("sdiv", "udiv", "mul", "toint")) or a[0] == "s" and not a[1][1:].isdigit():
                    raise Incomplete("value %s depends on %s" % (self.tagname(tag), T.show_atom(a)))
            eng.finding(st, "result", ins, "value %s is %s, expected %s" % (self.tagname(tag), T.show(got)[:200], T.show(want)[:200]))
        return [(st, None)]

    def h_true(self, eng, st, ins, args, dem):
        tag, b = args
        if isinstance(b, Undef) or eng.is_undef(b):
            eng.finding(st, "result", ins, "condition %s is not defined" % self.tagname(tag))
            return [(st, None)]
        if not b.const:
            raise Incomplete("condition %s is %s" % (self.tagname(tag), T.show(b)))
        if not b.c & 1:
            eng.finding(st, "result", ins, "condition %s does not hold" % self.tagname(tag))
        return [(st, None)]

    def h_unit(self, eng, st, ins, args, dem):
        at = [a.p[0][0][0] for a in args if a.p]
        last = at[-1]
        sq = fconst(1)
        for i in at[:-1]:
            x = Flt({(i,): Fraction(1)})
            sq = fadd(sq, fmul(x, x), -1)
        st.x["unit"] = {**st.x.get("unit", {}), last: sq}
        return [(st, None)]

    def h_fabs(self, eng, st, ins, args, dem):
        a = args[0]
        if a.const:
            return [(st, fconst(abs(a.value())))]
        r = [(s, fmul(a, NEG) if neg else a) for s, neg in eng.cmp_float(st.copy(), "olt", a, fconst(0))]
        if len(r) == 1:
            return r
        n = fmul(a, NEG)
        return [(st, fcall("abs", min(a, n, key=lambda v: v.p)))]

    def h_sqrt(self, eng, st, ins, args, dem):
        a = self.reduce(st, args[0])
        if a.const:
            v = a.value()
            import math
            n, d = math.isqrt(abs(v.numerator)), math.isqrt(v.denominator)
            if v >= 0 and n * n == v.numerator and d * d == v.denominator:
                return [(st, fconst(Fraction(n, d)))]
        if len(a.p) == 1 and a.p[0][1] == 1 and len(a.p[0][0]) == 2 and len(set(a.p[0][0])) == 1 and atom(a.p[0][0][0])[:2] == ("fop", "sin"):
            return [(st, Flt({(a.p[0][0][0],): Fraction(1)}))]
        return [(st, fcall("sqrt", a))]

    def h_sin(self, eng, st, ins, args, dem):
        a = args[0]
        i = self.one(a)
        if i and i[:2] == ("fop", "acos"):
            x = i[2]
            return self.h_sqrt(eng, st, ins, [fadd(fconst(1), fmul(x, x), -1)], dem)
        return [(st, fcall("sin", a))] if a.p else [(st, fconst(0))]

    def h_cos(self, eng, st, ins, args, dem):
        a = args[0]
        i = self.one(a)
        if i and i[:2] == ("fop", "acos"):
            return [(st, i[2])]
        return [(st, fcall("cos", a))] if a.p else [(st, fconst(1))]

    def h_acos(self, eng, st, ins, args, dem):
        i = self.one(args[0])
        if i and i[:2] == ("fop", "cos"):
            return [(st, i[2])]
        return [(st, fcall("acos", args[0]))]

    def one(self, a):
        if len(a.p) == 1 and a.p[0][1] == 1 and len(a.p[0][0]) == 1:
            return atom(a.p[0][0][0])
        return None

    def h_powi(self, eng, st, ins, args, dem):
        if not args[1].const:
            raise Incomplete("powi")
        r = fconst(1)
        for _ in range(abs(args[1].c)):
            r = fmul(r, args[0])
        return [(st, r if args[1].c >= 0 else T.fdiv(fconst(1), r))]

    # ---- bits
    def h_top(self, eng, st, ins, args, dem):
        k = args[0].c
        n = A(("s", "n%d" % k, "u"))
        st.facts = st.facts.with_ge(sub(n, C(1 << k))).with_ge(sub(C((2 << k) - 1), n))
        return [(st, n)]

    def h_ctlz(self, eng, st, ins, args, dem):
        w = eng.ty(ins["t"])["w"]
        n = args[0]
        if n.const:
            return [(st, C(w - (n.c & (1 << w) - 1).bit_length()))]
        for k in range(w):
            if st.facts.entails(sub(n, C(1 << k))) and st.facts.entails(sub(C((2 << k) - 1), n)):
                return [(st, C(w - 1 - k))]
        return [(st, T.mkop("ctlz", w, n))]

    def h_bits(self, eng, st, ins, args, dem):
        tag, w, got, want = args
        try:
            a, b = anf.bits(got, w.c), anf.bits(want, w.c)
        except anf.TooBig as e:
            raise Incomplete("value %s: %s" % (self.tagname(tag), e))
        bad = [i for i in range(w.c) if a[i] != b[i]]
        if bad:
            eng.finding(st, "result", ins, "bit %d of value %s is %s, expected %s" % (bad[0], self.tagname(tag), anf.show(a[bad[0]]), anf.show(b[bad[0]])))
        return [(st, None)]

    def h_maskstore(self, eng, st, ins, args, dem):
        p, mask, v = args
        for i, (m, x) in enumerate(zip(mask.e, v.e)):
            if not isinstance(m, Lin) or not m.const:
                raise Incomplete("unknown mask")
            if m.c < 0 or m.c >> 31 & 1:
                r = eng.store(st, add(p, C(4 * i)), x, {"k": "fp", "sz": 4}, ins)
                if len(r) != 1:
                    raise Incomplete("masked store")
                st = r[0]
        return [(st, None)]


def run(ck, sp, names):
    for n in names:
        def pre(eng):
            yield "", State(), []
        ck.obligation(n, sp, "s_" + n, pre, lambda *a: [])


CMPS = ["cmpeq", "cmpne", "cmplt", "cmpgt", "cmple", "cmpge"]


def N01(ck, sp):
    for t in ("2f", "3f", "4f", "2i", "3i", "4i", "3d"):
        run(ck, sp, ["%s_%s" % (k, t) for k in ["make", "vv", "vs", "sv", "dot"] + CMPS + ["all_" + c for c in CMPS]])
    run(ck, sp, ["norm_2f", "norm_3f", "norm_4f", "cross_2f", "cross_2i", "cross_3f", "cross_3i", "widen_f", "widen_i", "dirs_3f", "dirs_3i",
                 "conv_2fi", "conv_3fi", "conv_4fi", "conv_3if", "conv_2if", "conv_4if", "near"])
    ck.rep.rule("Every vector operation is interpreted on unknown components; results are real polynomials (with quotients, square roots) or integer terms over the components and must be the ones of the defining formula, component by component; "
                "comparison masks are decided for every outcome of the component comparisons, unordered ones included.")
    ck.rep.assumptions += ["floating-point operations are read as real arithmetic (no statement about rounding or overflow)", "integer operations do not overflow"]


def N02(ck, sp):
    run(ck, sp, ["q_default", "q_axis", "q_vector", "q_vector0", "q_extract", "q_rotate", "q_length", "q_cross", "q_product", "q_compose", "q_assoc",
                 "q_identity", "q_norm", "q_inverse", "q_axes"])
    ck.rep.rule("Quaternion operations are interpreted on unknown components; results are polynomials over them, compared modulo the unit length of quaternions and axes and sin^2 + cos^2 = 1: rotation formula, composition, inverse, "
                "preservation of lengths, angles and orientation, construction from and extraction of angle and axis.")
    ck.rep.assumptions += ["floating-point operations are read as real arithmetic", "rotation quaternions and axes have unit length, angles lie in [0, 2 pi)"]


def N03(ck, sp):
    run(ck, sp, ["m_make_f", "m_make_i", "m_transpose", "m_cmp", "p_load", "p_arith", "p_masked"])
    ck.rep.rule("Matrix and packed vector operations are interpreted on unknown elements; each element must end where the defining formula puts it.")


def N04(ck, sp):
    run(ck, sp, ["log2_u32", "log2_u64", "log2_i32", "log2_i64", "log2_u16", "log2_u8", "log2e_u32", "log2e_u64", "log2e_i32", "log2e_i64", "log2e_u16", "log2e_u8",
             "align_u32", "align_u64", "aligne_u32", "aligne_u64", "aligne_i32", "aligne_i64", "pow_f", "pow_d", "pow_i", "pow_u8", "pow_neg", "pow_one",
                 "abs_f", "abs_d", "abs_i", "abs_l", "minmax2_i", "minmax2_u", "minmax3_i", "minmax4_i", "minmax_f", "funs"])
    ck.rep.rule("Scalar helpers are interpreted on unknown numbers: logarithms for every position of the highest bit, alignment for every power of two up to 4096 with the number's bits unknown (results compared as bit polynomials), both also folded at the ends of each range, "
                "powers as polynomials for each exponent up to 20, minimum and maximum for every order of their arguments.")


def main():
    pid = sys.argv[1]
    ck = Checker(pid, "mathlib.cpp", link=("math",))
    sp = MathSpec(ck.m)
    {"N01": N01, "N02": N02, "N03": N03, "N04": N04}[pid](ck, sp)
    finish(ck.rep, {"N01": 70, "N02": 8, "N03": 4, "N04": 12}[pid])


if __name__ == "__main__":
    main()
