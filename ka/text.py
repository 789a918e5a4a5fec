"""Character buffers on top of the sequence domain: C strings, formatted output, memory comparison."""
from .seq import *

# the longest text each conversion can print (it always prints something and cannot fail)
WIDEST = {"%d": 11, "%i": 11, "%u": 10, "%lld": 20, "%ld": 20, "%llu": 20, "%lu": 20, "%f": 317, "%lf": 317}


class TextSpec(SeqSpec):
    """loads are numbered per location; a read-only C string of length n is non-zero before its terminator at n"""

    def literal(self, b):
        if b[0] != "G":
            return None
        g = self.m.globals.get(b[1])
        if not g or not g.get("const") or "init" not in g:
            return None
        t = self.m.types[g["init"][1]]
        return lit_bytes(g["init"], t)

    def handler(self, eng, name, dem):
        if name in ("snprintf",):
            return self.h_snprintf
        if name == "strlen":
            return self.h_strlen
        if name in ("memcmp", "bcmp"):
            return self.h_memcmp
        return super().handler(eng, name, dem)

    # ------------------------------------------------------------ loads
    def touched(self, e, a):
        k = e[0]
        if k in ("mark", "loop", "havoc"):
            return True
        if k == "st":
            return e[1] == a
        if k in ("copyrange", "fill"):
            return isinstance(e[1], Lin) and any(atom(i) == a for i, _ in e[1].t)
        return k in ("ctor", "dtor", "cctor", "mctor", "cassign", "massign")

    def seq_load(self, eng, st, a, off, sz, ty):
        info = st.mem[a].info
        loc = eng.m.loc(eng.cur.get("l"))
        for e in reversed(st.events):
            if e[0] in ("ldv", "ldc") and e[2] == a and e[3] == off and e[4] == sz:
                v = e[1] if e[0] == "ldc" else A(e[1])
                return [(st, v)]
            if self.touched(e, a):
                break
        if sz != 1 or "cstr" not in info:
            ld = eng.fresh("ld", "f" if ty["k"] == "fp" else "p" if ty["k"] == "ptr" else "i")
            if sz == 1:
                st.facts = st.facts.with_ge(add(A(ld), C(128)), sub(C(127), A(ld)))
            st.events.append(("ldv", ld, a, off, sz, loc))
            return [(st, fatom(ld) if ty["k"] == "fp" else A(ld))]
        out = []
        for s, end in eng.split_lin_eq(st, sub(off, info["cstr"])):
            if end:
                s.events.append(("ldc", ZERO, a, off, sz, loc))
                out.append((s, ZERO))
            else:
                ld = eng.fresh("ld", "i")
                s.facts = s.facts.with_ge(add(A(ld), C(128)), sub(C(127), A(ld))).with_ne(A(ld))
                s.events.append(("ldc", A(ld), a, off, sz, loc))
                out.append((s, A(ld)))
        return out

    # ------------------------------------------------------------ C library
    def h_strlen(self, eng, st, ins, args, dem):
        p = args[0]
        for i, k in (p.t if isinstance(p, Lin) else ()):
            a = atom(i)
            lit = self.literal(a) if k == 1 else None
            if lit is not None and 0 in lit:
                return [(st, sub(C(lit.index(0)), sub(p, A(a))))]
            r = st.mem.get(a)
            if k == 1 and r is not None and r.info and "cstr" in r.info:
                off = sub(p, A(a))
                st.events.append(("peek", p, add(sub(r.info["cstr"], off), ONE), eng.m.loc(ins.get("l"))))
                return [(st, sub(r.info["cstr"], off))]
        raise Incomplete("length of a string that is not tracked")

    def h_memcmp(self, eng, st, ins, args, dem):
        loc = eng.m.loc(ins.get("l"))
        for p in args[:2]:
            b = self.base(st, p) if isinstance(p, Lin) else None
            if b is not None:
                eng.check_live(st, b, st.mem[b], ins, "read")
            st.events.append(("peek", p, args[2], loc))
        if isinstance(args[2], Lin) and st.facts.zero(args[2]):
            st.events.append(("memcmp", ZERO, args[0], args[1], args[2], loc))
            return [(st, ZERO)]
        x = A(("op", "memcmp", 32) + tuple(args[:3]))
        st.events.append(("memcmp", x, args[0], args[1], args[2], loc))
        return [(st, x)]

    def h_snprintf(self, eng, st, ins, args, dem):
        """prints a text T of length r (the same for the same format and arguments): at most size-1 characters and a terminator"""
        buf, size, fmt = args[:3]
        loc = eng.m.loc(ins.get("l"))
        key = tuple(args[2:])
        texts = st.x.get("texts", ())
        if key in texts:
            k = texts.index(key)
        else:
            k = len(texts)
            st.x["texts"] = texts + (key,)
        r = A(("s", "printed%d" % k, "i"))
        text = ("R", -100 - k, "text%d" % k)
        if text not in st.mem:
            st.mem[text] = Region("input", None, {"name": "text", "seq": 1, "triv": True})
            st.own.add(text)
        st.events.append(("print", k, args, loc))
        lit = None
        for i, c in fmt.t if isinstance(fmt, Lin) else ():
            lit = self.literal(atom(i)) or lit
        most = WIDEST.get("".join(chr(x & 255) for x in lit[:-1])) if lit else None
        if most:
            st.facts = st.facts.with_ge(add(r, C(-1)), sub(C(most), r))
        out = []
        for s, fail in self.split(st, add(scale(r, -1), C(-1))):
            if fail:
                if isinstance(buf, Lin) and not buf.const:
                    self.as_seq(s, buf)
                    s.events.append(("havoc", buf, size, loc))
                out.append((s, r))
                continue
            for s1, some in self.split(s, add(size, C(-1))):
                if not some:
                    out.append((s1, r))
                    continue
                for s2, fits in self.split(s1, add(sub(size, r), C(-1))):
                    n = r if fits else add(size, C(-1))
                    if isinstance(buf, Lin) and not buf.const:
                        b = self.as_seq(s2, buf)
                        eng.check_live(s2, b, s2.mem[b], ins, "write")
                        s2.events.append(("copyrange", buf, A(text), n, loc, "print"))
                        s2.events.append(("st", b, sub(add(buf, n), A(b)), 1, ZERO, loc))
                    else:
                        eng.finding(s2, "null-deref", ins, "formatted output to a null buffer")
                    out.append((s2, r))
        return out

    def split(self, st, g):
        """g >= 0 ?"""
        ng = add(scale(g, -1), C(-1))
        if not g.t:
            return [(st, g.c >= 0)]
        if st.facts.entails(g):
            return [(st, True)]
        if st.facts.entails(ng):
            return [(st, False)]
        out = []
        s2 = st.copy()
        f = s2.facts.with_ge(g)
        if f is not None:
            s2.facts = f
            out.append((s2, True))
        f = st.facts.with_ge(ng)
        if f is not None:
            st.facts = f
            out.append((st, False))
        return out

    def as_seq(self, st, p):
        b = self.base(st, p)
        if b is None:
            raise Incomplete("formatted output to an untracked buffer")
        r = st.mem[b]
        if not (r.info and "seq" in r.info):
            r = st.region(b, True)
            r.info = dict(r.info or {}, seq=1, triv=True)
            r.cells, r.symw = {}, []
        return b


def lit_bytes(init, ty=None):
    """bytes of a constant char array initialiser, or None"""
    if init[0] == "a" and all(x[0] == "i" for x in init[2]):
        return [x[2] for x in init[2]]
    if init[0] == "z" and ty is not None and ty.get("k") == "array" and ty["n"] <= 64:
        return [0] * ty["n"]
    return None
