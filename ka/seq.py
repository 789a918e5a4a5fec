"""Contiguous sequences of elements, of any length.

The effects of an operation (constructions, assignments, destructions, stores, block copies; loops as one
summarised iteration with its index) are kept in order.  What slot x of a buffer holds at a point of that order
is decided by walking the effects backwards for one arbitrary, symbolic x: the last effect that touches the slot
is found by comparing positions under the path's linear facts (splitting where both outcomes are possible), and a
copy is followed to its source at that moment.  So one query covers every index and every length."""
from .common import *
from .facts import infeasible


class Alarm(Exception):
    """a definite violation met while reading the effects"""


class Op:
    __slots__ = ("kind", "d", "s", "n", "v", "loc", "body", "info", "alts")

    def __init__(self, kind, d=None, s=None, n=None, v=None, loc="?", body=None, info=None):
        self.kind, self.d, self.s, self.n, self.v, self.loc, self.body, self.info = kind, d, s, n, v, loc, body, info

    def __repr__(self):
        p = lambda a: None if a is None else "%s[%s]" % (T.show_atom(a[0]), T.show(a[1]))
        if self.kind == "loop":
            return "loop x %s {%s}" % (T.show(self.info["count"]), "; ".join(map(repr, self.body)))
        return "%s d=%s s=%s n=%s v=%s" % (self.kind, p(self.d), p(self.s), self.n and T.show(self.n), self.v)


RD = ("cctor", "mctor", "cassign", "massign")


class SeqSpec(KSpec):
    """element operations become ordered effects; no value is tracked while interpreting"""
    esz = 8
    triv = False

    def h_alloc(self, eng, st, ins, args, dem):
        r = super().h_alloc(eng, st, ins, args, dem)
        for s, p in r:
            a = p.single()
            s.region(a, True).info = dict(s.mem[a].info, seq=self.esz, triv=self.triv)
        return r

    def live_objects(self, st, b):
        return []

    def h_opq(self, eng, st, ins, args, dem):
        this = args[0]
        loc = eng.m.loc(ins.get("l"))
        if isinstance(this, Undef) or not isinstance(this, Lin):
            raise Incomplete("undefined element address")
        name = dem[len("Opq::"):]
        src = args[1] if len(args) > 1 else None
        if name.startswith("~"):
            kind = "dtor"
        elif name.startswith("operator="):
            kind = "massign" if "&&" in dem else "cassign"
        elif src is None:
            kind = "ctor"
        else:
            kind = "mctor" if "&&" in dem else "cctor"
        for a_ in (this, src):
            if a_ is None:
                continue
            if not isinstance(a_, Lin) or a_.const:
                eng.finding(st, "null-deref", ins, "%s on a null address" % kind)
                eng.drop(st)
                return []
            b = self.base(st, a_)
            if b is not None:
                eng.check_live(st, b, st.mem[b], ins, "use")
        st.events.append((kind, this, src, loc))
        return [(st, this if "id" in ins else None)]

    def h_opcmp(self, eng, st, ins, args, dem):
        raise Incomplete("element comparison")

    def literal(self, b):
        return None

    def loop_head(self, eng, H, st, header):
        H.events.append(("mark",))
        return H

    def is_seq(self, st, p):
        if not isinstance(p, Lin):
            return False
        b = self.base(st, p)
        return b is not None and bool(st.mem[b].info) and "seq" in st.mem[b].info

    def seq_load(self, eng, st, a, off, sz, ty):
        ld = eng.fresh("ld", "f" if ty["k"] == "fp" else "p" if ty["k"] == "ptr" else "i")
        st.events.append(("ldv", ld, a, off, sz, eng.m.loc(eng.cur.get("l"))))
        return [(st, fatom(ld) if ty["k"] == "fp" else A(ld))]

    def seq_copy(self, eng, st, ins, d, s, n, what):
        if not (self.is_seq(st, d) or self.is_seq(st, s)):
            if isinstance(n, Lin) and n.const:
                return False
            for p in (d, s):
                if isinstance(p, Lin) and not p.const and self.base(st, p) is None:
                    return False
        for p, w in ((d, "write"), (s, "read")):
            if not isinstance(p, Lin):
                raise Incomplete("copy through an undefined pointer")
            b = self.base(st, p)
            if b is not None:
                eng.check_live(st, b, st.mem[b], ins, w)
        st.events.append(("copyrange", d, s, n, eng.m.loc(ins.get("l")), what))
        return True

    def seq_fill(self, eng, st, ins, d, c, n):
        if not self.is_seq(st, d):
            return False
        b = self.base(st, d)
        eng.check_live(st, b, st.mem[b], ins, "write")
        st.events.append(("fill", d, c, n, eng.m.loc(ins.get("l"))))
        return True


class Query:
    def __init__(self, sp, st, maxdepth=7):
        self.sp, self.st, self.maxdepth = sp, st, maxdepth
        self.count = 0
        self.unknown = False
        self.ops = self.convert(st.events)

    # ---------------------------------------------------------------- effects
    def esz(self, b):
        r = self.st.mem.get(b)
        return (r.info or {}).get("seq", 1) if r is not None else 1

    def div(self, l, k):
        if k == 1:
            return l
        if l.c % k or any(c % k for _, c in l.t):
            if all(atom(i)[0] == "s" and "." not in atom(i)[1] and atom(i)[2] == "u" for i, _ in l.t):
                raise Alarm("%s bytes are not a whole number of elements of %d bytes" % (T.show(l), k))
            raise Incomplete("address %s is not a whole number of elements" % T.show(l))
        return Lin(l.c // k, tuple((i, c // k) for i, c in l.t))

    def slot(self, p):
        if not isinstance(p, Lin):
            raise Incomplete("undefined address")
        b = None
        for i, k in p.t:
            if k == 1 and (atom(i) in self.st.mem or atom(i)[0] in ("R", "G")):
                b = atom(i)
                break
        if b is None:
            if p.const:
                return (("null",), p)
            for i, k in p.t:
                if k == 1 and atom(i)[0] == "s" and atom(i)[2] == "p":
                    b = atom(i)
                    break
        if b is None:
            return (("null",), p)
        return (b, self.div(sub(p, A(b)), self.esz(b)))

    def convert(self, events):
        out, lds = [], {}
        for e in events:
            k = e[0]
            if k in ("ctor", "dtor", "cctor", "mctor", "cassign", "massign"):
                out.append(Op(k, self.slot(e[1]), None if e[2] is None else self.slot(e[2]), loc=e[3]))
            elif k == "peek":
                b = self.slot(e[1])
                out.append(Op("peek", None, b, self.div(e[2], self.esz(b[0])), loc=e[3]))
            elif k == "ldc":
                out.append(Op("load", None, (e[2], e[3]), v=e[1].single() or e[1], loc=e[5]))
            elif k == "ldv":
                a = (e[2], self.div(e[3], self.esz(e[2])))
                if e[4] != self.esz(e[2]):
                    raise Incomplete("partial element access")
                op = Op("load", None, a, v=e[1], loc=e[5])
                lds[e[1]] = len(out)
                out.append(op)
            elif k == "st":
                r = self.st.mem.get(e[1])
                if r is None or not r.info or "seq" not in r.info:
                    continue
                if e[3] != self.esz(e[1]):
                    raise Incomplete("partial element access")
                out.append(Op("set", (e[1], self.div(e[2], self.esz(e[1]))), v=e[4], loc=e[5]))
            elif k == "copyrange":
                d, s = self.slot(e[1]), self.slot(e[2])
                if d[0] == s[0] or True:
                    z = self.esz(d[0]) if d[0] != ("null",) else self.esz(s[0])
                out.append(Op("range", d, s, self.div(e[3], z), e[5], e[4]))
            elif k == "fill":
                d = self.slot(e[1])
                out.append(Op("fill", d, None, self.div(e[3], self.esz(d[0])), e[2], e[4]))
            elif k == "havoc":
                d = self.slot(e[1])
                out.append(Op("havoc", d, None, self.div(e[2], self.esz(d[0])), None, e[3]))
            elif k == "free":
                p = e[2]
                if isinstance(p, Lin) and not p.const:
                    out.append(Op("free", self.slot(p), loc=e[3]))
            elif k == "loop":
                info = e[1]
                bodies = [self.convert(b[0]) for b in info["back"]]
                rel = [[repr_op(o) for o in b if o.kind not in ("load", "peek")] for b in bodies]
                if not any(rel):
                    continue
                op = Op("loop", loc=info["loc"], info=info)
                if all(r == rel[0] for r in rel[1:]):
                    op.alts = [(bodies[0], info["back"][0][1] if len(bodies) == 1 else (), info["back"][0][2] if len(bodies) == 1 else ())]
                else:
                    op.alts = [(bd, bk[1], bk[2]) for bd, bk in zip(bodies, info["back"])]
                op.body = [o for bd, _, _ in op.alts for o in bd]
                op.v = self.exclusive(op)
                out.append(op)
        return out

    def exclusive(self, o):
        """the alternatives of an iteration exclude each other by what the analysis knows about the iteration"""
        if len(o.alts) == 1:
            return True
        if any(self.loopvar(l, o) for _, ge, ne in o.alts for l in list(ge) + list(ne)):
            return False
        base = self.st.facts.with_ge(A(o.info["kappa"]))
        if base is None:
            return True
        for x in range(len(o.alts)):
            for y in range(x):
                f = base.with_ge(*(list(o.alts[x][1]) + list(o.alts[y][1])))
                for l in list(o.alts[x][2]) + list(o.alts[y][2]):
                    f = f and f.with_ne(l)
                if self.ok(f):
                    return False
        return True

    def taking(self, f, o, t, K):
        """facts under which alternative t is the one of iteration K"""
        _, ge, ne = o.alts[t]
        f = f.with_ge(*[self.at(l, o, K) for l in ge])
        for l in ne:
            f = f and f.with_ne(self.at(l, o, K))
        return f if self.ok(f) else None

    # ---------------------------------------------------------------- splitting on linear facts
    def ok(self, f):
        return f is not None and not any(f.zero(n) for n in f.ne)

    def sgn(self, f, l):
        """-> [(facts, sign of l)]"""
        if not l.t:
            return [(f, (l.c > 0) - (l.c < 0))]
        lo, hi = add(l, C(-1)), add(scale(l, -1), C(-1))
        out = []
        f2 = f.with_ge(lo)
        if self.ok(f2):
            out.append((f2, 1))
        f2 = f.with_ge(hi)
        if self.ok(f2):
            out.append((f2, -1))
        f2 = f.with_ge(l, scale(l, -1))
        if self.ok(f2):
            out.append((f2, 0))
        return out

    def nonneg(self, f, l):
        """-> [(facts, l >= 0 ?)]"""
        if not l.t:
            return [(f, l.c >= 0)]
        out = []
        f2 = f.with_ge(l)
        if self.ok(f2):
            out.append((f2, True))
        f2 = f.with_ge(add(scale(l, -1), C(-1)))
        if self.ok(f2):
            out.append((f2, False))
        return out

    def inrange(self, f, lo, x, n):
        """lo <= x < lo + n ?"""
        for f1, a in self.nonneg(f, sub(x, lo)):
            if not a:
                yield f1, False
                continue
            yield from self.nonneg(f1, add(sub(add(lo, n), x), C(-1)))

    # ---------------------------------------------------------------- queries
    def tick(self):
        self.count += 1
        if self.count > 20000:
            raise Incomplete("too many case distinctions")

    def at_end(self, facts, b, x):
        return list(self.look(facts, b, x, self.ops, len(self.ops), 0))

    def initial(self, f, b, x):
        r = self.st.mem.get(b)
        lit = self.sp.literal(b)
        if lit is not None:
            for i, c in enumerate(lit):
                f1 = f.with_ge(sub(x, C(i)), sub(C(i), x))
                if self.ok(f1):
                    yield f1, ("val", C(c))
            return
        if r is not None and r.info and "term" in r.info:
            for f1, s in self.sgn(f, sub(x, r.info["term"])):
                if s == 0:
                    yield f1, ("val", ZERO)
                else:
                    yield from self.initial2(f1, b, x, r)
            return
        yield from self.initial2(f, b, x, r)

    def initial2(self, f, b, x, r):
        if r is None:
            yield f, ("init", b, x)
            return
        info = r.info or {}
        if r.kind in ("heap", "alloca") or info.get("owner") is not None and "live" not in info:
            yield f, ("undef",) if info.get("triv") else ("dead",)
            return
        if "live" in info:
            for f1, y in self.inrange(f, ZERO, x, info["live"]):
                yield f1, ("init", b, x) if y else (("undef",) if info.get("triv") else ("dead",))
            return
        yield f, ("init", b, x)

    def look(self, f, b, x, ops, i, depth):
        self.tick()
        if depth > self.maxdepth:
            yield f, ("unknown",)
            return
        while i > 0:
            o = ops[i - 1]
            if o.kind == "loop":
                if any((p.d and p.d[0] == b) or (p.s and p.s[0] == b and p.kind in ("mctor", "massign")) for p in flat(o.body)):
                    yield from self.look_loop(f, b, x, ops, i - 1, o.info["count"], 0, None, depth)
                    return
            elif o.kind not in ("load", "free", "peek") and ((o.d and o.d[0] == b) or (o.s and o.s[0] == b and o.kind in ("mctor", "massign"))):
                hit = False
                for f1, eff in self.effect(f, b, x, o):
                    hit = True
                    if eff is None:
                        yield from self.look(f1, b, x, ops, i - 1, depth)
                    else:
                        yield from self.resolve(f1, eff, ops, i - 1, depth, None)
                return
            i -= 1
        yield from self.initial(f, b, x)

    def roles(self, o):
        """(role, base, index) of a point effect"""
        if o.kind in ("ctor", "dtor", "cctor", "mctor", "cassign", "massign", "set"):
            yield "d", o.d[0], o.d[1]
        if o.kind in ("mctor", "massign"):
            yield "s", o.s[0], o.s[1]

    def outcome(self, o, role, src):
        if role == "s":
            return ("moved",)
        if o.kind == "ctor":
            return ("def",)
        if o.kind == "dtor":
            return ("dead",)
        if o.kind == "set":
            v = o.v
            a = v.single() if isinstance(v, Lin) else None
            if isinstance(v, Flt) and len(v.p) == 1 and v.p[0][1] == 1 and len(v.p[0][0]) == 1:
                a = atom(v.p[0][0][0])
            if a is not None and a[0] == "s" and a[1].startswith("ld."):
                return ("loaded", a)
            return ("val", v)
        return ("from", src[0], src[1])

    def effect(self, f, b, x, o):
        if o.kind in ("range", "fill", "havoc"):
            for f1, y in self.inrange(f, o.d[1], x, o.n):
                if not y:
                    yield f1, None
                elif o.kind == "range":
                    yield f1, ("from", o.s[0], add(o.s[1], sub(x, o.d[1])))
                elif o.kind == "fill":
                    yield f1, ("val", o.v)
                else:
                    yield f1, ("any",)
            return
        if o.kind == "opaque":
            yield f, ("unknownnow",)
            return
        rs = [(r, i) for r, bb, i in self.roles(o) if bb == b]
        cur = [f]
        for r, i in rs:
            nxt = []
            for f0 in cur:
                for f1, s in self.sgn(f0, sub(x, i)):
                    if s == 0:
                        if r == "d" and o.s is not None and o.s[0] == b and o.kind in RD and f1.zero(sub(o.s[1], x)):
                            yield f1, ("from", o.s[0], o.s[1])
                        else:
                            yield f1, self.outcome(o, r, o.s)
                    else:
                        nxt.append(f1)
            cur = nxt
        for f1 in cur:
            yield f1, None

    def resolve(self, f, eff, ops, i, depth, loop):
        """what an effect stored, given that it happened just before position i"""
        if eff[0] == "from":
            if eff[1] == ("null",):
                yield f, ("garbage",)
                return
            if loop is None:
                g = self.look(f, eff[1], eff[2], ops, i, depth + 1)
            else:
                g = self.look_loop(f, eff[1], eff[2], ops, loop[0], loop[1], loop[2], loop[3], depth + 1)
            for f1, l in g:
                yield f1, ("garbage",) if l[0] == "dead" else l
        elif eff[0] == "loaded":
            seq = ops[:i] if loop is None else ops[loop[0]].alts[loop[3]][0][:loop[2]]
            for p in range(len(seq) - 1, -1, -1):
                if seq[p].kind == "load" and seq[p].v == eff[1]:
                    s = seq[p].s
                    if loop is None:
                        yield from self.look(f, s[0], s[1], ops, p, depth + 1)
                    else:
                        yield from self.look_loop(f, s[0], self.at(s[1], ops[loop[0]], loop[1]), ops, loop[0], loop[1], p, loop[3], depth + 1)
                    return
            yield f, ("val", A(eff[1]))
        elif eff[0] == "unknownnow":
            yield f, ("unknown",)
        else:
            yield f, eff

    def at(self, l, o, K):
        return rewrite(l, {aid(o.info["kappa"]): K})

    def look_loop(self, f, b, x, ops, li, K, P, alt, depth):
        """slot x just before effect P of iteration K (taking alternative alt) of the loop ops[li]"""
        self.tick()
        if depth > self.maxdepth:
            yield f, ("unknown",)
            return
        o = ops[li]
        ka = aid(o.info["kappa"])
        if not o.v:
            yield f, ("unknown",)
            return
        cands = []
        for t, p, e in [(t, p, e) for t, (bd, _, _) in enumerate(o.alts) for p, e in enumerate(bd)]:
            if e.kind in ("loop", "range", "fill", "havoc", "opaque"):
                if e.kind == "range" and e.n == ONE and e.d[0] == b:
                    cands.append((t, p, "d", e.d[1]))
                    continue
                if e.kind == "loop" and not any((q.d and q.d[0] == b) for q in flat(e.body)):
                    continue
                if e.kind == "loop" or e.d[0] == b:
                    raise Incomplete("block operation inside a loop")
                continue
            for r, bb, i in self.roles(e):
                if bb == b:
                    cands.append((t, p, r, i))
        states = [(f, None)]
        for c in cands:
            t, p, r, i = c
            bad = self.loopvar(i, o)
            if bad:
                raise Incomplete("element address that is not linear in the iteration")
            step = dict(i.t).get(ka, 0)
            if any(j != ka and self.mentions(j, ka) for j, _ in i.t):
                raise Incomplete("element address that is not linear in the iteration")
            c0 = Lin(i.c, tuple((j, k) for j, k in i.t if j != ka))
            lim = K if p < P and t == alt else add(K, C(-1))         # last admissible iteration
            nxt = []
            for f0, best in states:
                if step == 0:
                    opts = [(f1, lim) if s == 0 else (f1, None) for f1, s in self.sgn(f0, sub(x, c0))]
                else:
                    df = sub(x, c0)
                    if abs(step) != 1:
                        if df.c % step or any(k % step for _, k in df.t):
                            raise Incomplete("stride %d" % step)
                    kap = Lin(df.c // step, tuple((j, k // step) for j, k in df.t))
                    opts = [(f0, kap)]
                for f1, kap in opts:
                    if kap is None:
                        nxt.append((f1, best))
                        continue
                    for f2, y in self.nonneg(f1, kap):
                        if not y:
                            nxt.append((f2, best))
                            continue
                        for f3, z in self.nonneg(f2, sub(lim, kap)):
                            if not z:
                                nxt.append((f3, best))
                                continue
                            if len(o.alts) > 1:
                                for u in range(len(o.alts)):
                                    g = self.taking(f3, o, u, kap)
                                    if g is not None and u != t:
                                        nxt.append((g, best))
                                f3 = self.taking(f3, o, t, kap)
                                if f3 is None:
                                    continue
                            if best is None:
                                nxt.append((f3, (kap, p, r, t)))
                            else:
                                for f4, s in self.sgn(f3, sub(kap, best[0])):
                                    if s > 0 or (s == 0 and p > best[1]):
                                        nxt.append((f4, (kap, p, r, t)))
                                    elif s == 0 and p == best[1] and r == "d":
                                        nxt.append((f4, (kap, p, r, t)))
                                    else:
                                        nxt.append((f4, best))
            states = nxt
        for f0, best in states:
            if best is None:
                yield from self.look(f0, b, x, ops, li, depth)
                continue
            kap, p, r, t = best
            e = o.alts[t][0][p]
            src = None
            if e.s is not None:
                src = (e.s[0], self.at(e.s[1], o, kap))
                if self.loopvar(src[1], o):
                    raise Incomplete("element address that is not linear in the iteration")
            if e.kind == "range":
                eff = ("from", src[0], src[1])
            else:
                if r == "s" and e.d[0] == b and f0.zero(sub(self.at(e.d[1], o, kap), x)):
                    r = "d"
                eff = self.outcome(e, r, src)
                if eff[0] == "val":
                    eff = ("val", self.at(eff[1], o, kap) if isinstance(eff[1], (Lin, Flt)) else eff[1])
            yield from self.resolve(f0, eff, ops, None, depth, (li, kap, p, t))

    def mentions(self, j, ka):
        return ka in value_atoms(Lin(0, ((j, 1),)))

    def loopvar(self, l, o):
        lid = o.info["id"]
        for i in value_atoms(l):
            a = atom(i)
            if a[0] == "s" and a[1].split(".")[0] in ("v%d" % lid, "m%d" % lid):
                return True
        return False

    # ---------------------------------------------------------------- rules over all effects
    def check_ops(self, f):
        """every effect meets the state it requires; -> [(rule, text)]"""
        out = []

        def need(f, b, x, ops, i, loop, what, want, o):
            if loop is None:
                g = self.look(f, b, x, ops, i, 0)
            else:
                g = self.look_loop(f, b, x, ops, loop[0], loop[1], loop[2], loop[3], 0)
            unknown = False
            for f1, l in g:
                if l[0] == "unknown":
                    unknown = True
                    continue
                live = l[0] not in ("dead",)
                if want == "dead" and live:
                    out.append(("construct-over-live", "%s: %s constructs over a live element (%s)" % (o.loc, o.kind, leaf(l))))
                elif want == "live" and not live:
                    rule = {"dtor": "double-destroy", "cassign": "assign-to-dead", "massign": "assign-to-dead"}.get(what, "read-dead")
                    out.append((rule, "%s: %s needs a live element" % (o.loc, what)))
            return unknown

        unk = False

        def one(o, f, ops, i, loop, sh=lambda l: l):
            nonlocal unk
            if o.kind in ("ctor", "cctor", "mctor"):
                unk |= need(f, o.d[0], sh(o.d[1]), ops, i, loop, o.kind, "dead", o)
            elif o.kind in ("dtor", "cassign", "massign"):
                unk |= need(f, o.d[0], sh(o.d[1]), ops, i, loop, o.kind, "live", o)
            if o.kind in RD:
                unk |= need(f, o.s[0], sh(o.s[1]), ops, i, loop, "reading", "live", o)
            for p, n in ((o.d, o.n), (o.s, o.n)):
                if p is None or o.kind in ("free",):
                    continue
                n = ONE if n is None else n
                self.bounds(f, p, sh(p[1]), n, o, out)
            if o.kind == "range" and o.v == "memcpy" and o.d[0] == o.s[0]:
                for f1, s in self.sgn(f, sub(o.d[1], o.s[1])):
                    if s:
                        dist = scale(sub(o.d[1], o.s[1]), s)
                        f2 = f1.with_ge(add(sub(o.n, dist), C(-1)))
                        if f2 is not None:
                            out.append(("overlap", "%s: memcpy between overlapping parts of one buffer" % o.loc))
            if o.kind == "free":
                b = o.d[0]
                r = self.st.mem.get(b)
                if r is not None and r.info and "seq" in r.info and not r.info.get("triv"):
                    j = A(("s", "slot", "u"))
                    fj = f
                    if isinstance(r.size, Lin):
                        fj = f.with_ge(add(sub(r.size, scale(j, self.esz(b))), C(-self.esz(b))))
                    for f1, l in (self.look(fj, b, j, ops, i, 0) if fj is not None else ()):
                        if l[0] == "unknown":
                            unk = True
                        elif l[0] not in ("dead",):
                            out.append(("leak", "%s: storage released while an element in it is alive (%s)" % (o.loc, leaf(l))))

        for i, o in enumerate(self.ops):
            if o.kind != "loop":
                one(o, f, self.ops, i, None)
                continue
            ka = A(o.info["kappa"])
            fk = f.with_ge(ka, add(sub(o.info["count"], ka), C(-1)))
            if fk is None:
                continue
            for t, (bd, ge, ne) in enumerate(o.alts):
                g = fk.with_ge(*[l for l in ge if not self.loopvar(l, o)])
                for l in ne:
                    g = g and (g if self.loopvar(l, o) else g.with_ne(l))
                if not self.ok(g):
                    continue
                for p, e in enumerate(bd):
                    if e.kind == "loop":
                        raise Incomplete("nested loops over elements")
                    if e.kind == "free":
                        raise Incomplete("release inside a loop")
                    one(e, g, self.ops, i, (i, ka, p, t))
        self.unknown |= unk
        return out

    def bounds(self, f, p, x, n, o, out):
        b = p[0]
        if b == ("null",):
            f2 = f.with_ge(add(n, C(-1)))
            if f2 is not None:
                out.append(("null-deref", "%s: %s through a null pointer" % (o.loc, o.kind)))
            return
        r = self.st.mem.get(b)
        if r is None or not r.info or "seq" not in r.info or not isinstance(r.size, Lin):
            return
        f = f.with_ge(add(n, C(-1)))
        if f is None:
            return
        z = self.esz(b)
        if not f.entails(x):
            out.append(("out-of-bounds", "%s: %s before the start of the buffer" % (o.loc, o.kind)))
        elif not f.entails(sub(r.size, scale(add(x, n), z))):
            g = f.with_ge(add(sub(scale(add(x, n), z), r.size), C(-1)))
            if g is not None:
                out.append(("out-of-bounds", "%s: %s of element %s, the buffer has %s bytes" % (o.loc, o.kind, T.show(x), T.show(r.size))))


def flat(body):
    for o in body:
        if o.kind == "loop":
            yield from flat(o.body)
        else:
            yield o


def repr_op(o):
    return (o.kind, o.d, o.s, o.n, o.v if o.kind not in ("set",) else None)


def leaf(l):
    if not isinstance(l, tuple):
        return "something else"
    if l[0] == "init":
        return "the element that was at %s[%s]" % (T.show_atom(l[1]), T.show(l[2]))
    if l[0] == "val":
        return "value %s" % T.show(l[1])
    return {"def": "a default constructed element", "moved": "a moved-from element", "dead": "no element", "garbage": "a copy of raw storage",
            "undef": "an uninitialised value", "any": "an unspecified value"}.get(l[0], l[0])
