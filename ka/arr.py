"""Arrays as abstract objects: pre-states, well-formedness and content of the final state."""
from .seq import *


class ArrSpec(SeqSpec):
    unroll = 8

    def __init__(self, mod, triv):
        super().__init__(mod)
        self.esz = mod.K["esz"]
        self.triv = triv
        self.K = mod.K

    def handler(self, eng, name, dem):
        if dem.startswith("OwnMalloc::"):
            return self.h_own
        return super().handler(eng, name, dem)

    def h_own(self, eng, st, ins, args, dem):
        if "~" in dem:
            st.x["misc"] = ("allocator-dead",) + tuple(args[:1])
        else:
            st.x["misc"] = ("allocator-alive",) + tuple(args[:1])
            for s in eng.store(st, args[0], self.vtable("OpqMalloc"), {"k": "ptr", "sz": 8}, ins):
                st = s
        return [(st, args[0] if "id" in ins else None)]

    def h_alloc(self, eng, st, ins, args, dem):
        if st.x.get("misc", ("",))[0] == "allocator-dead" and st.x["misc"][1] == args[0]:
            eng.finding(st, "dead-allocator", ins, "allocation from an allocator that was destroyed")
        return super().h_alloc(eng, st, ins, args, dem)

    def h_free(self, eng, st, ins, args, dem):
        if st.x.get("misc", ("",))[0] == "allocator-dead" and st.x["misc"][1] == args[0]:
            eng.finding(st, "dead-allocator", ins, "release to an allocator that was destroyed")
        return super().h_free(eng, st, ins, args, dem)

    # ------------------------------------------------------------ states
    def gmalloc(self, eng, st):
        m = self.mallocobj(eng, st, "gm")
        g = ("G", "gMalloc")
        st.mem[g] = Region("global", C(8), {"name": "gMalloc"})
        st.own.add(g)
        st.mem[g].cells[0] = (8, A(m))
        return m

    def new_array(self, eng, st, name, kind, M):
        K = self.K
        a = eng.new_region(st, "input", C(K["arrsz"]), {"name": name})
        r = st.mem[a]
        r.cells[K["malloc"]] = (8, A(M))
        if kind == "null":
            r.cells[K["buffer"]], r.cells[K["capacity"]], r.cells[K["count"]] = (8, ZERO), (8, ZERO), (8, ZERO)
            st.x["arr" + name] = {"a": a, "buf": None, "n": ZERO, "cap": ZERO, "m": A(M)}
            return a
        n, cap = A(("s", "n" + name, "u")), A(("s", "cap" + name, "u"))
        b = eng.new_region(st, "input", scale(cap, self.esz), {"name": "buf" + name, "seq": self.esz, "triv": self.triv, "live": n, "owner": A(M)})
        r.cells[K["buffer"]], r.cells[K["capacity"]], r.cells[K["count"]] = (8, A(b)), (8, cap), (8, n)
        st.facts = st.facts.with_ge(sub(cap, n), add(cap, C(-1)))
        st.x["arr" + name] = {"a": a, "buf": b, "n": n, "cap": cap, "m": A(M)}
        return a

    def elem(self, st, name):
        a = ("R", -{"e": 1, "f": 2, "g": 3, "o": 4}[name], name)
        st.mem[a] = Region("input", C(self.esz), {"name": name, "seq": self.esz, "triv": self.triv, "live": ONE, "size": ONE})
        st.own.add(a)
        return a

    def rawobj(self, eng, st, name, size):
        return eng.new_region(st, "alloca", C(size), {"name": name})


E_, F_, G_, O_ = (("R", -1, "e"), ("R", -2, "f"), ("R", -3, "g"), ("R", -4, "o"))


def value(a):
    return ("init", a, ZERO)


class Judge:
    def __init__(self, sp, s):
        self.sp, self.s = sp, s
        self.out = []
        self.q = Query(sp, s)
        self.out += self.q.check_ops(s.facts)

    def bad(self, rule, text):
        self.out.append((rule, text))

    def field(self, a, name):
        c = self.s.mem[a].cells.get(self.sp.K[name])
        return c[1] if c else UNDEF

    def same(self, f, l, want):
        if want == ("any",):
            return True
        if want == ("raw",):
            return l[0] in ("dead", "undef", "any")
        if l[0] == "val" and want[0] == "val":
            return l[1] == want[1] or (isinstance(l[1], Lin) and isinstance(want[1], Lin) and f.zero(sub(l[1], want[1])))
        if l[0] == "init" and want[0] == "init":
            return l[1] == want[1] and f.zero(sub(l[2], want[2]))
        if want == ("def",) and self.sp.triv:
            return l[0] in ("undef", "def") or l == ("val", ZERO)
        return l[0] == want[0] and len(want) == 1

    def slots(self, b, lo, hi, want, what):
        """every j in [lo, hi) holds want(j)"""
        j = A(("s", "j", "u"))
        f = self.s.facts.with_ge(sub(j, lo), add(sub(hi, j), C(-1)))
        if f is None:
            return
        unk = False
        for f1, l in self.q.at_end(f, b, j):
            if l[0] == "unknown":
                unk = True
                continue
            if not self.same(f1, l, want(j)):
                self.bad("content", "%s: position j in [%s, %s) holds %s, expected %s" % (what, T.show(lo), T.show(hi), leaf(l), leaf(want(j))))
        self.q.unknown |= unk

    def single(self, b, want, what):
        for f1, l in self.q.at_end(self.s.facts, b, ZERO):
            if l[0] == "unknown":
                self.q.unknown = True
                continue
            if not self.same(f1, l, want):
                self.bad("content", "%s holds %s, expected %s" % (what, leaf(l), leaf(want)))

    def array(self, a, n, pieces, M, exact_cap=None):
        """object at a is a well-formed array with n elements described by pieces"""
        s, sp = self.s, self.sp
        f = s.facts
        buf, cap, cnt = self.field(a, "buffer"), self.field(a, "capacity"), self.field(a, "count")
        for x, w in ((buf, "buffer"), (cap, "capacity"), (cnt, "count")):
            if not isinstance(x, Lin):
                self.bad("field", "%s is not set" % w)
                return None
        if not f.zero(sub(cnt, n)):
            self.bad("count", "count is %s, expected %s" % (T.show(cnt), T.show(n)))
            return None
        m = self.field(a, "malloc")
        if M is not None and m != M:
            self.bad("allocator", "the array keeps allocator %s, expected %s" % (m if not isinstance(m, Lin) else T.show(m), T.show(M)))
        if buf == ZERO or f.zero(buf):
            if not f.zero(cap):
                self.bad("capacity", "capacity is %s without a buffer" % T.show(cap))
            if not f.zero(n):
                self.bad("count", "no buffer, but %s elements" % T.show(n))
            return None
        b = sp.base(s, buf)
        if b is None or buf != A(b):
            self.bad("buffer", "buffer is %s" % T.show(buf))
            return None
        r = s.mem[b]
        if r.live is not True:
            self.bad("dangling", "the array keeps a released buffer")
            return b
        if (r.info or {}).get("owner") is not None and isinstance(m, Lin) and r.info["owner"] != m:
            self.bad("allocator", "buffer of %s in an array that would return it to %s" % (T.show(r.info["owner"]), T.show(m)))
        if isinstance(r.size, Lin) and not f.entails(sub(r.size, scale(cap, sp.esz))):
            self.bad("capacity", "capacity %s does not fit a buffer of %s bytes" % (T.show(cap), T.show(r.size)))
        if not f.entails(sub(cap, n)):
            self.bad("capacity", "count %s exceeds capacity %s" % (T.show(n), T.show(cap)))
        pos = ZERO
        for hi, want in pieces:
            self.slots(b, pos, hi, want, "content")
            pos = hi
        if not sp.triv:
            self.slots(b, n, cap, lambda j: ("raw",), "beyond the end")
        return b

    def leaks(self, bufs):
        for a, r in self.s.mem.items():
            if r.info and r.info.get("owner") is not None and r.live is True and a not in bufs:
                self.bad("leak", "storage %s is lost" % T.show_atom(a))
        return self.out


def judge(sp, s, post):
    try:
        j = Judge(sp, s)
        post(j)
    except Alarm as e:
        return [("partial-element", str(e))]
    if j.q.unknown and not j.out:
        raise Incomplete("content not determined")
    return j.out
