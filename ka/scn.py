"""Scenario witnesses: short straight uses of a public API, interpreted with unknown values from every abstract state of
the object, independent of how the object is represented.  Observations (k_obs, k_val, k_same, k_call) become events."""
from .common import *


class ScnSpec(KSpec):
    no_summary = True
    bounds = True

    def handler(self, eng, name, dem):
        h = {"k_obs": self.h_obs, "k_val": self.h_val, "k_same": self.h_same, "k_call": self.h_call, "k_plain": self.h_plain,
             "free": self.h_cfree, "posix_memalign": self.h_memalign, "malloc": self.h_cmalloc}.get(name)
        return h or super().handler(eng, name, dem)

    def h_opq(self, eng, st, ins, args, dem):
        for p in args[:2]:
            if isinstance(p, Lin):
                b = self.base(st, p)
                if b is not None:
                    z, off = st.mem[b].size, sub(p, A(b))
                    if isinstance(z, Lin) and z.const and off.const and not 0 <= off.c <= z.c - 8:
                        eng.finding(st, "out-of-bounds", ins, "a value at offset %d of a block of %d bytes" % (off.c, z.c))
        return super().h_opq(eng, st, ins, args, dem)

    def saw(self, st, tag, *what):
        st.x["saw"] = st.x.get("saw", ()) + ((tag.c if tag.const else tag,) + what,)

    def h_obs(self, eng, st, ins, args, dem):
        tag, has, p = args
        v = None
        if isinstance(p, Lin) and not p.const:
            if self.obj(st, p) is False:
                eng.finding(st, "read-dead", ins, "the value that is handed out is not alive")
            v = self.value_of(st, p)
        self.saw(st, tag, has, v)
        return [(st, None)]

    def h_val(self, eng, st, ins, args, dem):
        self.saw(st, args[0], args[1])
        return [(st, None)]

    def h_same(self, eng, st, ins, args, dem):
        self.saw(st, args[0], args[1] == args[2])
        return [(st, None)]

    def h_call(self, eng, st, ins, args, dem):
        if self.obj(st, args[0]) is False:
            eng.finding(st, "call-dead", ins, "a callable that is not alive is called")
        st.x["calls"] = st.x.get("calls", ()) + ((self.value_of(st, args[0]),) + tuple(args[1:]),)
        if "id" in ins:
            return [(st, A(("op", "called", 64, self.value_of(st, args[0])) + tuple(args[1:])))]
        return [(st, None)]

    def h_plain(self, eng, st, ins, args, dem):
        return [(st, A(("op", "plain", 64) + tuple(args)))]

    def h_cfree(self, eng, st, ins, args, dem):
        p = args[0]
        if isinstance(p, Lin):
            b = self.base(st, p)
            if b is not None:
                live = self.live_objects(st, b)
                if live:
                    eng.finding(st, "leak", ins, "storage released while it still holds a live value")
                if sub(p, A(b)) != ZERO:
                    eng.finding(st, "bad-free", ins, "free of an address inside a block")
                if st.mem[b].kind != "heap" or (st.mem[b].info or {}).get("from") != "malloc":
                    eng.finding(st, "bad-free", ins, "free of a block that is not the allocator's")
        return free_region(eng, st, ins, p, "libc")

    def h_memalign(self, eng, st, ins, args, dem):
        out, al, size = args
        a = eng.new_region(st, "heap", size, {"name": "heap", "align": al, "from": "malloc"})
        return [(s, ZERO) for s in eng.store(st, out, A(a), {"k": "ptr", "sz": 8}, ins)]

    def h_cmalloc(self, eng, st, ins, args, dem):
        return [(st, A(eng.new_region(st, "heap", args[0], {"name": "heap", "align": C(16), "from": "malloc"})))]

    def inputs(self, eng, st, fn, names):
        """one unknown argument per letter: e an element or callable, x a number"""
        out = []
        for i, n in enumerate(names):
            if n in "xyz":
                out.append(A(("s", n, "u")))
            else:
                a = ("R", -20 - i, n)
                st.mem[a] = Region("input", None, {"name": n})
                st.x.setdefault("in", {})[n] = a
                out.append(A(a))
        return out

    def leftovers(self, s):
        out = []
        for a, v in s.x.get("obj", {}).items():
            if v and self.base(s, a) is not None and s.mem[self.base(s, a)].kind in ("heap", "alloca"):
                out.append(("lifetime", "a value is never destroyed"))
        for a, r in s.mem.items():
            if r.kind == "heap" and r.live is not False:
                out.append(("leak", "a block of memory is never released"))
        return out


def scenario(ck, sp, name, names, want, calls=None, moved="", copies=None):
    """want: list of expected observations, each a tuple after the tag; moved: inputs given up by the caller"""
    def pre(eng):
        st = State()
        yield "", st, sp.inputs(eng, st, None, names)

    def post(eng, label, s, v):
        out = list(sp.leftovers(s))
        saw = s.x.get("saw", ())
        if len(saw) != len(want):
            return out + [("result", "%d observations, expected %d" % (len(saw), len(want)))]
        for i, (got, exp) in enumerate(zip(saw, want)):
            for g, e in zip(got[1:], exp):
                if e is not ANY and g != e:
                    if isinstance(g, Undef):
                        raise Incomplete("observed value is undefined")
                    if isinstance(g, Lin) and isinstance(e, Lin) and not g.const and s.facts.zero(sub(g, e)):
                        continue
                    out.append(("result", "observation %d is %s, expected %s" % (got[0], show(g), show(e))))
        for n, a in s.x.get("in", {}).items():
            u = A(a)
            val = sp.value_of(s, u)
            if n in moved:
                if val == A(("op", "val", 64, u)):
                    out.append(("move", "a value given up by the caller is copied, not moved"))
            elif val != A(("op", "val", 64, u)):
                out.append(("modified", "a value that still belongs to the caller is changed or moved from"))
        if copies is not None and sum(1 for x in s.events if x[0] in ("cctor", "cassign")) > copies:
            out.append(("move", "a value that is passed on is copied, not moved"))
        if calls is not None and s.x.get("calls", ()) != tuple(calls):
            out.append(("calls", "the callable is called as %s, expected %s" % ([[show(x) for x in c] for c in s.x.get("calls", ())], [[show(x) for x in c] for c in calls])))
        return out
    ck.obligation(name, sp, "s_" + name, pre, post)


ANY = object()


def show(g):
    return T.show(g) if isinstance(g, Lin) else str(g)


def tag(i, n):
    """value of the i-th input, as scenario() numbers them"""
    return A(("op", "val", 64, A(("R", -20 - i, n))))
