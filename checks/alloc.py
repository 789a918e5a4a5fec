"""hal/malloc_*.h: pool, growing pool, binned, C and object allocators, over short histories with every choice explored."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *

S = lambda n, k="u": A(("s", n, k))


class AllocSpec(ScnSpec):
    unroll = 320
    unroll_width = 4000
    max_recursion = 6
    max_states = 40000
    max_steps = 4000000

    def global_init(self, name):
        return self.m.globals[name]["init"][0] != "z"

    fail = ()                       # ordinal numbers of the system allocations that fail

    def handler(self, eng, name, dem):
        h = {"k_blk": self.h_blk, "k_end": self.h_end, "k_choose": self.h_choose, "k_try": self.h_try, "k_sys": self.h_sys}.get(name)
        return h or super().handler(eng, name, dem)

    def h_memalign(self, eng, st, ins, args, dem):
        n = st.x.get("sys", 0)
        st.x["sys"] = n + 1
        al = args[1]
        if al.const and (al.c < 8 or al.c & (al.c - 1)):
            eng.finding(st, "bad-alignment", ins, "posix_memalign with alignment %d" % al.c)
        if n in self.fail:
            return [(st, C(12))]
        return super().h_memalign(eng, st, ins, args, dem)

    def h_choose(self, eng, st, ins, args, dem):
        out = []
        for i in range(args[0].c):
            s = st.copy()
            s.x["pick"] = s.x.get("pick", ()) + (i,)
            out.append((s, C(i)))
        return out

    def bad(self, eng, st, ins, text):
        eng.finding(st, "bad-block", ins, text)
        eng.drop(st)
        return []

    def h_blk(self, eng, st, ins, args, dem):
        p, size, align = args
        if isinstance(p, Undef) or eng.is_undef(p):
            return self.bad(eng, st, ins, "an uninitialised pointer is handed out")
        if p.const:
            return self.bad(eng, st, ins, "null is handed out although a block is available" if p == ZERO else "address %d is handed out" % p.c)
        b = self.base(st, p)
        off = None if b is None else sub(p, A(b))
        if b is None or not off.const:
            return self.bad(eng, st, ins, "the address handed out, %s, is not in any pool buffer" % T.show(p))
        r = st.mem[b]
        if r.live is False:
            return self.bad(eng, st, ins, "a block of a released buffer is handed out")
        if r.kind not in ("heap", "input") or not isinstance(r.size, Lin) or not r.size.const:
            return self.bad(eng, st, ins, "the address handed out, %s, is not in any pool buffer" % T.show(p))
        lo, hi = off.c, off.c + size.c
        if lo < 0 or hi > r.size.c:
            return self.bad(eng, st, ins, "a block of %d bytes at offset %d of a buffer of %d bytes" % (size.c, lo, r.size.c))
        al = r.info["align"].c
        if al % align.c or lo % align.c:
            return self.bad(eng, st, ins, "a block at offset %d of a buffer aligned to %d, %d required" % (lo, al, align.c))
        live = st.x.get("blk", ())
        for q, l, h in live:
            if q == b and l < hi and lo < h:
                return self.bad(eng, st, ins, "a block at bytes %d to %d overlaps the live block at bytes %d to %d" % (lo, hi, l, h))
        st.x["blk"] = live + ((b, lo, hi),)
        st.x["ext"] = st.x.get("ext", ()) + ((b, lo, hi),)
        # the caller writes to the whole block
        rr = st.region(b, True)
        for o in [o for o, (z, _) in rr.cells.items() if o < hi and lo < o + z]:
            del rr.cells[o]
        for o in range(lo, hi):
            rr.cells[o] = (1, A(eng.fresh("user", "i")))
        return [(st, None)]

    def h_try(self, eng, st, ins, args, dem):
        return [(st, None)] if args[0] == ZERO else self.h_blk(eng, st, ins, args, dem)

    def h_sys(self, eng, st, ins, args, dem):
        return [(st, C(st.x.get("sys", 0)))]

    def h_end(self, eng, st, ins, args, dem):
        p = args[0]
        live = st.x.get("blk", ())
        b = self.base(st, p)
        st.x["blk"] = tuple(x for x in live if not (x[0] == b and x[1] == sub(p, A(b)).c))
        return [(st, None)]


def history(ck, sp, name, want, bufs=(), fail=(), skip=None, args=()):
    """want: expected values of the k_val observations per tag, a list (in order) or one value for all;
    bufs: (name, size, align) of each pointer argument"""
    def pre(eng):
        st = State()
        a = []
        for i, (n, size, al) in enumerate(bufs):
            g = ("R", -20 - i, n)
            st.mem[g] = Region("input", C(size), {"name": n, "align": C(al)})
            a.append(A(g))
        yield "", st, a + list(args)

    def post(eng, label, s, v):
        out = list(sp.leftovers(s))
        got = {}
        for t, *w in s.x.get("saw", ()):
            got.setdefault(t, []).append(w[0])
        how = " (choices %s)" % (s.x["pick"],) if s.x.get("pick") else ""
        for t, g in got.items():
            if t not in want:
                raise Incomplete("observation %d has no expectation" % t)
            e = want[t] if isinstance(want[t], list) else [want[t]] * len(g)
            for x, y in zip(g, e):
                if y is ANY or callable(y) and y(x):
                    continue
                y = y if isinstance(y, Lin) or callable(y) else C(int(y))
                if isinstance(x, Undef):
                    out.append(("result", "observation %d is undefined" % t))
                elif x != y:
                    out.append(("result", "observation %d is %s, expected %s%s" % (t, show(x), show(y) if isinstance(y, Lin) else y.__doc__, how)))
        for e in s.events if name.startswith("binned_grow") else ():
            if e[0] in ("memcpy", "memmove") and e[3].const:
                q = sp.base(s, e[2])
                for b, lo, hi in s.x.get("ext", ()):
                    if q == b and sub(e[2], A(b)) == C(lo) and e[3].c > hi - lo:
                        out.append(("out-of-bounds", "%d bytes are copied from a block of %d bytes" % (e[3].c, hi - lo)))
        if any(n == "buf" for n, z, al in bufs) and s.x.get("sys"):
            out.append(("result", "memory is allocated although a buffer was given"))
        return out
    old = sp.fail
    sp.fail = fail
    ck.obligation(name, sp, "s_" + name, pre, post)
    sp.fail = old


def P01(ck, sp):
    for n, z, a in [(1, 8, 8), (1, 1, 1), (2, 5, 1), (2, 24, 8), (3, 12, 4), (3, 16, 16), (3, 8, 64), (4, 40, 32), (2, 64, 64), (3, 100, 8), (2, 7, 2)]:
        w = {1: n, 2: 0, 3: list(range(n - 1, -1, -1)), 4: 1, 5: 1, 6: 1, 7: 0, 8: list(range(1, n + 1)), 9: 0, 10: 1, 11: 1, 12: 1}
        history(ck, sp, "pool_%d_%d_%d" % (n, z, a), w)
        history(ck, sp, "poolbuf_%d_%d_%d" % (n, z, a), w, [("buf", n * 256, 64)])
        if (n, z, a) == (2, 24, 8):
            history(ck, sp, "pooldef", w)
    history(ck, sp, "pool0", {1: 0, 2: 1, 3: 1})
    history(ck, sp, "poolfail", {1: 0, 2: 1, 3: 1}, fail=(0,))
    history(ck, sp, "poolforeign", {1: 1, 2: 0, 3: 0}, [("other", 64, 64)])
    yes = {i: 1 for i in range(1, 12)}
    for k in ("mpool_16_8", "mpool_24_64", "mpool_5_1", "mpool_def", "minline"):
        history(ck, sp, k, yes)
    for k in ("mpool_buf", "minline_buf"):
        history(ck, sp, k, yes, [("buf", 400, 64)])
    history(ck, sp, "mpool_fail", {1: 1}, fail=(0,))
    history(ck, sp, "mpool_foreign", {1: 1, 2: 1, 3: 1})
    history(ck, sp, "mpool_drop", {})
    ck.rep.rule("Pools of several block counts, sizes and alignments, with own and given buffers, are interpreted through every history of the shape: acquire until exhausted, release in any rotation, acquire again. "
                "The addresses handed out are abstract (buffer base + offset): each lies inside the buffer, is aligned, overlaps no other live block, stays usable when the caller overwrites all of it; "
                "the number of free blocks is exact, an exhausted pool yields null, requests above the block size or alignment yield null and leave the pool and the original block alone, and own buffers are released exactly once.")
    ck.rep.assumptions += ["alignments are powers of two and a given buffer is large enough and aligned", "released blocks came from the pool and are not released twice"]


def P02(ck, sp):
    for n, z, a, i, r in [(1, 8, 8, 1, 2), (1, 8, 8, 0, 3), (2, 5, 1, 1, 2), (2, 24, 16, 1, 2), (1, 16, 64, 2, 2), (3, 12, 4, 0, 1), (2, 32, 8, 2, 1)]:
        k = max(i, r)
        history(ck, sp, "pooled_%d_%d_%d_%d" % (n, z, a, i), {1: i, 2: 1, 3: k, 4: k, 5: k})
    for k in (4,):
        history(ck, sp, "pooled_deep%d" % k, {1: k, 2: 1, 3: k})
    history(ck, sp, "pooled_limits", {1: 1, 2: 1, 3: 1, 4: 1, 5: 1, 6: 1, 7: 1, 8: 1, 9: 0, 10: 1, 11: 2, 12: 0}, [("other", 64, 64)])
    history(ck, sp, "pooled_growfail", {1: 1, 2: 1, 3: 2}, fail=(1,))
    history(ck, sp, "pooled_nomem", {1: 0, 2: 1, 3: 1}, fail=(0, 1))
    history(ck, sp, "pooled_zero", {1: 0})
    history(ck, sp, "pooled_drop", {})
    history(ck, sp, "binned_sizes", {1: 1, 2: 1, 3: 1})
    history(ck, sp, "binned_edge33", {})
    history(ck, sp, "binned_edge64", {})
    history(ck, sp, "binned_reuse", {1: 0, 2: 0, 3: 0})
    history(ck, sp, "binned_align", {1: 1})
    history(ck, sp, "binned_sizes4", {1: 1})
    history(ck, sp, "binned_sizes16", {})
    history(ck, sp, "binned_live", {})
    x, y = S("x"), S("y")
    for k in ("grow_8_16", "grow_8_32", "grow_16_32", "grow_16_20", "same_20_32", "shrink_32_16", "shrink_32_8"):
        history(ck, sp, "binned_" + k, {1: x, 2: y, 3: 0}, args=(x, y))
    history(ck, sp, "binned_renull", {1: 1})
    history(ck, sp, "binned_drop", {})
    ck.rep.rule("Growing pools and binned pools of several shapes are interpreted through histories that allocate across several pools, free any block, free any neighbouring pair and allocate again; the relative order of the buffers in memory is unknown, so all orders are covered. "
                "Every block is inside a live buffer, aligned, large enough, disjoint from all live blocks and from the allocator's own records; freed blocks are used again before a new pool is made; "
                "hasBlock answers for own and foreign blocks; a failed system allocation yields null and leaves the allocator working; realloc keeps content or answers null and leaves the block; all buffers are released on destruction.")
    ck.rep.assumptions += ["alignments are powers of two", "freed blocks are live blocks of the allocator"]


def P03(ck, sp):
    b, c, n, size, al, orig = (S(k, t) for k, t in (("b", "p"), ("c", "p"), ("n", "u"), ("size", "u"), ("align", "u"), ("orig", "p")))
    ev = lambda s, *ks: [e for e in s.events if e[0] in ks]

    class AnsiSpec(KSpec):
        def global_init(self, name):
            return self.m.globals[name]["init"][0] != "z"
    an = AnsiSpec(ck.m)

    def region(p):
        r = ("R", -31, "block")
        return r

    def run(name, fname, args, post, prep=None, spec=an):
        def pre(eng):
            st = State()
            a = args
            if prep:
                st, a = prep(eng, st)
            yield "", st, a
        ck.obligation(name, spec, fname, pre, post)

    def same(s, x, y):
        return x == y or isinstance(x, Lin) and isinstance(y, Lin) and s.facts.zero(sub(x, y))

    def atleast(s, x, y):
        return x == y or s.facts.entails(sub(x, y))

    def want_block(s, v, n, al):
        out = []
        fail = ev(s, "memalign-fail")
        if fail:
            if not same(s, v, ZERO):
                out.append(("result", "a failed system allocation does not yield null"))
            return out
        r = v.single() if isinstance(v, Lin) else None
        if r is None or r not in s.mem or s.mem[r].kind != "heap":
            return [("result", "the result %s is not the block that was allocated" % show(v))]
        if s.mem[r].live is False:
            out.append(("result", "the result is a block that was freed"))
        if not atleast(s, s.mem[r].size, n):
            out.append(("result", "the block has %s bytes, %s requested" % (show(s.mem[r].size), show(n))))
        a = s.mem[r].info["align"]
        if al is not None and not atleast(s, a, al):
            out.append(("result", "the block is aligned to %s, %s requested" % (show(a), show(al))))
        if not s.facts.entails(sub(a, C(8))):
            out.append(("result", "posix_memalign is called with an alignment that may be smaller than a pointer"))
        return out

    def post_alloc(n, al):
        def post(eng, label, s, v):
            out = want_block(s, v, n, al)
            if sum(1 for e in s.mem.values() if e.kind == "heap") > 1:
                out.append(("leak", "more than one block is allocated"))
            return out
        return post
    run("MallocAnsi.alloc", "a_alloc", [size, al], post_alloc(size, al))
    run("gMalloc.alloc", "a_galloc", [size], post_alloc(size, C(8)), spec=an)

    def prep(known, z):
        def f(eng, st):
            r = region(None)
            st.mem[r] = Region("heap", None, {"name": "block", "from": "malloc", "align": C(8)})
            st.facts = st.facts.with_ge(add(z, C(-1))) if z.t else st.facts
            return st, [A(r), z, al]
        return f

    def post_re(eng, label, s, v):
        o = region(None)
        old = A(o)
        if ev(s, "memalign-fail"):
            out = [] if same(s, v, ZERO) else [("result", "a failed system allocation does not yield null")]
            if s.mem[o].live is False:
                out.append(("result", "the original block is freed although reallocation failed"))
            return out
        if v == old:
            # growing in place is fine for a block that is known to be large and aligned enough
            u = A(("op", "usable", 64, old))
            out = []
            if s.mem[o].live is False:
                out.append(("result", "the original block is freed and returned"))
            if not s.facts.entails(sub(u, size)):
                out.append(("result", "the original block is returned although its size is not known to suffice"))
            masks = {i for l in s.facts.ge + s.facts.ne for i in T.value_atoms(l) if T.atom(i)[0] == "op" and T.atom(i)[1] in ("and", "urem") and T.aid(o) in T.value_atoms(A(T.atom(i)))}
            if not s.facts.entails(sub(C(8), al)):
                if masks:
                    raise Incomplete("alignment test of the original block")
                out.append(("result", "the original block is returned although its alignment is not known to suffice"))
            return out
        out = want_block(s, v, size, al)
        if s.mem[o].live is not False:
            out.append(("leak", "the original block is not freed"))
        u = A(("op", "usable", 64, old))
        cp = ev(s, "memcpy", "memmove")
        if s.facts.zero(u):
            return out
        done = [e for e in cp if e[1] == v and e[2] == old]
        if not done:
            out.append(("content", "the content of the original block is not copied"))
        for e in cp:
            k = e[3]
            if not s.facts.entails(sub(size, k)):
                out.append(("out-of-bounds", "%s bytes are copied to a block of %s bytes" % (show(k), show(size))))
            if not s.facts.entails(sub(u, k)):
                out.append(("out-of-bounds", "%s bytes are copied from a block of %s bytes" % (show(k), show(u))))
            if not (same(s, k, size) or same(s, k, u) or same(s, k, mkop("umin", 64, size, u))):
                out.append(("content", "only %s bytes are copied" % show(k)))
        return out
    run("MallocAnsi.realloc", "a_realloc", None, post_re, prep(True, size))
    run("MallocAnsi.realloc(0)", "a_realloc", None, lambda eng, label, s, v: ([] if same(s, v, ZERO) else [("result", "the result is %s, expected null" % show(v))])
        + ([] if s.mem[region(None)].live is False else [("leak", "the block is not freed")])
        + ([("leak", "a block is allocated")] if sum(1 for e in s.mem.values() if e.kind == "heap") > 1 else []), prep(True, ZERO))
    run("MallocAnsi.realloc(null)", "a_realloc", [ZERO, size, al], post_alloc(size, al))
    run("MallocAnsi.free", "a_free", None, lambda eng, label, s, v: [] if s.mem[region(None)].live is False else [("leak", "the block is not freed")],
        lambda eng, st: (prep(True, size)(eng, st)[0], [A(region(None))]))
    run("MallocAnsi.free(null)", "a_free", [ZERO], lambda *a: [])

    # object allocator: every request reaches the given allocator with the size and alignment of the objects
    sp2 = AnsiSpec(ck.m)

    def objprep(extra, second=False):
        def f(eng, st):
            m = sp2.mallocobj(eng, st, "b")
            st.x["b"] = A(m)
            a = [A(m)]
            if second:
                m2 = sp2.mallocobj(eng, st, "c")
                a.append(A(m2))
            if "p" in extra:
                r = region(None)
                st.mem[r] = Region("heap", None, {"name": "block", "owner": A(m), "align": C(8)})
                a.append(A(r))
            if "n" in extra:
                a.append(n)
            return st, a
        return f

    def post_obj(unit, align, cnt):
        def post(eng, label, s, v):
            e = ev(s, "alloc")
            if len(e) != 1:
                return [("result", "%d allocator requests, expected one" % len(e))]
            e = e[0]
            out = []
            if e[1] != s.x["b"]:
                out.append(("wrong-allocator", "the request goes to %s" % show(e[1])))
            if v != e[2]:
                out.append(("result", "the block of the allocator is not what is returned"))
            if not same(s, e[3], scale(cnt, unit)):
                out.append(("result", "%s bytes are requested for %s objects of %d bytes" % (show(e[3]), show(cnt), unit)))
            if not e[4].const or e[4].c < align or e[4].c & (e[4].c - 1):
                out.append(("result", "alignment %s is requested for objects aligned to %d" % (show(e[4]), align)))
            return out
        return post
    run("MallocObject.alloc", "o_alloc", None, post_obj(24, 8, n), objprep("n"), sp2)
    run("MallocObject.alloc()", "o_alloc1", None, post_obj(24, 8, ONE), objprep(""), sp2)
    run("MallocObject.alloc[aligned]", "o_allocw", None, post_obj(32, 32, n), objprep("n"), sp2)
    run("MallocObject.move", "o_move", None, post_obj(24, 8, n), objprep("n"), sp2)
    run("MallocObject.moveAssign", "o_massign", None, post_obj(24, 8, n), objprep("n", True), sp2)
    run("MallocObject<T, MallocT>.alloc", "o_own", None, post_obj(24, 8, n), objprep("n"), sp2)

    def post_reobj(unit, align):
        def post(eng, label, s, v):
            e = ev(s, "realloc")
            if len(e) != 1:
                return [("result", "%d allocator requests, expected one" % len(e))]
            e = e[0]
            out = []
            if e[1] != s.x["b"]:
                out.append(("wrong-allocator", "the request goes to %s" % show(e[1])))
            if e[2] != A(region(None)):
                out.append(("result", "another block is reallocated"))
            if not same(s, e[3], scale(n, unit)):
                out.append(("result", "%s bytes are requested for %s objects of %d bytes" % (show(e[3]), show(n), unit)))
            if not e[4].const or e[4].c < align or e[4].c & (e[4].c - 1):
                out.append(("result", "alignment %s is requested for objects aligned to %d" % (show(e[4]), align)))
            return out
        return post
    run("MallocObject.realloc", "o_realloc", None, post_reobj(24, 8), objprep("pn"), sp2)
    run("MallocObject.realloc[aligned]", "o_reallocw", None, post_reobj(32, 32), objprep("pn"), sp2)

    def post_fr(eng, label, s, v):
        f = ev(s, "free")
        if len(f) != 1 or f[0][2] != A(region(None)):
            return [("leak", "the block is not returned to its allocator")]
        return [] if f[0][1] == s.x["b"] else [("wrong-allocator", "the block is returned to %s" % (show(f[0][1]) if isinstance(f[0][1], Lin) else f[0][1]))]
    run("MallocObject.free", "o_free", None, post_fr, objprep("p"), sp2)
    run("MallocObject<T, MallocT>.free", "o_ownfree", None, post_fr, objprep("p"), sp2)
    run("MallocObject.default", "o_default", [n], post_alloc(scale(n, 32), C(32)))
    ck.rep.rule("Each operation of the C allocator and of the object allocator is interpreted with unknown sizes, alignments and blocks, system allocation succeeding or failing: the block is at least as large and as aligned as requested, "
                "reallocation copies exactly the common part and frees the original only after success, freeing is exact, and the object allocator asks its allocator for count times the object size with the object's alignment.")
    ck.rep.assumptions += ["alignments are powers of two", "count times size does not overflow"]


def main():
    pid = sys.argv[1]
    ck = Checker(pid, "alloc.cpp", link=("hal",))
    sp = AllocSpec(ck.m)
    {"P01": P01, "P02": P02, "P03": P03}[pid](ck, sp)
    finish(ck.rep, {"P01": 16, "P02": 10, "P03": 10}[pid])


if __name__ == "__main__":
    main()
