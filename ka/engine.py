"""Forward abstract interpretation of one function (with its callees inlined by context) over LLVM IR.

Domain: value numbering (terms.py) x linear inequalities (facts.py) x a points-to/shape heap with strong
updates and lazily materialised input objects x object typestate (live / freed) x an ordered effect trace.
Control-flow joins keep a disjunction of abstract states; loops are solved by a fixpoint: everything the
body changes is widened to an unknown, counters are recognised as induction variables of one iteration
index, and the effects of one arbitrary iteration are kept as a summary.  No path is enumerated per
iteration, nothing is executed and no solver is called.
"""
import time
import json
import math
from fractions import Fraction
from .terms import *
from . import terms as T
from .facts import Facts, infeasible, lin_nonneg


class Incomplete(Exception):
    """the analysis could not cover the code (budget, unknown construct)"""


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d["funcs"]
        self.globals = d["globals"]
        self.types = d["types"]
        self.files = d["files"]
        for n, f in self.funcs.items():
            f["name"] = n
        self._loops = {}
        self._ro = {}

    def loc(self, l):
        if not l:
            return "?"
        f = self.files[l[0]]
        for p in ("/src/korin/core/public/", "/src/korin/core/private/"):
            if p in f:
                f = f[f.index(p) + 1:]
        return "%s:%d" % (f.replace("/public/./", "/public/"), l[1])

    def succ(self, fn, b):
        t = fn["blocks"][b][-1]
        if t["op"] == "br":
            return list(t["s"])
        if t["op"] == "switch":
            return list(dict.fromkeys([t["def"]] + [c[1] for c in t["cases"]]))
        return []

    def loops(self, fn):
        """natural loops: header -> set of blocks"""
        r = self._loops.get(fn["name"])
        if r is not None:
            return r
        n = len(fn["blocks"])
        succ = [self.succ(fn, b) for b in range(n)]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        # reachable + dominators
        order, seen, st = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in pred[b] if p in seen]
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(p for p in pred[x] if p in seen)
        self._loops[fn["name"]] = loops
        return loops

    def live_in(self, fn):
        """registers live at the start of each block (after its phis)"""
        k = ("live", fn["name"])
        r = self._ro.get(k)
        if r is not None:
            return r
        nb = len(fn["blocks"])

        def uses(v, acc):
            if isinstance(v, list):
                if len(v) == 3 and v[0] == "v" and isinstance(v[2], int):
                    acc.add(v[2])
                else:
                    for x in v:
                        uses(x, acc)

        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        phiuse = {}
        for b in range(nb):
            for i in fn["blocks"][b]:
                if i["op"] == "phi":
                    for v, p in i["in"]:
                        acc = set()
                        uses(v, acc)
                        phiuse.setdefault(p, set()).update(acc)
                    dfn[b].add(i["id"])
                    continue
                acc = set()
                for k2 in ("a", "f", "c", "vars", "cases"):
                    if k2 in i:
                        uses(i[k2], acc)
                use[b] |= acc - dfn[b]
                if "id" in i:
                    dfn[b].add(i["id"])
        phid = [{i["id"] for i in fn["blocks"][b] if i["op"] == "phi"} for b in range(nb)]
        # use of phi results inside own block counts as live after the phis
        use2 = [set() for _ in range(nb)]
        for b in range(nb):
            d = set()
            for i in fn["blocks"][b]:
                if i["op"] == "phi":
                    continue
                acc = set()
                for k2 in ("a", "f", "c", "vars", "cases"):
                    if k2 in i:
                        uses(i[k2], acc)
                use2[b] |= acc - d
                if "id" in i:
                    d.add(i["id"])
        live = [set(x) for x in use2]
        succ = [self.succ(fn, b) for b in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                out = set(phiuse.get(b, ()))
                for t in succ[b]:
                    out |= live[t] - phid[t]
                nonphi = {i["id"] for i in fn["blocks"][b] if "id" in i and i["op"] != "phi"}
                n = use2[b] | (out - nonphi)
                if not n <= live[b]:
                    live[b] |= n
                    ch = True
        self._ro[k] = live
        return live

    def live_at(self, fn, b, ip):
        """registers live just before instruction ip of block b"""
        live = self.live_in(fn)
        out = set()
        for t in self.succ(fn, b):
            ph = {i["id"] for i in fn["blocks"][t] if i["op"] == "phi"}
            out |= live[t] - ph
            for i in fn["blocks"][t]:
                if i["op"] == "phi":
                    for v, p in i["in"]:
                        if p == b and v[0] == "v":
                            out.add(v[2])

        def uses(v, acc):
            if isinstance(v, list):
                if len(v) == 3 and v[0] == "v" and isinstance(v[2], int):
                    acc.add(v[2])
                else:
                    for x in v:
                        uses(x, acc)
        for i in reversed(fn["blocks"][b][ip:]):
            if "id" in i:
                out.discard(i["id"])
            acc = set()
            for k2 in ("a", "f", "c", "vars", "cases"):
                if k2 in i:
                    uses(i[k2], acc)
            out |= acc
        return out

    def readonly(self, name, seen=None):
        """no stores except to own allocas, transitively (syntactic)"""
        if name in self._ro:
            return self._ro[name]
        seen = seen or set()
        if name in seen:
            return True
        seen.add(name)
        f = self.funcs.get(name)
        if f is None or f["decl"]:
            return bool(f) and f["d"].startswith("llvm.")
        al = set()
        for b in f["blocks"]:
            for i in b:
                if i["op"] == "alloca":
                    al.add(i["id"])
                elif i["op"] == "getelementptr" and i["a"][0][0] == "v" and i["a"][0][2] in al:
                    al.add(i["id"])
        ok = True
        for b in f["blocks"]:
            for i in b:
                if i["op"] == "store":
                    p = i["a"][1]
                    if not (p[0] == "v" and p[2] in al):
                        ok = False
                elif i["op"] in ("atomicrmw", "cmpxchg", "fence"):
                    ok = False
                elif i["op"] == "call":
                    if i["f"][0] != "g" or not self.readonly(i["f"][2], seen):
                        ok = False
        self._ro[name] = ok
        return ok


class Region:
    __slots__ = ("kind", "cells", "symw", "live", "size", "info", "opaque")

    def __init__(self, kind, size=None, info=None):
        self.kind = kind        # alloca, heap, input, global
        self.cells = {}         # off -> (size, value)
        self.symw = []          # [(offset Lin, size, value)]
        self.live = True        # True, False (freed), None (unknown), "stack" (dead frame)
        self.size = size
        self.info = info        # dict for the client
        self.opaque = False     # True: contents unknown (after a summarised loop)

    def copy(self):
        r = Region(self.kind, self.size, self.info)
        r.cells = dict(self.cells)
        r.symw = list(self.symw)
        r.live = self.live
        r.opaque = self.opaque
        return r


class Frame:
    __slots__ = ("fn", "regs", "bb", "ip", "prev", "ret", "allocas", "loc")

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.bb = 0
        self.ip = 0
        self.prev = None
        self.ret = None
        self.allocas = []
        self.loc = None

    def copy(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.bb, f.ip, f.prev, f.ret, f.loc = self.bb, self.ip, self.prev, self.ret, self.loc
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.facts = Facts()
        self.events = []
        self.bools = {}
        self.x = {}             # client data (copied shallowly)
        self.pending = None
        self.path = []          # branch decisions (for reports)
        self.dead = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.facts = self.facts
        s.events = list(self.events)
        s.bools = dict(self.bools)
        s.x = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.x.items()}
        s.pending = self.pending
        s.path = list(self.path)
        s.dead = None
        return s

    def region(self, a, write=False):
        r = self.mem.get(a)
        if r is not None and write and a not in self.own:
            r = r.copy()
            self.mem[a] = r
            self.own.add(a)
        return r

    def rewrite(self, m, events_from=0):
        """substitute atoms everywhere in the state; m: {atom id: Lin}"""
        memo = {}
        rw = lambda v: T.rewrite(v, m, memo)
        for f in self.frames:
            for k, v in f.regs.items():
                f.regs[k] = rw(v)
        for a in list(self.mem):
            r = self.mem[a]
            ch = any(rw(v) is not v and rw(v) != v for _, v in r.cells.values()) or any(rw(v) != v or rw(o) != o for o, _, v in r.symw) \
                or (isinstance(r.size, Lin) and rw(r.size) != r.size)
            if ch:
                r = self.region(a, True)
                r.cells = {o: (z, rw(v)) for o, (z, v) in r.cells.items()}
                sw = []
                for o, z, v in r.symw:
                    o, v = rw(o), rw(v)
                    sw.append((o, z, v))
                r.symw = sw
                if isinstance(r.size, Lin):
                    r.size = rw(r.size)
            if aid(a) in m:
                tgt = m[aid(a)]
                del self.mem[a]
                b = tgt.single()
                if b is not None and b not in self.mem:
                    self.mem[b] = r
        ge = []
        ok = True
        for l in self.facts.ge:
            n = rw(l)
            if not n.t:
                if n.c < 0:
                    ok = False
            elif n not in ge:
                ge.append(n)
        ne = []
        for l in self.facts.ne:
            n = rw(l)
            if not n.t:
                if n.c == 0:
                    ok = False
            elif n not in ne:
                ne.append(n)
        rel = {}
        for (x, y), s in self.facts.rel.items():
            x, y = rw(x), rw(y)
            if (x, y) in rel:
                s = s & rel[(x, y)]
            rel[(x, y)] = s
            if not s:
                ok = False
        self.facts = Facts(tuple(ge), tuple(ne), rel)
        self.bools = {self._bk(k, m, memo): v for k, v in self.bools.items()}
        for i in range(events_from, len(self.events)):
            self.events[i] = rw_event(self.events[i], rw)
        for k, v in self.x.items():
            self.x[k] = rw_event(v, rw)
        if ok and infeasible(list(self.facts.ge)):
            ok = False
        return ok

    def _bk(self, k, m, memo):
        v = T.rewrite(Lin(0, ((k, 1),)), m, memo)
        s = v.single()
        return aid(s) if s is not None else k


def rw_event(e, rw):
    if isinstance(e, (Lin, Flt, Agg)):
        return rw(e)
    if isinstance(e, tuple):
        if e and e[0] == "loop":
            return e
        return tuple(rw_event(x, rw) for x in e)
    if isinstance(e, list):
        return [rw_event(x, rw) for x in e]
    if isinstance(e, dict):
        return {k: rw_event(v, rw) for k, v in e.items()}
    return e


class Spec:
    """client hooks"""
    record_stores = True
    record_loads = False
    bounds = False
    max_states = 6000
    max_steps = 400000
    unroll = 8
    unroll_width = 24
    exact_bytes = False
    stop_outside = False
    deadline = None
    max_depth = 60

    def deref(self, eng, st, a, loc):
        """called when pointer atom a, which has no region yet, is dereferenced.
        Returns a list of states in which it has one (default: a fresh, distinct input object)."""
        st.mem[a] = Region("input", None, None)
        st.own.add(a)
        return [st]

    def materialize(self, eng, st, a, off, size, ty):
        """first read of a cell of an input object; returns [(state, value)]"""
        return [(st, self.default_cell(eng, a, off, size, ty))]

    def default_cell(self, eng, a, off, size, ty):
        nm = "%s@%s" % (T.show_atom(a), T.show(off) if isinstance(off, Lin) else off)
        if ty["k"] == "fp":
            return fatom(("s", nm, "f"))
        return A(("s", nm, "p" if ty["k"] == "ptr" else "i"))

    def handler(self, eng, name, dem):
        """function(eng, st, ins, args, dem) -> [(state, retval)] or None"""
        return None

    watch = None                # watch(st, address): record plain accesses to it

    def indirect(self, eng, st, ins, target, args):
        raise Incomplete("indirect call to " + T.show(target))

    def unknown_call(self, eng, st, ins, name, dem, args):
        raise Incomplete("call to unmodelled function " + dem)


class LoopCtx:
    def __init__(self, depth, header, blocks):
        self.depth, self.header, self.blocks = depth, header, blocks


def closed_value(v):
    """numeric value of a term that holds no unknowns, else None"""
    out = 0.0
    for m, c in v.p:
        x = float(c)
        for i in m:
            a = T.atom(i)
            if a[0] != "fop" or len(a) != 3 or a[1] not in FNUM or not isinstance(a[2], Flt):
                return None
            y = closed_value(a[2])
            if y is None:
                return None
            try:
                x *= FNUM[a[1]](y)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
        out += x
    return out


FNUM = {"sqrt": math.sqrt, "inv": lambda x: 1 / x, "sin": math.sin, "cos": math.cos, "acos": math.acos, "asin": math.asin, "tan": math.tan, "atan": math.atan, "abs": abs}


class Engine:
    def __init__(self, mod, spec):
        self.m = mod
        self.spec = spec
        self.n = 0
        self.narrow = set()
        self.steps = 0
        self.nested = 0
        self.findings = []      # (kind, loc, text, state)
        self.covered = set()
        self.callsites = 0
        self.loopsn = set()

    # ------------------------------------------------------------------ helpers
    def fresh(self, name, kind):
        self.n += 1
        return ("s", "%s.%d" % (name, self.n), kind)

    def new_region(self, st, kind, size=None, info=None):
        self.n += 1
        a = ("R", self.n, kind if not info or "name" not in info else info["name"])
        st.mem[a] = Region(kind, size, info)
        st.own.add(a)
        return a

    def finding(self, st, kind, ins, text=""):
        loc = self.m.loc(ins.get("l")) if isinstance(ins, dict) else (ins or "?")
        stack = [f.fn["d"] for f in st.frames]
        st.x.setdefault("findings", [])
        st.x["findings"] = st.x["findings"] + [(kind, loc, text, tuple(stack))]

    def ty(self, t):
        return self.m.types[t]

    # ------------------------------------------------------------------ entry
    def run(self, fname, args, st):
        """-> list of (state, return value) for every way the function returns"""
        fn = self.m.funcs[fname]
        if fn["decl"]:
            raise Incomplete("no body for " + fname)
        st = st.copy()
        self.push(st, fn, args, None, None)
        out = self.explore([st], len(st.frames) - 1, None)
        res = []
        for k, s, v in out:
            if k == "ret":
                res.append((s, v))
        return res

    def push(self, st, fn, args, ret, ins):
        if len(st.frames) > self.spec.max_depth:
            raise Incomplete("call depth exceeded in " + fn["d"])
        f = Frame(fn)
        f.ret = ret
        f.loc = ins.get("l") if ins else None
        for (i, t, sret, byval), v in zip(fn["args"], args):
            f.regs[i] = v
        st.frames.append(f)
        self.covered.add(fn["name"])

    # ------------------------------------------------------------------ exploration
    def explore(self, states, floor, ctx):
        """runs states until they return below `floor`, or leave / re-enter the loop of ctx"""
        out = []
        work = list(states)
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.spec.max_states:
                raise Incomplete("too many abstract states in %s" % st.frames[-1].fn["d"])
            if st.pending is not None:
                r = self.transition(st, ctx)
                for k, s in r:
                    if k == "run":
                        work.append(s)
                    else:
                        out.append((k, s, None))
                continue
            r = self.run_block(st, floor)
            for k, s, v in r:
                if k == "run":
                    work.append(s)
                else:
                    out.append((k, s, v))
        return out

    def transition(self, st, ctx):
        b, t = st.pending
        f = st.frames[-1]
        d = len(st.frames)
        if ctx and d == ctx.depth:
            if t == ctx.header:
                return [("back", st)]
            if t not in ctx.blocks:
                return [("exit", st)]
        loops = self.m.loops(f.fn)
        if t in loops and b not in loops[t]:
            return [("run", s) for s in self.loop(st, t, loops[t])]
        st.pending = None
        self.enter(st, b, t)
        return [("run", st)]

    def enter(self, st, b, t, override=None):
        f = st.frames[-1]
        new = {}
        for ins in f.fn["blocks"][t]:
            if ins["op"] != "phi":
                break
            if override is not None and ins["id"] in override:
                new[ins["id"]] = override[ins["id"]]
            else:
                for v, p in ins["in"]:
                    if p == b:
                        new[ins["id"]] = self.val(st, v)
        f.regs.update(new)
        f.prev, f.bb, f.ip = b, t, len([1 for i in f.fn["blocks"][t] if i["op"] == "phi"])

    def phi_in(self, st, t, b):
        f = st.frames[-1]
        r = {}
        for ins in f.fn["blocks"][t]:
            if ins["op"] != "phi":
                break
            for v, p in ins["in"]:
                if p == b:
                    r[ins["id"]] = self.val(st, v)
        return r

    # ------------------------------------------------------------------ loops
    def unroll(self, st, b, header, blocks):
        """loops that end after a few iterations whatever the input need no abstraction"""
        lim = self.spec.unroll >> self.nested
        if not lim:
            return None
        save = (list(self.findings), list(self.dropped), list(self.endless), self.steps, set(self.covered), self.callsites)
        self.nested += 1
        try:
            depth = len(st.frames)
            ctx = LoopCtx(depth, header, blocks)
            s = st.copy()
            self.enter(s, b, header)
            work, done = [s], []
            for i in range(lim + 1):
                outs = self.explore(work, depth - 1, ctx)
                if any(k == "ret" for k, s, v in outs):
                    work = [1]
                    break
                done += [s for k, s, v in outs if k == "exit"]
                work = []
                for k, s, v in outs:
                    if k == "back":
                        pb, t = s.pending
                        s.pending = None
                        self.enter(s, pb, header)
                        work.append(s)
                if not work:
                    break
                if len(work) + len(done) > self.spec.unroll_width:
                    break
            if not work and (done or getattr(self.spec, "no_summary", False)):
                return done
            if i == lim and len(work) == 1 and not done and getattr(self.spec, "runaway", False):
                self.finding(work[0], "does-not-return", self.cur, "a loop goes on for more than %d rounds on a short input" % lim)
                self.drop(work[0])
                return []
        except Incomplete as e:
            if getattr(self.spec, "no_summary", False):
                raise
        finally:
            self.nested -= 1
        self.findings, self.dropped, self.endless, self.steps, self.covered, self.callsites = save
        return None

    def loop(self, st, header, blocks):
        b, t = st.pending
        st.pending = None
        f = st.frames[-1]
        self.loopsn.add((f.fn["name"], header))
        r = self.unroll(st, b, header, blocks)
        if r is not None:
            return r
        if getattr(self.spec, "no_summary", False):
            raise Incomplete("loop without a known small bound in " + f.fn["d"])
        sl = getattr(self.spec, "shape_loop", None)
        if sl is not None:
            r = sl(self, st, b, header, blocks)
            if r is not None:
                return r
        depth = len(st.frames)
        ctx = LoopCtx(depth, header, blocks)
        init = self.phi_in(st, header, b)
        phis = [i for i in f.fn["blocks"][header] if i["op"] == "phi"]
        ptype = {i["id"]: self.ty(i["t"]) for i in phis}
        base_ids = set(st.mem)
        self.n += 1
        lid = self.n
        varphi = {}             # phi id -> atom
        varcell = {}            # (region, off, size) -> (atom, init value, isfloat)
        opaque = set()          # regions whose contents are unknown at the header
        livev = set()
        kappa = ("s", "k%d" % lid, "u")
        closed = {}             # key -> (init, step) closed forms
        demoted = set()
        inv = []
        for rnd in range(14):
            H = st.copy()
            H.facts = st.facts
            ne = len(H.events)
            ov = {}
            for i, v in init.items():
                if ("p", i) in closed:
                    i0, step = closed[("p", i)]
                    ov[i] = add(i0, self.times(step, kappa))
                elif i in varphi:
                    ov[i] = fatom(varphi[i]) if varphi[i][2] == "f" else A(varphi[i])
                else:
                    ov[i] = v
            for (ra, off, sz), (a, iv, isf) in varcell.items():
                r = H.region(ra, True)
                if ("c", ra, off, sz) in closed:
                    i0, step = closed[("c", ra, off, sz)]
                    r.cells[off] = (sz, add(i0, self.times(step, kappa)))
                elif off in r.cells and r.cells[off][0] == sz:
                    r.cells[off] = (sz, fatom(a) if isf else A(a))
                else:
                    # never materialised before the loop: leave it to be read lazily, but unknown
                    r.cells[off] = (sz, fatom(a) if isf else A(a))
            for ra in opaque:
                r = H.region(ra, True)
                r.symw = []
                r.opaque = True
                if r.kind == "heap":
                    r.kind = "input"
            for ra in livev:
                H.region(ra, True).live = None
            fz = H.facts.with_ge(*inv) if inv else H.facts
            if fz is None:
                inv = []
                fz = H.facts
            H.facts = fz
            H = self.spec.loop_head(self, H, st, header) if hasattr(self.spec, "loop_head") else H
            self.enter(H, b, header, ov)
            hmem = dict(H.mem)
            fl = len(H.facts.ge), len(H.facts.ne)
            outs = self.explore([H.copy()], depth - 1, ctx)
            backs = [s for k, s, v in outs if k == "back"]
            exits = [s for k, s, v in outs if k == "exit"]
            rets = [(k, s, v) for k, s, v in outs if k == "ret"]
            changed = False
            # --- what varies?
            for s in backs:
                pb, _ = s.pending
                nxt = self.phi_in(s, header, pb)
                for i, v in nxt.items():
                    if i in varphi:
                        continue
                    if v != ov[i] and not (isinstance(v, Undef) and isinstance(ov[i], Undef)):
                        kind = {"ptr": "p", "fp": "f"}.get(ptype[i]["k"], "u" if ptype[i]["k"] == "int" and ptype[i]["w"] > 1 and False else "i")
                        varphi[i] = ("s", "v%d.%d" % (lid, i), kind)
                        changed = True
                for ra in base_ids:
                    r0, r1 = hmem.get(ra), s.mem.get(ra)
                    if r0 is None or r1 is None or r0 is r1:
                        continue
                    if r1.live != r0.live and ra not in livev:
                        if r0.kind == "alloca" and ra not in st.mem:
                            continue
                        livev.add(ra)
                        changed = True
                    for off, (sz, v) in r1.cells.items():
                        if (ra, off, sz) in varcell:
                            continue
                        o = r0.cells.get(off)
                        if o is None:
                            # read lazily (materialised input) or written?
                            if r0.kind == "input" and not s.x.get(("w", ra, off)):
                                continue
                            if r0.opaque and not s.x.get(("w", ra, off)):
                                continue
                            isf = isinstance(v, Flt)
                            varcell[(ra, off, sz)] = (("s", "m%d.%s.%s" % (lid, T.show_atom(ra), off), "f" if isf else self.vkind(v)), None, isf)
                            changed = True
                        elif o[1] != v:
                            isf = isinstance(v, Flt)
                            varcell[(ra, off, sz)] = (("s", "m%d.%s.%s" % (lid, T.show_atom(ra), off), "f" if isf else self.vkind(v, o[1])), o[1], isf)
                            changed = True
                    if len(r1.symw) != len(r0.symw) or r1.symw != r0.symw or (r1.opaque and not r0.opaque):
                        if ra not in opaque:
                            opaque.add(ra)
                            changed = True
            if changed:
                continue
            # --- closed forms for what varies
            newclosed = {}
            for i, a in varphi.items():
                k = ("p", i)
                if k in demoted or not isinstance(init[i], Lin):
                    continue
                steps = set()
                ok = True
                for s in backs:
                    pb, _ = s.pending
                    v = self.phi_in(s, header, pb)[i]
                    if not isinstance(v, Lin):
                        ok = False
                        break
                    steps.add(sub(v, ov[i]))
                if ok and len(steps) == 1:
                    stp = steps.pop()
                    if self.invariant(stp, varphi, varcell, kappa, lid):
                        newclosed[k] = (init[i], stp)
                        continue
                if k in closed:
                    demoted.add(k)
            for (ra, off, sz), (a, iv, isf) in varcell.items():
                k = ("c", ra, off, sz)
                if k in demoted or not isinstance(iv, Lin):
                    continue
                steps = set()
                ok = True
                for s in backs:
                    c = s.mem[ra].cells.get(off) if ra in s.mem else None
                    if c is None or c[0] != sz or not isinstance(c[1], Lin):
                        ok = False
                        break
                    cur = closed[k] if k in closed else None
                    hv = add(cur[0], self.times(cur[1], kappa)) if cur else A(a)
                    steps.add(sub(c[1], hv))
                if ok and len(steps) == 1:
                    stp = steps.pop()
                    if self.invariant(stp, varphi, varcell, kappa, lid):
                        newclosed[k] = (iv, stp)
                        continue
                if k in closed:
                    demoted.add(k)
            if newclosed != closed:
                closed = newclosed
                inv = []
                continue
            # --- inductive bounds on the iteration index
            ninv = self.bounds(st, H, backs, kappa, fl, varphi, varcell, lid) if closed else []
            if set(ninv) != set(inv):
                if not (set(ninv) <= set(inv)):
                    inv = ninv
                    continue
            break
        else:
            raise Incomplete("loop did not stabilise in %s" % f.fn["d"])
        # --- summary
        alts = []
        for s in backs:
            alts.append((tuple(s.events[ne:]), s.facts.ge[fl[0]:], s.facts.ne[fl[1]:], tuple(s.x.get("findings", ()))))
        res = []
        info = {"id": lid, "fn": f.fn["d"], "closed": dict(closed), "back": alts, "kappa": kappa,
                "loc": self.m.loc(f.fn["blocks"][header][-1].get("l") or f.fn["blocks"][header][0].get("l")),
                "init": dict(init), "phis": {i: ov[i] for i in ov}, "inv": tuple(inv),
                "next": [self.phi_in(s, header, s.pending[0]) for s in backs],
                "cells": {(ra, off): hmem[ra].cells.get(off) for (ra, off, sz) in varcell if ra in hmem},
                "cellnext": [{(ra, off): s.mem[ra].cells.get(off) for (ra, off, sz) in varcell if ra in s.mem} for s in backs],
                "opaque": set(opaque), "hfacts": H.facts}
        if not backs:
            for s in exits:
                res.append(s)
        bf = []
        for s in backs:
            for x in s.x.get("findings", ()):
                if x not in bf:
                    bf.append(x)
        for s in exits if backs else []:
            kx = ("s", "n%d" % self.bump(), "u")
            m = {aid(kappa): A(kx)}
            for i, a in varphi.items():
                m[aid(a)] = fatom(("s", a[1] + "x", a[2])) if a[2] == "f" else A(("s", a[1] + "x", a[2]))
            for _, (a, iv, isf) in varcell.items():
                m[aid(a)] = fatom(("s", a[1] + "x", "f")) if isf else A(("s", a[1] + "x", a[2]))
            suffix = s.events[ne:]
            s.events = s.events[:ne] + suffix
            if not s.rewrite(m, ne):
                continue
            n = self.solve_count(s, kx)
            if n is not None and n.single() != kx:
                if not s.rewrite({aid(kx): n}, ne):
                    continue
                cnt = n
            else:
                cnt = A(kx)
            inf2 = dict(info)
            inf2["count"] = cnt
            s.events = s.events[:ne] + [("loop", inf2)] + s.events[ne:]
            if bf:
                s.x["findings"] = list(s.x.get("findings", [])) + [x for x in bf if x not in s.x.get("findings", [])]
            res.append(s)
        if not exits and not rets:
            # a loop that never ends: keep what was found inside it
            for s in backs[:1]:
                s.dead = "endless"
                self.endless = getattr(self, "endless", []) + [(info["loc"], tuple(bf), H)]
        for k, s, v in rets:
            raise Incomplete("return inside a loop body")
        if self.spec and hasattr(self.spec, "loop_done"):
            self.spec.loop_done(self, info)
        return res

    def bump(self):
        self.n += 1
        return self.n

    def vkind(self, v, o=None):
        for x in (v, o):
            if isinstance(x, Lin):
                for a in x.atoms():
                    if a[0] in ("R", "G") or (a[0] == "s" and a[2] == "p"):
                        return "p"
        if isinstance(v, Lin) and v.const and v.c == 0 and isinstance(o, Lin) and o.const:
            return "i"
        return "i"

    def times(self, step, kappa):
        if not step.t:
            return A(kappa, step.c) if step.c else ZERO
        return mkop("mul", 64, step, A(kappa))

    def invariant(self, stp, varphi, varcell, kappa, lid):
        bad = {aid(a) for a in varphi.values()} | {aid(a) for a, _, _ in varcell.values()} | {aid(kappa)}
        ats = value_atoms(stp)
        if ats & bad:
            return False
        for i in ats:
            a = atom(i)
            if a[0] == "s" and a[1].split(".")[0] in ("v%d" % lid, "m%d" % lid):
                return False
        return True

    def bounds(self, st, H, backs, kappa, fl, varphi, varcell, lid):
        """inequalities on kappa that hold at the header in every iteration (inductive)"""
        ki = aid(kappa)
        cands = []
        for s in backs:
            for l in list(s.facts.ge[fl[0]:]):
                d = dict(l.t)
                if ki in d and d[ki] < 0:
                    # l(k) >= 0 held in an iteration that goes round, so l(k-1) >= 0 for k >= 1
                    c = add(l, C(-d[ki]))
                    cands.append(c)
            for l in list(s.facts.ne[fl[1]:]):
                d = dict(l.t)
                if ki in d:
                    c = l if d[ki] < 0 else scale(l, -1)
                    cands.append(c)
        out = []
        for c in dict.fromkeys(cands):
            if not self.invariant(Lin(c.c, tuple(x for x in c.t if x[0] != ki)), varphi, varcell, kappa, lid):
                continue
            # base: k = 0
            z = rewrite(c, {ki: ZERO})
            if not st.facts.entails(z):
                continue
            # step: on every back edge c(k) >= 0 and the path facts give c(k+1) >= 0
            nxt = rewrite(c, {ki: add(A(kappa), ONE)})
            ok = True
            for s in backs:
                fz = s.facts.with_ge(c)
                if fz is None:
                    continue
                if not fz.entails(nxt):
                    ok = False
                    break
            if ok:
                out.append(c)
        return out

    def solve_count(self, s, kx):
        ki = aid(kx)
        for l in list(s.facts.ge) + list(s.facts.ne):
            d = dict(l.t)
            if ki in d:
                k = d[ki]
                rest = Lin(l.c, tuple(x for x in l.t if x[0] != ki))
                if rest.c % k == 0 and all(c % k == 0 for _, c in rest.t):
                    e = Lin(-rest.c // k, tuple((i, -c // k) for i, c in rest.t))
                    df = sub(e, A(kx))
                    if s.facts.zero(df):
                        return e
        if s.facts.entails(scale(A(kx), -1)):
            return ZERO
        return None

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        k = v[0]
        if k == "v":
            try:
                return st.frames[-1].regs[v[2]]
            except KeyError:
                return UNDEF
        if k == "i":
            return C(v[2] & 1) if v[2] == -1 and self.ty(v[1])["w"] == 1 else C(v[2])
        if k == "n":
            return ZERO
        if k == "u":
            return self.undef_of(self.ty(v[1]))
        if k == "d":
            return fconst(Fraction(float(v[2]))) if v[2] not in ("inf", "-inf", "nan", "-nan") else fatom(("s", v[2], "f"))
        if k == "g":
            return add(A(("G", v[2])), C(v[3]))
        if k == "z":
            return self.zero_of(self.ty(v[1]))
        if k == "a":
            return Agg([self.val(st, x) for x in v[2]])
        raise Incomplete("constant %r" % (v,))

    def zero_of(self, ty):
        if ty["k"] in ("int", "ptr"):
            return ZERO
        if ty["k"] == "fp":
            return fconst(0)
        if ty["k"] in ("vec", "array"):
            return Agg([self.zero_of(self.ty(ty["e"]))] * ty["n"])
        if ty["k"] == "struct":
            return Agg([self.zero_of(self.ty(t)) for _, t in ty["f"]])
        raise Incomplete("zero of " + ty["k"])

    def undef_of(self, ty):
        if ty["k"] in ("vec", "array"):
            return Agg([self.undef_of(self.ty(ty["e"]))] * ty["n"])
        if ty["k"] == "struct":
            return Agg([self.undef_of(self.ty(t)) for _, t in ty["f"]])
        return UNDEF

    # ------------------------------------------------------------------ decisions
    def assume(self, st, facts):
        """-> state with facts, or None"""
        if facts is None:
            return None
        st.facts = facts
        return st

    def split_lin_eq(self, st, d):
        """d == 0 ?  -> [(state, True/False)]"""
        if d.const:
            return [(st, d.c == 0)]
        # distinct regions, null tests
        q = self.quick_eq(st, d)
        if q is not None:
            return [(st, q)]
        if st.facts.zero(d):
            return [(st, True)]
        if st.facts.nonzero(d):
            return [(st, False)]
        self.splitting(d)
        out = []
        s2 = st.copy()
        f = s2.facts.with_ge(d, scale(d, -1))
        if f is not None:
            s2.facts = f
            if self.unify(s2, d) and self.learn(s2, d):
                out.append((s2, True))
        f = st.facts.with_ne(d)
        if f is not None:
            st.facts = f
            if self.learn(st, d):
                out.append((st, False))
        return out

    def splitting(self, d):
        """a decision on d is about to be left open"""
        f = getattr(self.spec, "opaque", None)
        if f and any(f(atom(i)) for i, _ in d.t):
            raise Incomplete("a decision depends on a quantity that the domain does not relate to the contents")

    def learn(self, st, d):
        """a fact about d was assumed: False when the domain knows better"""
        f = getattr(self.spec, "learn", None)
        return f is None or f(st, d) is not False

    def unify(self, st, d):
        """d == 0 was assumed: eliminate a pointer symbol if possible"""
        cand = None
        for i, k in d.t:
            a = atom(i)
            if k in (1, -1) and a[0] == "s" and a[2] in ("p",):
                r = st.mem.get(a)
                if r is None:
                    cand = (i, k)
                    break
        if cand is None:
            for i, k in d.t:
                a = atom(i)
                if k in (1, -1) and a[0] == "op" and a[1] in ("ret",) and a not in st.mem:
                    cand = (i, k)
                    break
        if cand is None:
            return True
        i, k = cand
        rest = Lin(d.c, tuple(x for x in d.t if x[0] != i))
        return st.rewrite({i: scale(rest, -k)}, 0)

    def quick_eq(self, st, d):
        regs = [(i, k) for i, k in d.t if atom(i)[0] in ("R", "G") or atom(i) in st.mem]
        if len(d.t) == 1 and len(regs) == 1:
            return False            # object address (+ small constant) is never null
        if len(d.t) == 2 and len(regs) == 2 and {regs[0][1], regs[1][1]} == {1, -1}:
            # two distinct objects: addresses differ (offsets inside objects)
            return False
        return None

    def cmp_int(self, st, p, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef) or self.is_undef(a) or self.is_undef(b):
            self.finding(st, "uninit-use", self.cur, "comparison uses a value that was never set")
            s2 = st.copy()
            return [(st, True), (s2, False)]
        if w == 1:
            # booleans
            pass
        if p in ("eq", "ne"):
            r = self.split_lin_eq(st, sub(a, b))
            return [(s, v == (p == "eq")) for s, v in r]
        if a.const and b.const:
            x, y = a.c, b.c
            if p[0] == "u":
                m = (1 << w) - 1
                x &= m
                y &= m
            r = {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]]
            return [(st, r)]
        if p[0] == "u":
            # unsigned reading of negative constants
            if a.const and a.c < 0:
                a = C(a.c & ((1 << w) - 1))
            if b.const and b.c < 0:
                b = C(b.c & ((1 << w) - 1))
            if b.const and b.c == 0 and p == "ult":
                return [(st, False)]
            if b.const and b.c == 0 and p == "uge":
                return [(st, True)]
            # a difference below zero has wrapped around
            for k, x in ((0, a), (1, b)):
                if w <= 64 and self.may_wrap(st, x):
                    out = []
                    s2 = st.copy()
                    f = s2.facts.with_ge(x)
                    if f is not None:
                        s2.facts = f
                        out += self.cmp_int(s2, p, a, b, w)
                    f = st.facts.with_ge(add(scale(x, -1), C(-1)))
                    if f is not None:
                        st.facts = f
                        y = add(x, C(1 << w))
                        out += self.cmp_int(st, p, y if k == 0 else a, y if k else b, w)
                    return out
        # two different objects: one lies entirely before the other
        dd = sub(a, b)
        regs = [(i, k) for i, k in dd.t if isinstance(self.extent(st, atom(i)), Lin)]
        if len(regs) == 2 and {regs[0][1], regs[1][1]} == {1, -1}:
            x, y = atom(regs[0][0]), atom(regs[1][0])
            o1 = sub(sub(A(y), A(x)), self.extent(st, x))
            o2 = sub(sub(A(x), A(y)), self.extent(st, y))
            if not st.facts.entails(o1) and not st.facts.entails(o2):
                out = []
                for o in (o1, o2):
                    f = st.facts.with_ge(o)
                    if f is not None:
                        s2 = st.copy()
                        s2.facts = f
                        out += self.cmp_int(s2, p, a, b, w)
                return out
        # goal >= 0 when true
        if p[1:] == "gt":
            g = add(sub(a, b), C(-1))
        elif p[1:] == "ge":
            g = sub(a, b)
        elif p[1:] == "lt":
            g = add(sub(b, a), C(-1))
        else:
            g = sub(b, a)
        ng = add(scale(g, -1), C(-1))
        if st.facts.entails(g):
            return [(st, True)]
        if st.facts.entails(ng):
            return [(st, False)]
        self.splitting(g)
        out = []
        s2 = st.copy()
        f = s2.facts.with_ge(g)
        if f is not None:
            s2.facts = f
            if self.learn(s2, g):
                out.append((s2, True))
        f = st.facts.with_ge(ng)
        if f is not None:
            st.facts = f
            if self.learn(st, g):
                out.append((st, False))
        return out

    def extent(self, st, a):
        """size of the object that a names, if known"""
        if a in st.mem:
            return st.mem[a].size
        if a[0] == "G":
            g = self.m.globals.get(a[1])
            if g and "init" in g:
                n = self.m.types[g["init"][1]].get("sz")
                return C(n) if isinstance(n, int) else None
        return None

    def may_wrap(self, st, x):
        """a signed quantity of known range read as unsigned"""
        if not x.t or any(atom(i)[0] != "s" or len(atom(i)) < 3 or atom(i)[2] != "i" for i, _ in x.t):
            return False
        return not st.facts.entails(x) and st.facts.entails(add(x, C(1 << 31)))

    def is_undef(self, v):
        return isinstance(v, Lin) and any(atom(i)[0] == "undef" for i, _ in v.t)

    REL = {"eq": "=", "gt": ">", "ge": ">=", "lt": "<", "le": "<=", "ne": "<>", "ord": "<=>", "false": "", "true": "<=>U"}

    def cmp_float(self, st, p, a, b):
        if p == "ord":
            t = frozenset("<=>")
        elif p == "uno":
            t = frozenset("U")
        elif p in ("true", "false"):
            return [(st, p == "true")]
        else:
            t = frozenset(self.REL[p[1:]]) | (frozenset("U") if p[0] == "u" else frozenset())
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.finding(st, "uninit-use", self.cur, "comparison uses a value that was never set")
            return [(st, True), (st.copy(), False)]
        if a.const and b.const:
            x, y = a.value(), b.value()
            return [(st, ("<" if x < y else ">" if x > y else "=") in t)]
        d = fadd(a, b, -1)
        v = closed_value(d)
        if v is not None and abs(v) > 1e-9:
            return [(st, ("<" if v < 0 else ">") in t)]
        d = fmul(d, fconst(1 / abs(d.p[-1][1]))) if d.p else d
        nd = fadd(fconst(0), d, -1)
        if nd.p < d.p:
            d = nd
            t = frozenset({"<": ">", ">": "<"}.get(x, x) for x in t)
        key = (d, ZERO)
        cur = st.facts.rel.get(key, frozenset("<=>U"))
        y, n = cur & t, cur - t
        out = []
        if y and n:
            s2 = st.copy()
            s2.facts = Facts(s2.facts.ge, s2.facts.ne, {**s2.facts.rel, key: y})
            out.append((s2, True))
            st.facts = Facts(st.facts.ge, st.facts.ne, {**st.facts.rel, key: n})
            out.append((st, False))
        else:
            out.append((st, bool(y)))
        return out

    def truth(self, st, v):
        """decide a boolean value: [(state, bool)]"""
        if isinstance(v, Undef) or self.is_undef(v):
            self.finding(st, "uninit-use", self.cur, "branch on a value that was never set")
            return [(st, True), (st.copy(), False)]
        if v.const:
            return [(st, bool(v.c & 1))]
        a = v.single()
        neg = False
        if a is None and v.c == 1 and len(v.t) == 1 and v.t[0][1] == -1:
            a = atom(v.t[0][0])
            neg = True
        if a is None:
            a = ("op", "truth", 1, v)
        i = aid(a)
        if i in st.bools:
            return [(st, st.bools[i] != neg)]
        s2 = st.copy()
        s2.bools[i] = True
        st.bools[i] = False
        ok2 = s2.rewrite({i: ONE}) if a[0] == "s" else True
        ok1 = st.rewrite({i: ZERO}) if a[0] == "s" else True
        return ([(s2, not neg)] if ok2 else []) + ([(st, neg)] if ok1 else [])

    # ------------------------------------------------------------------ memory
    def locate(self, st, ptr, ins):
        """-> [(state, region atom, offset Lin)]"""
        if not isinstance(ptr, Lin):
            if not isinstance(ptr, Undef):
                raise Incomplete("dereference of an aggregate")
            self.finding(st, "bad-deref", ins, "dereference of an undefined pointer")
            self.drop(st)
            return []
        if self.is_undef(ptr):
            self.finding(st, "bad-deref", ins, "dereference of an uninitialised pointer")
            self.drop(st)
            return []
        cands = []
        for i, k in ptr.t:
            if k == 1:
                a = atom(i)
                if a in st.mem or a[0] in ("R", "G"):
                    cands.append((3, a))
                elif a[0] == "s" and a[2] == "p":
                    cands.append((2, a))
                elif a[0] == "op" and a[1] == "ret":
                    cands.append((2, a))
                elif a[0] == "s" and a[2] != "f":
                    cands.append((1, a))
                elif a[0] == "op":
                    cands.append((0, a))
        if not cands:
            if ptr.const:
                self.finding(st, "null-deref", ins, "dereference of a null pointer (+%d)" % ptr.c)
                self.drop(st)
                return []
            raise Incomplete("address %s at %s" % (T.show(ptr), self.m.loc(ins.get("l"))))
        cands.sort(key=lambda x: -x[0])
        a = cands[0][1]
        if len(cands) > 1 and cands[1][0] == 3 and cands[0][0] == 3:
            raise Incomplete("ambiguous address %s" % T.show(ptr))
        off = sub(ptr, A(a))
        if a not in st.mem:
            if a[0] == "G":
                g = self.m.globals.get(a[1])
                r = Region("global", self.extent(st, a), {"name": a[1]})
                st.mem[a] = r
                st.own.add(a)
                if g and "init" in g and (g["const"] or self.spec_global_init(a[1])):
                    self.init_cells(r, 0, g["init"])
                return [(st, a, off)]
            # symbolic pointer: maybe null?
            if not st.facts.nonzero(A(a)):
                self.finding_maybe_null(st, a, ins)
                f = st.facts.with_ne(A(a))
                if f is None:
                    return []
                st.facts = f
            out = []
            for s in self.spec.deref(self, st, a, ins):
                # the hook may have replaced the atom (aliasing)
                if a in s.mem:
                    out.append((s, a, off))
                else:
                    alias = s.x.pop("alias", None)
                    if alias is None:
                        raise Incomplete("deref hook gave no object for " + T.show_atom(a))
                    out.append((s, alias, off))
            return out
        return [(st, a, off)]

    def spec_global_init(self, name):
        f = getattr(self.spec, "global_init", None)
        return f(name) if f else False

    def finding_maybe_null(self, st, a, ins):
        self.finding(st, "maybe-null", ins, "dereference of a pointer that may be null: " + T.show_atom(a))

    def drop(self, st):
        """the abstract path ends here with a definite error: keep its findings"""
        self.findings.extend(st.x.get("findings", []))
        self.dropped = getattr(self, "dropped", [])
        self.dropped.append(st)

    def init_cells(self, r, off, c):
        ty = self.ty(c[1])
        k = c[0]
        if k == "a":
            if ty["k"] == "struct":
                for (o, t), x in zip(ty["f"], c[2]):
                    self.init_cells(r, off + o, x)
            else:
                es = self.ty(ty["e"])["sz"]
                for i, x in enumerate(c[2]):
                    self.init_cells(r, off + i * es, x)
        elif k == "z":
            self.zero_cells(r, off, ty)
        elif k in ("i", "n", "g", "d"):
            r.cells[off] = (ty["sz"], self.val(None, c))

    def zero_cells(self, r, off, ty):
        if ty["k"] == "struct":
            for o, t in ty["f"]:
                self.zero_cells(r, off + o, self.ty(t))
        elif ty["k"] in ("array", "vec"):
            e = self.ty(ty["e"])
            for i in range(min(ty["n"], 64)):
                self.zero_cells(r, off + i * e["sz"], e)
        else:
            r.cells[off] = (ty["sz"], self.zero_of(ty))

    def check_live(self, st, a, r, ins, what):
        if r.live is False:
            self.finding(st, "use-after-free", ins, "%s of freed object %s" % (what, T.show_atom(a)))
        elif r.live == "stack":
            self.finding(st, "dangling-stack", ins, "%s of a local of a finished call" % what)

    def check_bounds(self, st, a, r, off, sz, ins, what):
        z = r.size
        if isinstance(z, int):
            z = C(z)
        if r.kind in ("heap", "alloca", "input", "global") and isinstance(z, Lin) and z.const and off.const and not 0 <= off.c <= z.c - sz:
            self.finding(st, "out-of-bounds", ins, "%s of %d bytes at offset %d of a block of %d bytes" % (what, sz, off.c, z.c))
            if self.spec.stop_outside:
                self.drop(st)
                return True
        return False

    def load(self, st, ptr, ty, ins):
        if ty["k"] == "vec" or ty["k"] == "array":
            e = self.ty(ty["e"])
            return self.load_many(st, ptr, [(i * e["sz"], e) for i in range(ty["n"])], ins)
        if ty["k"] == "struct":
            return self.load_many(st, ptr, [(o, self.ty(t)) for o, t in ty["f"]], ins)
        out = []
        for s, a, off in self.locate(st, ptr, ins):
            r = s.mem[a]
            self.check_live(s, a, r, ins, "read")
            if self.spec.bounds and self.check_bounds(s, a, r, off, ty["sz"], ins, "read"):
                continue
            if self.spec.record_loads and r.kind != "alloca":
                s.events.append(("ld", a, off, ty["sz"], self.m.loc(ins.get("l"))))
            out.extend((s2, self.retype(v, ty)) for s2, v in self.read(s, a, off, ty["sz"], ty))
        return out

    @staticmethod
    def retype(v, ty):
        """constants stored as one kind of number and read as the other"""
        if ty["k"] == "fp" and isinstance(v, Lin) and v.const and ty["sz"] in (4, 8):
            import struct
            x = struct.unpack("<f" if ty["sz"] == 4 else "<d", (v.c & ((1 << 8 * ty["sz"]) - 1)).to_bytes(ty["sz"], "little"))[0]
            if x == x and abs(x) != float("inf"):
                return fconst(Fraction(x))
        return v

    def check_align(self, st, p, ins):
        """vector accesses to locals that demand more alignment than the address has"""
        for i in T.value_atoms(p):
            r = st.mem.get(T.atom(i)) if hasattr(st.mem, "get") else None
            d = sub(p, A(T.atom(i)))
            if r is not None and r.kind == "alloca" and d.const:
                al = (r.info or {}).get("al", 1)
                if al >= ins["al"] and d.c % ins["al"]:
                    self.finding(st, "align", ins, "access needs an address aligned to %d, this one is %d bytes off" % (ins["al"], d.c % ins["al"]))
                return

    def load_many(self, st, ptr, parts, ins):
        cur = [(st, [])]
        for o, t in parts:
            nxt = []
            for s, vs in cur:
                for s2, v in self.load(s, add(ptr, C(o)), t, ins):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return [(s, Agg(vs)) for s, vs in cur]

    def read(self, st, a, off, sz, ty):
        r = st.mem[a]
        if r.info and "seq" in r.info:
            return self.spec.seq_load(self, st, a, off, sz, ty)
        if off.const:
            o = off.c
            c = r.cells.get(o)
            if c is not None and c[0] == sz:
                v = c[1]
                # a later symbolic write may overlap; those cells were dropped at the write
                return [(st, v)]
            # overlapping cells of other sizes
            over = sorted((p, z, v) for p, (z, v) in r.cells.items() if p < o + sz and o < p + z)
            if over:
                if len(over) == 1 and over[0][0] <= o and over[0][0] + over[0][1] >= o + sz:
                    p, z, v = over[0]
                    if isinstance(v, Lin):
                        if v.const:
                            return [(st, C(T._signed((v.c & ((1 << (8 * z)) - 1)) >> (8 * (o - p)), 8 * sz)))]
                        sa = v.single()
                        if sa is not None and sa[0] == "op" and sa[1] == "cat":
                            # piece of a concatenation
                            pos = p
                            for psz, pv in zip(sa[3::2], sa[4::2]):
                                if pos == o and psz == sz:
                                    return [(st, pv)]
                                pos += psz
                        return [(st, mkop("ext", 8 * sz, v, C(o - p)))]
                    return [(st, mkop("fext", 8 * sz, v, C(o - p)))]
                # gather pieces
                pieces, pos, cur = [], o, [(st, [])]
                while pos < o + sz:
                    nx = [x for x in over if x[0] >= pos]
                    e = nx[0][0] if nx else o + sz
                    if nx and nx[0][0] == pos and pos + nx[0][1] <= o + sz:
                        cur = [(s, l + [(nx[0][1], nx[0][2])]) for s, l in cur]
                        pos += nx[0][1]
                    else:
                        # hole
                        h = e - pos
                        if h <= 0:
                            break
                        nc = []
                        for s, l in cur:
                            for s2, v in self.read(s, a, C(pos), h, {"k": "int", "w": 8 * h, "sz": h}):
                                nc.append((s2, l + [(h, v)]))
                        cur = nc
                        pos += h
                res = []
                for s, l in cur:
                    if len(l) == 1:
                        res.append((s, l[0][1]))
                        continue
                    args = []
                    for z, v in l:
                        args += [z, v]
                    if all(isinstance(v, Lin) and v.const for _, v in l):
                        n, sh = 0, 0
                        for z, v in l:
                            n |= (v.c & ((1 << (8 * z)) - 1)) << sh
                            sh += 8 * z
                        res.append((s, C(T._signed(n, 8 * sz))))
                        continue
                    res.append((s, A(("op", "cat", 8 * sz) + tuple(args))))
                return res
            # symbolic writes that may hit
            for so, ssz, sv in reversed(r.symw):
                if so == off and ssz == sz:
                    return [(st, sv)]
                if not self.disjoint(st, so, ssz, off, sz):
                    return [(st, self.unknown(ty))]
            if r.opaque:
                v = self.unknown(ty)
                r = st.region(a, True)
                r.cells[o] = (sz, v)
                return [(st, v)]
            if r.kind in ("alloca", "heap"):
                return [(st, A(("undef", aid(a), o)) if ty["k"] != "fp" else fatom(("undef", aid(a), o)))]
            out = []
            for s, v in self.spec.materialize(self, st, a, o, sz, ty):
                rr = s.region(a, True)
                rr.cells[o] = (sz, v)
                out.append((s, v))
            return out
        # symbolic offset
        for so, ssz, sv in reversed(r.symw):
            if so == off and ssz == sz:
                return [(st, sv)]
            if not self.disjoint(st, so, ssz, off, sz):
                return [(st, self.unknown(ty))]
        for o, (z, v) in r.cells.items():
            if z == sz and st.facts.zero(sub(off, C(o))):
                return [(st, v)]
        res = self.spec.materialize(self, st, a, off, sz, ty)
        out = []
        for s, v in res:
            rr = s.region(a, True)
            rr.symw.append((off, sz, v))
            out.append((s, v))
        return out

    def unknown(self, ty):
        if ty["k"] == "fp":
            return fatom(self.fresh("u", "f"))
        return A(self.fresh("u", "p" if ty["k"] == "ptr" else "i"))

    def disjoint(self, st, o1, s1, o2, s2):
        d = sub(o1, o2)
        if d.const:
            return d.c >= s2 or d.c <= -s1
        return st.facts.entails(add(d, C(-s2))) or st.facts.entails(add(scale(d, -1), C(-s1)))

    def store(self, st, ptr, v, ty, ins):
        if ty["k"] in ("vec", "array", "struct"):
            if ty["k"] == "struct":
                parts = [(o, self.ty(t)) for o, t in ty["f"]]
            else:
                e = self.ty(ty["e"])
                parts = [(i * e["sz"], e) for i in range(ty["n"])]
            cur = [st]
            vs = v.e if isinstance(v, Agg) else [UNDEF] * len(parts)
            for (o, t), x in zip(parts, vs):
                cur = [s2 for s in cur for s2 in self.store(s, add(ptr, C(o)), x, t, ins)]
            return cur
        out = []
        for s, a, off in self.locate(st, ptr, ins):
            self.check_live(s, a, s.mem[a], ins, "write")
            if self.spec.bounds and self.check_bounds(s, a, s.mem[a], off, ty["sz"], ins, "write"):
                continue
            self.write(s, a, off, ty["sz"], v, ins)
            out.append(s)
        return out

    def write(self, st, a, off, sz, v, ins):
        r = st.region(a, True)
        if self.spec.record_stores and r.kind != "alloca":
            st.events.append(("st", a, off, sz, v, self.m.loc(ins.get("l")) if ins else "?"))
        if r.info and "seq" in r.info:
            if not self.spec.record_stores:
                st.events.append(("st", a, off, sz, v, self.m.loc(ins.get("l")) if ins else "?"))
            return
        if off.const:
            o = off.c
            for p in [p for p, (z, _) in r.cells.items() if p < o + sz and o < p + z and not (p == o and z == sz)]:
                z, pv = r.cells.pop(p)
                # keep the parts that are not overwritten when it is a constant
                if isinstance(pv, Lin) and pv.const:
                    n = pv.c & ((1 << (8 * z)) - 1)
                    for b in range(z):
                        if not (o <= p + b < o + sz):
                            r.cells[p + b] = (1, C((n >> (8 * b)) & 255))
            sa = v.single() if isinstance(v, Lin) else None
            if sa is not None and sa[0] == "op" and sa[1] == "cat" and sum(sa[3::2]) == sz:
                pos = o
                for psz, pv in zip(sa[3::2], sa[4::2]):
                    r.cells[pos] = (psz, pv)
                    st.x[("w", a, pos)] = 1
                    pos += psz
            else:
                r.cells[o] = (sz, v)
                st.x[("w", a, o)] = 1
            if r.symw:
                r.symw = [w for w in r.symw if self.disjoint(st, w[0], w[1], off, sz)]
        else:
            for p in list(r.cells):
                z = r.cells[p][0]
                if not self.disjoint(st, C(p), z, off, sz):
                    del r.cells[p]
                    r.symw.append((C(p), z, self.unknown({"k": "int"})))
            r.symw = [w for w in r.symw if w[0] != off or w[1] != sz]
            r.symw = [w if self.disjoint(st, w[0], w[1], off, sz) else (w[0], w[1], self.unknown({"k": "int"})) for w in r.symw]
            r.symw.append((off, sz, v))

    # ------------------------------------------------------------------ execution
    def run_block(self, st, floor):
        """runs one state to its next control transfer; -> [(kind, state, value)]"""
        while True:
            f = st.frames[-1]
            ins = f.fn["blocks"][f.bb][f.ip]
            self.steps += 1
            if self.steps > self.spec.max_steps:
                raise Incomplete("step budget exceeded in " + f.fn["d"])
            if self.spec.deadline and self.steps % 256 == 0 and time.time() > self.spec.deadline:
                raise Incomplete("time budget exceeded in " + f.fn["d"])
            self.cur = ins
            op = ins["op"]
            if op == "ret":
                v = self.val(st, ins["a"][0]) if ins["a"] else None
                self.leave(st)
                if len(st.frames) == floor:
                    return [("ret", st, v)]
                if f.ret is not None:
                    st.frames[-1].regs[f.ret] = v
                continue
            if op == "unreachable":
                self.finding(st, "unreachable", ins, "control reaches a point with no defined continuation (missing return?)")
                self.drop(st)
                return []
            if op == "br":
                if "c" not in ins:
                    st.pending = (f.bb, ins["s"][0])
                    return [("run", st, None)]
                out = []
                for s, b in self.truth(st, self.val(st, ins["c"])):
                    s.pending = (f.bb, ins["s"][0 if b else 1])
                    s.path.append((self.m.loc(ins.get("l")), b))
                    out.append(("run", s, None))
                return out
            if op == "switch":
                v = self.val(st, ins["c"])
                cur, out = [st], []
                w = self.ty(ins["c"][1])["w"]
                for cv, tgt in ins["cases"]:
                    nxt = []
                    for s in cur:
                        for s2, b in self.cmp_int(s, "eq", v, self.val(s, cv), w):
                            if b:
                                s2.pending = (f.bb, tgt)
                                s2.path.append((self.m.loc(ins.get("l")), T.show(self.val(s2, cv))))
                                out.append(("run", s2, None))
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    s.pending = (f.bb, ins["def"])
                    s.path.append((self.m.loc(ins.get("l")), "default"))
                    out.append(("run", s, None))
                return out
            r = self.step(st, ins, op)
            if r is None:
                f.ip += 1
                continue
            if r == "pushed":
                continue
            return [("run", s, None) for s in r]

    def leave(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            r = st.mem.get(a)
            if r is not None:
                r = st.region(a, True)
                r.live = "stack"

    def setr(self, st, ins, v):
        st.frames[-1].regs[ins["id"]] = v

    def forks(self, ins, pairs):
        """continue after ins in each (state, value)"""
        out = []
        for s, v in pairs:
            if "id" in ins:
                s.frames[-1].regs[ins["id"]] = v
            s.frames[-1].ip += 1
            out.append(s)
        return out

    def step(self, st, ins, op):
        if op == "alloca":
            n = self.val(st, ins["a"][0])
            a = self.new_region(st, "alloca", ins["sz"], {"name": "local", "al": ins.get("al", 1)})
            st.frames[-1].allocas.append(a)
            self.setr(st, ins, A(a))
            return None
        if op == "load":
            if "ord" in ins or ins.get("vol"):
                st.events.append(("aload", self.val(st, ins["a"][0]), ins.get("ord"), self.m.loc(ins.get("l"))))
            p = self.val(st, ins["a"][0])
            if self.spec.watch and "ord" not in ins and self.spec.watch(st, p):
                st.events.append(("plain", "load", p, None, self.m.loc(ins.get("l"))))
            if ins.get("al", 1) > 1:
                self.check_align(st, p, ins)
            r = self.load(st, p, self.ty(ins["t"]), ins)
            if len(r) == 1 and r[0][0] is st:
                self.setr(st, ins, r[0][1])
                return None
            return self.forks(ins, r)
        if op == "store":
            v, p = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            ty = self.ty(ins["a"][0][1])
            if "ord" in ins:
                st.events.append(("astore", p, v, ins["ord"], self.m.loc(ins.get("l"))))
            elif self.spec.watch and self.spec.watch(st, p):
                st.events.append(("plain", "store", p, v, self.m.loc(ins.get("l"))))
            if ins.get("al", 1) > 1:
                self.check_align(st, p, ins)
            r = self.store(st, p, v, ty, ins)
            if len(r) == 1 and r[0] is st:
                return None
            for s in r:
                s.frames[-1].ip += 1
            return r
        if op == "getelementptr":
            b = self.val(st, ins["a"][0])
            if isinstance(b, Undef):
                self.setr(st, ins, UNDEF)
                return None
            o = add(b, C(ins["off"]))
            for v, sc in ins["vars"]:
                x = self.val(st, v)
                if isinstance(x, Undef):
                    self.setr(st, ins, UNDEF)
                    return None
                o = add(o, scale(x, sc))
            for v, n in ins.get("arr", ()):
                x = self.val(st, v)
                if isinstance(x, Lin):
                    if x.const and x.c >= 1 << 63:
                        x = C(x.c - (1 << 64))
                    lim = n - 1 if ins.get("used") else n
                    if (x.const and not 0 <= x.c <= lim) or (not x.const and (st.facts.entails(add(x, C(-lim - 1))) or st.facts.entails(sub(C(-1), x)))):
                        self.finding(st, "out-of-bounds", ins, "index %s of an array of %d elements" % (T.show(x), n))
            self.setr(st, ins, o)
            return None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            ty = self.ty(ins["t"])
            r = self.binop(op, a, b, ty)
            if op == "and" and ty["k"] == "int" and isinstance(a, Lin) and isinstance(b, Lin):
                r = self.mask(st, a, b, r)
            if self.spec.exact_bytes and ty["k"] == "int" and ty["w"] == 8 and op in ("add", "sub") and isinstance(r, Lin) and r.t:
                k = self.exact_byte(st, "trunc", r, 16, 8)
                if k is not None:
                    return self.forks(ins, k)
            self.setr(st, ins, r)
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            self.setr(st, ins, self.fbin(op, a, b))
            return None
        if op == "fneg":
            a = self.val(st, ins["a"][0])
            self.setr(st, ins, self.map1(a, lambda x: fmul(x, fconst(-1))))
            return None
        if op == "icmp":
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            ty = self.ty(ins["a"][0][1])
            w = ty.get("w", 64)
            if isinstance(a, Agg):
                raise Incomplete("vector compare")
            r = self.cmp_int(st, ins["p"], a, b, w)
            if len(r) == 1 and r[0][0] is st:
                self.setr(st, ins, ONE if r[0][1] else ZERO)
                return None
            return self.forks(ins, [(s, ONE if v else ZERO) for s, v in r])
        if op == "fcmp":
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            if isinstance(a, Agg):
                raise Incomplete("vector compare")
            r = self.cmp_float(st, ins["p"], a, b)
            return self.forks(ins, [(s, ONE if v else ZERO) for s, v in r])
        if op == "select":
            c, a, b = [self.val(st, x) for x in ins["a"]]
            r = self.truth(st, c)
            # values may have been rewritten by the split: fetch again
            return self.forks(ins, [(s, self.val(s, ins["a"][1 if v else 2])) for s, v in r])
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, ins["a"][0])
            t0, t1 = self.ty(ins["a"][0][1]), self.ty(ins["t"])
            if self.spec.exact_bytes and isinstance(v, Lin) and v.t and t0["k"] == t1["k"] == "int":
                r = self.exact_byte(st, op, v, t0["w"], t1["w"])
                if r is not None:
                    return self.forks(ins, r)
            self.setr(st, ins, self.conv(st, op, v, t0, t1))
            return None
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(st, ins["a"][0])
            t0, t1 = self.ty(ins["a"][0][1]), self.ty(ins["t"])
            if op == "bitcast" and t0["k"] != t1["k"]:
                v = self.bitcast(v, t0, t1)
            self.setr(st, ins, v)
            return None
        if op in ("fptrunc", "fpext"):
            self.setr(st, ins, self.val(st, ins["a"][0]))
            return None
        if op in ("sitofp", "uitofp"):
            v = self.val(st, ins["a"][0])
            self.setr(st, ins, self.tofp(v))
            return None
        if op in ("fptosi", "fptoui"):
            v = self.val(st, ins["a"][0])
            if isinstance(v, Flt) and v.const:
                self.setr(st, ins, C(int(v.value())))
            else:
                self.setr(st, ins, mkop("toint", self.ty(ins["t"])["w"], v))
            return None
        if op == "extractvalue":
            v = self.val(st, ins["a"][0])
            for i in ins["ix"]:
                v = v.e[i] if isinstance(v, Agg) else UNDEF
            self.setr(st, ins, v)
            return None
        if op == "insertvalue":
            v, x = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            self.setr(st, ins, self.insert(v, x, ins["ix"], self.ty(ins["t"])))
            return None
        if op == "extractelement":
            v, i = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            self.setr(st, ins, v.e[i.c] if isinstance(v, Agg) else UNDEF)
            return None
        if op == "insertelement":
            v, x, i = [self.val(st, y) for y in ins["a"]]
            if not isinstance(v, Agg):
                v = self.undef_of(self.ty(ins["t"]))
            e = list(v.e)
            e[i.c] = x
            self.setr(st, ins, Agg(e))
            return None
        if op == "shufflevector":
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            n = self.ty(ins["a"][0][1])["n"]
            ea = a.e if isinstance(a, Agg) else [UNDEF] * n
            eb = b.e if isinstance(b, Agg) else [UNDEF] * n
            al = list(ea) + list(eb)
            self.setr(st, ins, Agg([UNDEF if m < 0 else al[m] for m in ins["mask"]]))
            return None
        if op == "call":
            return self.call(st, ins)
        if op == "atomicrmw":
            p, v = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            st.events.append(("rmw", p, ins["rmw"], v, ins["ord"], self.m.loc(ins.get("l"))))
            ty = self.ty(ins["t"])
            out = []
            for s, old in self.load(st, p, ty, ins):
                new = self.rmw(ins["rmw"], old, v)
                for s2 in self.store(s, p, new, ty, ins):
                    out.append((s2, old))
            return self.forks(ins, out)
        if op == "cmpxchg":
            p, e, v = [self.val(st, x) for x in ins["a"]]
            st.events.append(("cas", p, e, v, ins["ord"], ins["ford"], ins["weak"], self.m.loc(ins.get("l"))))
            ty = self.ty(ins["a"][1][1])
            out = []
            for s, old in self.load(st, p, ty, ins):
                s2 = s.copy()
                b = self.fresh("cas", "i")
                for s3 in self.store(s2, p, v, ty, ins):
                    s3.x["cas"] = True
                    out.append((s3, Agg([old, ONE])))
                s.x["cas"] = False
                out.append((s, Agg([old, ZERO])))
            return self.forks(ins, out)
        if op == "fence":
            st.events.append(("fence", ins["ord"], self.m.loc(ins.get("l"))))
            return None
        raise Incomplete("instruction " + op)

    def rmw(self, k, old, v):
        if k == "xchg":
            return v
        if k == "add":
            return add(old, v)
        if k == "sub":
            return sub(old, v)
        return mkop(k, 64, old, v)

    def map1(self, a, f):
        return Agg([f(x) for x in a.e]) if isinstance(a, Agg) else (UNDEF if isinstance(a, Undef) else f(a))

    def tofp(self, v):
        if isinstance(v, Undef):
            return v
        if v.const:
            return fconst(v.c)
        out = fconst(v.c)
        for i, k in v.t:
            a = atom(i)
            if a[0] == "mono":
                t = fconst(k)
                for j in a[1:]:
                    t = fmul(t, fatom(("fop", "int", Lin(0, ((j, 1),)))))
            else:
                t = fmul(fconst(k), fatom(("fop", "int", Lin(0, ((i, 1),)))))
            out = fadd(out, t)
        return out

    def bitcast(self, v, t0, t1):
        if isinstance(v, Undef):
            return v
        if t0["k"] == "vec" and t1["k"] == "vec":
            return v
        if isinstance(v, Flt):
            return mkop("bits", 32, v)
        if isinstance(v, Lin) and t1["k"] == "fp":
            a = v.single()
            if a is not None and a[0] == "op" and a[1] == "bits":
                return a[3]
            return fatom(("fop", "frombits", v))
        raise Incomplete("bitcast %s to %s" % (t0["k"], t1["k"]))

    def insert(self, v, x, ix, ty):
        if not isinstance(v, Agg):
            v = self.undef_of(ty)
        e = list(v.e)
        if len(ix) == 1:
            e[ix[0]] = x
        else:
            sub_t = self.ty(ty["f"][ix[0]][1]) if ty["k"] == "struct" else self.ty(ty["e"])
            e[ix[0]] = self.insert(e[ix[0]], x, ix[1:], sub_t)
        return Agg(e)

    def fbin(self, op, a, b):
        if isinstance(a, Agg):
            return Agg([self.fbin(op, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if op == "fadd":
            return fadd(a, b)
        if op == "fsub":
            return fadd(a, b, -1)
        if op == "fmul":
            return fmul(a, b)
        if op == "fdiv":
            return fdiv(a, b)
        return fcall(op, a, b)

    def mask(self, st, a, b, r):
        """low bits of an address inside a block of known alignment"""
        if b.t:
            a, b = b, a
        if b.t or not a.t or b.c <= 0:
            return r
        for i, k in a.t:
            g = st.mem.get(atom(i))
            al = (g.info or {}).get("align") if g is not None else None
            al = al.c if isinstance(al, Lin) and al.const else None
            if not al or al * k % (1 << b.c.bit_length()):
                return r
        return C(a.c & b.c)

    def binop(self, op, a, b, ty):
        if ty["k"] == "vec":
            e = self.ty(ty["e"])
            return Agg([self.binop(op, x, y, e) for x, y in zip(a.e, b.e)])
        if isinstance(a, Undef) or isinstance(b, Undef):
            if op == "and" and (a == ZERO or b == ZERO):
                return ZERO
            return UNDEF
        w = ty["w"]
        if op == "add":
            r = add(a, b)
        elif op == "sub":
            r = sub(a, b)
        else:
            r = mkop(op, w, a, b)
        if isinstance(r, Lin) and r.const:
            r = C(T._signed(r.c, w))
        elif isinstance(r, Lin) and w < 64 and abs(r.c) >= (1 << (w - 1)):
            r = Lin(T._signed(r.c, w), r.t)
        return r

    def exact_byte(self, st, op, v, w0, w1):
        """conversions of characters, by cases of the value"""
        if op == "zext" and w0 == 8:
            cases = ((C(-128), C(-1), 256), (ZERO, C(127), 0))
        elif op == "trunc" and w1 == 8:
            cases = tuple((C(-128 + 256 * k), C(127 + 256 * k), -256 * k) for k in (0, 1, -1, 2, -2))
        else:
            return None
        if not st.facts.entails(sub(v, min((c[0] for c in cases), key=lambda x: x.c))) or not st.facts.entails(sub(max((c[1] for c in cases), key=lambda x: x.c), v)):
            return None
        out = []
        for lo, hi, d in cases:
            f = st.facts.with_ge(sub(v, lo), sub(hi, v))
            if f is not None:
                s2 = st.copy()
                s2.facts = f
                out.append((s2, add(v, C(d))))
        return out

    def conv(self, st, op, v, t0, t1):
        if isinstance(v, Agg):
            return Agg([self.conv(st, op, x, self.ty(t0["e"]), self.ty(t1["e"])) for x in v.e])
        if isinstance(v, Undef):
            return v
        w0, w1 = t0["w"], t1["w"]
        if v.const:
            if op == "zext":
                return C(v.c & ((1 << w0) - 1))
            if op == "trunc":
                if w1 == 1:
                    return C(v.c & 1)
                return C(T._signed(v.c, w1))
            return C(-(v.c & 1)) if w0 == 1 else v
        if op == "sext" and 1 < w0 < 32 and v.single() is not None:
            self.narrow.add((v, w0))
        if op == "trunc":
            a = v.single()
            if (v, w1) in self.narrow:
                # widened from this very width
                return v
            if a is not None and a[0] == "op" and a[1] == "cat" and a[3] * 8 == w1:
                return a[4]
            if w1 == 1:
                return v
            if w1 < 32 or a is not None and a[0] == "op" and a[1] in ("udiv", "ext", "cat", "or", "and"):
                if w0 <= 64 and w1 >= 32 and a is not None and a[0] == "op" and a[1] == "udiv":
                    return v
                return mkop("trunc", w1, v)
            return v
        if op == "sext" and w0 == 1:
            return scale(v, -1)
        if op == "zext" and w0 < 32 and w0 > 1:
            a = v.single()
            if a is not None and a[0] == "s" and a[2] == "u":
                return v
            if v.t and all(atom(i)[0] == "op" and atom(i)[1] == "zext" for i, _ in v.t):
                return v
            if not lin_nonneg(v):
                return mkop("zext", w1, v, C(w0))
            return v
        return v

    # ------------------------------------------------------------------ calls
    def call(self, st, ins):
        self.callsites += 1
        if ins.get("asm"):
            return None
        fv = ins["f"]
        args = [self.val(st, a) if a[0] != "md" else None for a in ins["a"]]
        if fv[0] == "g":
            name = fv[2]
        else:
            t = self.val(st, fv)
            if isinstance(t, Undef) or self.is_undef(t):
                self.finding(st, "bad-call", ins, "call through an uninitialised pointer")
                self.drop(st)
                return []
            if t.const:
                self.finding(st, "null-call", ins, "call through a null pointer")
                self.drop(st)
                return []
            a = t.single()
            if a is None or a[0] != "G":
                r = self.spec.indirect(self, st, ins, t, args)
                return self.forks(ins, r)
            name = a[1]
        return self.call_named(st, ins, name, args)

    def call_named(self, st, ins, name, args):
        fn = self.m.funcs.get(name)
        dem = fn["d"] if fn else name
        # byval arguments are copies
        for i, (sret, byval) in enumerate(ins.get("attr", [])):
            if byval and isinstance(args[i], Lin):
                a = self.new_region(st, "alloca", byval, {"name": "byval"})
                sl = self.locate(st, args[i], ins)
                if len(sl) == 1 and sl[0][2].const:
                    self.copy_cells(st, a, 0, sl[0][1], sl[0][2].c, byval)
                args[i] = A(a)
        h = self.spec.handler(self, name, dem)
        if h is None:
            h = BUILTIN.get(name)
            if h is None and name.startswith("llvm."):
                for k, g in INTRIN:
                    if name.startswith(k):
                        h = g
                        break
            if h is None and dem in BUILTIN_DEM:
                h = BUILTIN_DEM[dem]
        if h is not None:
            if args and isinstance(args[0], Undef) and "::" in dem.split("(")[0] and name.startswith("_ZN"):
                self.finding(st, "uninit", ins, "%s is called on an uninitialised pointer" % dem.split("(")[0].split("::")[-1])
                self.drop(st)
                return self.forks(ins, [])
            r = h(self, st, ins, args, dem)
            if r is None:
                return None
            if r == "pushed":
                return r
            return self.forks(ins, r)
        if fn is None or fn["decl"]:
            r = self.spec.unknown_call(self, st, ins, name, dem, args)
            return self.forks(ins, r)
        depth = sum(1 for f in st.frames if f.fn is fn)
        if depth >= getattr(self.spec, "max_recursion", 1):
            r = self.recursive(st, ins, fn, args)
            return self.forks(ins, r)
        st.frames[-1].ip += 1
        self.push(st, fn, args, ins.get("id"), ins)
        if fn["va"]:
            st.frames[-1].regs["va"] = Agg([a for a in args[len(fn["args"]):]])
        return "pushed"

    def recursive(self, st, ins, fn, args):
        f = getattr(self.spec, "recursive_call", None)
        if f:
            r = f(self, st, ins, fn, args)
            if r is not None:
                return r
        if self.m.readonly(fn["name"]):
            ty = self.ty(fn["rt"])
            st.events.append(("rec", fn["name"], tuple(args), self.m.loc(ins.get("l"))))
            return [(st, None if ty["k"] == "void" else self.unknown(ty))]
        raise Incomplete("recursive call of " + fn["d"])

    def copy_cells(self, st, da, do, sa, so, n):
        src = st.mem[sa]
        dst = st.region(da, True)
        for p in [p for p, (z, _) in dst.cells.items() if p < do + n and do < p + z]:
            del dst.cells[p]
        if src.kind == "input":
            # materialise 8-byte words that were never read, so that both copies agree
            pass
        for p, (z, v) in list(src.cells.items()):
            if so <= p and p + z <= so + n:
                dst.cells[do + p - so] = (z, v)
                st.x[("w", da, do + p - so)] = 1


# ---------------------------------------------------------------------- builtin models
def _nop(eng, st, ins, args, dem):
    return [(st, ZERO)] if "id" in ins else None


def _memcpy(eng, st, ins, args, dem):
    return _copy(eng, st, ins, args, "memcpy")


def _memmove(eng, st, ins, args, dem):
    return _copy(eng, st, ins, args, "memmove")


def _copy(eng, st, ins, args, what):
    d, s, n = args[:3]
    ret = d
    if isinstance(n, Lin) and n.const and n.c == 0:
        return [(st, ret)] if "id" in ins else [(st, None)]
    sc = getattr(eng.spec, "seq_copy", None)
    if sc is not None and sc(eng, st, ins, d, s, n, what):
        return [(st, ret)] if "id" in ins else [(st, None)]
    if isinstance(n, Lin) and n.const and n.c <= 4096:
        out = []
        for s1, da, do in eng.locate(st, d, ins):
            eng.check_live(s1, da, s1.mem[da], ins, "write")
            for s2, sa, so in eng.locate(s1, s, ins):
                eng.check_live(s2, sa, s2.mem[sa], ins, "read")
                if eng.spec.bounds and (eng.check_bounds(s2, da, s2.mem[da], do, n.c, ins, "write") or eng.check_bounds(s2, sa, s2.mem[sa], so, n.c, ins, "read")):
                    continue
                if do.const and so.const:
                    # materialise source words
                    cur = [s2]
                    src = s2.mem[sa]
                    if src.kind in ("input", "global") or src.opaque:
                        p = so.c
                        while p < so.c + n.c:
                            c = src.cells.get(p)
                            if c:
                                p += c[0]
                                continue
                            z = min(8, so.c + n.c - p)
                            # stop at the next known cell
                            for q in src.cells:
                                if p < q < p + z:
                                    z = q - p
                            while z & (z - 1) or p % z:
                                z -= 1
                            nx = []
                            for s3 in cur:
                                for s4, _ in eng.read(s3, sa, C(p), z, {"k": "ptr" if z == 8 else "int", "w": 8 * z, "sz": z}):
                                    nx.append(s4)
                            cur = nx
                            p += z
                    for s3 in cur:
                        cells = [(p, z, v) for p, (z, v) in s3.mem[sa].cells.items() if so.c <= p and p + z <= so.c + n.c]
                        rr = s3.region(da, True)
                        for p in [p for p, (z, _) in rr.cells.items() if p < do.c + n.c and do.c < p + z]:
                            del rr.cells[p]
                        for p, z, v in cells:
                            eng.write(s3, da, C(do.c + p - so.c), z, v, ins)
                        s3.events.append((what, d, s, n, eng.m.loc(ins.get("l"))))
                        out.append((s3, ret))
                else:
                    s2.events.append((what, d, s, n, eng.m.loc(ins.get("l"))))
                    _havoc(s2, da)
                    out.append((s2, ret))
        return out
    out = []
    for s1, da, do in eng.locate(st, d, ins):
        eng.check_live(s1, da, s1.mem[da], ins, "write")
        for s2, sa, so in eng.locate(s1, s, ins):
            eng.check_live(s2, sa, s2.mem[sa], ins, "read")
            s2.events.append((what, d, s, n, eng.m.loc(ins.get("l"))))
            _havoc(s2, da)
            out.append((s2, ret))
    return out


def _havoc(st, a):
    r = st.region(a, True)
    r.cells = {}
    r.symw = []
    r.opaque = True


def _memset(eng, st, ins, args, dem):
    d, c, n = args[:3]
    out = []
    sc = getattr(eng.spec, "seq_fill", None)
    if sc is not None and sc(eng, st, ins, d, c, n):
        return [(st, d)] if "id" in ins else [(st, None)]
    for s1, da, do in eng.locate(st, d, ins):
        eng.check_live(s1, da, s1.mem[da], ins, "write")
        s1.events.append(("memset", d, c, n, eng.m.loc(ins.get("l"))))
        if isinstance(n, Lin) and n.const and do.const and isinstance(c, Lin) and not c.const and n.c <= 64:
            r = s1.region(da, True)
            for p in [p for p, (z, _) in r.cells.items() if p < do.c + n.c and do.c < p + z]:
                del r.cells[p]
            for p in range(do.c, do.c + n.c):
                r.cells[p] = (1, c)
                s1.x[("w", da, p)] = 1
        elif isinstance(n, Lin) and n.const and do.const and isinstance(c, Lin) and c.const and n.c <= 4096:
            r = s1.region(da, True)
            for p in [p for p, (z, _) in r.cells.items() if p < do.c + n.c and do.c < p + z]:
                del r.cells[p]
            p = 0
            while p < n.c:
                z = 8 if (do.c + p) % 8 == 0 and n.c - p >= 8 else 4 if (do.c + p) % 4 == 0 and n.c - p >= 4 else 1
                b = c.c & 255
                v = 0
                for _ in range(z):
                    v = (v << 8) | b
                r.cells[do.c + p] = (z, C(T._signed(v, 8 * z)))
                s1.x[("w", da, do.c + p)] = 1
                p += z
        else:
            _havoc(s1, da)
        out.append((s1, d))
    return out


def _trap(eng, st, ins, args, dem):
    eng.finding(st, "trap", ins, "control flows off the end of a value-returning function")
    eng.drop(st)
    return []


def _expect(eng, st, ins, args, dem):
    return [(st, args[0])]


def _bin(name):
    def h(eng, st, ins, args, dem):
        w = eng.ty(ins["t"]).get("w", 64)
        return [(st, mkop(name, w, args[0], args[1]))]
    return h


def _un(name):
    def h(eng, st, ins, args, dem):
        w = eng.ty(ins["t"]).get("w", 64)
        return [(st, mkop(name, w, args[0]))]
    return h


def _fun(name, n=1):
    def h(eng, st, ins, args, dem):
        return [(st, fcall(name, *args[:n]))]
    return h


def _fabs(eng, st, ins, args, dem):
    a = args[0]
    if isinstance(a, Flt) and a.const:
        return [(st, fconst(abs(a.value())))]
    return [(st, fcall("fabs", a))]


def _fma(eng, st, ins, args, dem):
    return [(st, eng.fbin("fadd", eng.fbin("fmul", args[0], args[1]), args[2]))]


def _event(name):
    def h(eng, st, ins, args, dem):
        st.events.append(("call", name, tuple(args), None, eng.m.loc(ins.get("l"))))
        if "id" in ins:
            return [(st, eng.unknown(eng.ty(ins["t"])))]
        return None
    return h


def _posix_memalign(eng, st, ins, args, dem):
    out, al, size = args
    s2 = st.copy()
    # failure
    s2.events.append(("memalign-fail", al, size, eng.m.loc(ins.get("l"))))
    e = eng.fresh("errno", "i")
    s2.facts = s2.facts.with_ge(Lin(-1, ((aid(e), 1),)))
    a = eng.new_region(st, "heap", size, {"name": "heap", "align": al, "from": "malloc"})
    st.events.append(("alloc", "libc", A(a), size, al, eng.m.loc(ins.get("l"))))
    res = [(s, ZERO) for s in eng.store(st, out, A(a), {"k": "ptr", "sz": 8}, ins)]
    return res + [(s2, A(e))]


def _malloc(eng, st, ins, args, dem):
    s2 = st.copy()
    s2.events.append(("memalign-fail", C(16), args[0], eng.m.loc(ins.get("l"))))
    a = eng.new_region(st, "heap", args[0], {"name": "heap", "align": C(16), "from": "malloc"})
    st.events.append(("alloc", "libc", A(a), args[0], C(16), eng.m.loc(ins.get("l"))))
    return [(st, A(a)), (s2, ZERO)]


def _opnew(eng, st, ins, args, dem):
    a = eng.new_region(st, "heap", args[0], {"name": "new", "from": "new"})
    st.events.append(("alloc", "new", A(a), args[0], C(16), eng.m.loc(ins.get("l"))))
    return [(st, A(a))]


def free_region(eng, st, ins, p, who):
    if isinstance(p, Undef) or eng.is_undef(p):
        eng.finding(st, "bad-free", ins, "free of an uninitialised pointer")
        return [(st, None)]
    st.events.append(("free", who, p, eng.m.loc(ins.get("l"))))
    if p.const:
        return [(st, None)]
    a = None
    for i, k in p.t:
        if k == 1 and (atom(i) in st.mem or atom(i)[0] == "R" or (atom(i)[0] == "s" and atom(i)[2] == "p")):
            a = atom(i)
            break
    if a is None:
        return [(st, None)]
    r = st.region(a, True)
    if r is None:
        st.mem[a] = r = Region("input")
        st.own.add(a)
    if r.live is False:
        eng.finding(st, "double-free", ins, "second free of " + T.show_atom(a))
    r.live = False
    return [(st, None)]


def _free(eng, st, ins, args, dem):
    return free_region(eng, st, ins, args[0], "libc")


def _opdel(eng, st, ins, args, dem):
    return free_region(eng, st, ins, args[0], "new")


def _cmp3(name):
    def h(eng, st, ins, args, dem):
        st.events.append(("call", name, tuple(args), None, eng.m.loc(ins.get("l"))))
        return [(st, A(("op", name, 32) + tuple(a for a in args if a is not None)))]
    return h


def _usable(eng, st, ins, args, dem):
    return [(st, A(("op", "usable", 64, args[0])))]


def _snprintf(eng, st, ins, args, dem):
    st.events.append(("call", "snprintf", tuple(a for a in args), None, eng.m.loc(ins.get("l"))))
    n = eng.fresh("printed", "i")
    for s1, a, off in eng.locate(st, args[0], ins):
        _havoc(s1, a)
    return [(st, A(n))]


INTRIN = [
    ("llvm.memcpy", _memcpy), ("llvm.memmove", _memmove), ("llvm.memset", _memset), ("llvm.dbg", lambda *a: None),
    ("llvm.lifetime", lambda *a: None), ("llvm.trap", _trap), ("llvm.expect", _expect), ("llvm.assume", lambda *a: None),
    ("llvm.umax", _bin("umax")), ("llvm.umin", _bin("umin")), ("llvm.smax", _bin("smax")), ("llvm.smin", _bin("smin")),
    ("llvm.ctlz", _un("ctlz")), ("llvm.cttz", _un("cttz")), ("llvm.ctpop", _un("ctpop")), ("llvm.abs", _un("abs")),
    ("llvm.fabs", _fabs), ("llvm.sqrt", _fun("sqrt")), ("llvm.sin", _fun("sin")), ("llvm.cos", _fun("cos")),
    ("llvm.pow", _fun("pow", 2)), ("llvm.fmuladd", _fma), ("llvm.fma", _fma), ("llvm.floor", _fun("floor")),
    ("llvm.ceil", _fun("ceil")), ("llvm.round", _fun("round")), ("llvm.experimental.noalias", lambda *a: None),
    ("llvm.va_start", lambda *a: None), ("llvm.va_end", lambda *a: None), ("llvm.stacksave", _nop), ("llvm.stackrestore", lambda *a: None),
    ("llvm.maxnum", _fun("maxnum", 2)), ("llvm.minnum", _fun("minnum", 2)), ("llvm.copysign", _fun("copysign", 2)),
]

BUILTIN = {
    "memcpy": _memcpy, "memmove": _memmove, "memset": _memset, "fprintf": _event("fprintf"), "printf": _event("printf"),
    "puts": _event("puts"), "putchar": _event("putchar"), "fputs": _event("fputs"), "fwrite": _event("fwrite"),
    "posix_memalign": _posix_memalign, "malloc": _malloc, "free": _free, "_Znwm": _opnew, "_Znam": _opnew,
    "_ZdlPv": _opdel, "_ZdlPvm": _opdel, "_ZdaPv": _opdel, "malloc_usable_size": _usable,
    "strcmp": _cmp3("strcmp"), "strncmp": _cmp3("strncmp"), "memcmp": _cmp3("memcmp"), "strlen": _cmp3("strlen"),
    "bcmp": _cmp3("memcmp"), "strcasecmp": _cmp3("strcasecmp"), "strncasecmp": _cmp3("strncasecmp"),
    "isalpha": _cmp3("isalpha"), "isdigit": _cmp3("isdigit"), "isspace": _cmp3("isspace"), "isalnum": _cmp3("isalnum"),
    "tolower": _cmp3("tolower"), "toupper": _cmp3("toupper"), "abs": _un("abs"),
    "sqrtf": _fun("sqrt"), "sqrt": _fun("sqrt"), "sinf": _fun("sin"), "cosf": _fun("cos"), "tanf": _fun("tan"),
    "acosf": _fun("acos"), "asinf": _fun("asin"), "atanf": _fun("atan"), "atan2f": _fun("atan2", 2), "powf": _fun("pow", 2),
    "sin": _fun("sin"), "cos": _fun("cos"), "tan": _fun("tan"), "acos": _fun("acos"), "asin": _fun("asin"), "atan2": _fun("atan2", 2),
    "pow": _fun("pow", 2), "logf": _fun("log"), "log": _fun("log"), "log2": _fun("log2"), "log2f": _fun("log2"), "fabs": _fabs, "fabsf": _fabs,
    "snprintf": _snprintf, "vsnprintf": _snprintf, "abort": _trap, "__cxa_pure_virtual": _trap,
    "strchr": _event("strchr"),
}
BUILTIN_DEM = {}
