"""Building the witnesses from /repo's current tree, running obligations, reporting."""
import glob, hashlib, json, os, subprocess, sys, tempfile, time, traceback
from .terms import *
from . import terms as T
from .engine import Engine, Module, Spec, State, Region, Incomplete, free_region, BUILTIN
from .facts import Facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KORIN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src/korin/core")

CXXFLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-exceptions",
            "-fno-threadsafe-statics", "-ffp-contract=off", "-fno-access-control", "-w", "-mavx2",
            "-DBUILD_DEBUG", "-DPLATFORM_LINUX=1", "-I" + os.path.join(SRC, "public"), "-I" + os.path.join(VERIF, "witness")]


class Broken(Exception):
    """the analysis itself cannot run (anchor vanished, witness does not compile)"""


def ensure_tool():
    tool = os.path.join(BUILD, "irdump")
    src = os.path.join(VERIF, "tools/irdump.cpp")
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tool + ".tmp",
                            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irdump does not build: " + r.stderr[-800:])
        os.rename(tool + ".tmp", tool)
    return tool


def compile_module(src, defines=(), extra=(), link=()):
    """compile one source file against /repo's current headers to IR and load it;
    link: folders below private/ whose sources are part of the module"""
    tool = ensure_tool()
    d = tempfile.mkdtemp(prefix="korin-sa-")
    try:
        bc, bc2, js = (os.path.join(d, x) for x in ("a.bc", "b.bc", "a.json"))
        cmd = ["clang++"] + CXXFLAGS + list(defines) + list(extra) + ["-emit-llvm", "-c", src, "-o", bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("witness %s does not compile against the current tree:\n%s" % (os.path.basename(src), r.stderr[-3000:]))
        more = sorted(x for l in link for x in glob.glob(os.path.join(SRC, "private", l, "*.cpp")))
        if more:
            ps = [(f, os.path.join(d, "l%d.bc" % i)) for i, f in enumerate(more)]
            ps = [(f, o, subprocess.Popen(["clang++"] + CXXFLAGS + ["-emit-llvm", "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for f, o in ps]
            for f, o, p in ps:
                t = p.communicate()[0]
                if p.returncode:
                    raise Broken("%s does not compile:\n%s" % (os.path.basename(f), t[-2000:]))
            r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-link", bc] + [o for f, o, p in ps] + ["-o", bc + "l"], capture_output=True, text=True)
            if r.returncode:
                raise Broken("llvm-link: " + r.stderr[-800:])
            bc = bc + "l"
        r = subprocess.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "/usr/lib/llvm-18/bin/opt", "-passes=mem2reg", bc, "-o", bc2],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("opt: " + r.stderr[-800:])
        r = subprocess.run([tool, bc2, js], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[-800:])
        return Module(js)
    finally:
        subprocess.run(["rm", "-rf", d])


def witness(name, link=()):
    m = compile_module(os.path.join(VERIF, "witness", name), ["-DWITNESS_MAIN"], link=link)
    m.K = {}
    for g, v in m.globals.items():
        if g.startswith("K_") and "init" in v:
            m.K[g[2:]] = v["init"][2]
    return m


# ---------------------------------------------------------------------- common client behaviour
class KSpec(Spec):
    """element lifetimes and allocator pairing, shared by all container checks"""

    def __init__(self, mod):
        self.m = mod

    def vtable(self, cls):
        n = "_ZTV%d%s" % (len(cls), cls)
        if n not in self.m.globals:
            raise Broken("no vtable for " + cls)
        return add(A(("G", n)), C(16))

    def handler(self, eng, name, dem):
        if name == "k_alloc":
            return self.h_alloc
        if name == "k_free":
            return self.h_free
        if name == "k_realloc":
            return self.h_realloc
        if dem.startswith("Opq::"):
            return self.h_opq
        if dem.startswith("operator") and "Opq" in dem:
            return self.h_opcmp
        return None

    def mallocobj(self, eng, st, name):
        a = eng.new_region(st, "input", None, {"name": name, "malloc": True})
        st.mem[a].cells[0] = (8, self.vtable("OpqMalloc"))
        return a

    def h_alloc(self, eng, st, ins, args, dem):
        self_, size, al = args
        a = eng.new_region(st, "heap", size, {"name": "blk", "owner": self_, "align": al})
        st.events.append(("alloc", self_, A(a), size, al, eng.m.loc(ins.get("l"))))
        return [(st, A(a))]

    def h_realloc(self, eng, st, ins, args, dem):
        st.events.append(("realloc",) + tuple(args) + (eng.m.loc(ins.get("l")),))
        a = eng.new_region(st, "heap", args[2], {"name": "blk", "owner": args[0], "align": args[3]})
        return [(st, A(a))]

    def h_free(self, eng, st, ins, args, dem):
        self_, p = args
        if isinstance(p, Lin):
            b = self.base(st, p)
            if b is not None:
                r = st.mem[b]
                own = (r.info or {}).get("owner")
                if own is not None and own != self_:
                    eng.finding(st, "wrong-allocator", ins, "block of %s returned to %s" % (T.show(own), T.show(self_)))
                live = self.live_objects(st, b)
                if live:
                    eng.finding(st, "leak", ins, "storage released while it still holds a live element (%s)" % ", ".join(T.show(x) for x in live))
                if r.info and r.info.get("interior") and sub(p, A(b)) != ZERO:
                    eng.finding(st, "bad-free", ins, "free of an address inside a block")
        return free_region(eng, st, ins, p, self_)

    def base(self, st, p):
        for i, k in p.t:
            if k == 1 and atom(i) in st.mem:
                return atom(i)
        return None

    # --- element typestate: st.x["obj"][address] = True (live) / False (dead)
    def obj(self, st, addr):
        o = st.x.setdefault("obj", {})
        if addr in o:
            return o[addr]
        b = self.base(st, addr)
        if b is None:
            return None
        r = st.mem[b]
        if r.kind in ("heap", "alloca"):
            return False
        return True

    def set_obj(self, st, addr, v):
        o = dict(st.x.get("obj", {}))
        o[addr] = v
        st.x["obj"] = o

    def live_objects(self, st, b):
        out = []
        for a, v in st.x.get("obj", {}).items():
            if v and self.base(st, a) == b:
                out.append(a)
        r = st.mem[b]
        for off in (r.info or {}).get("objs", ()):
            a = add(A(b), C(off))
            if a not in st.x.get("obj", {}):
                out.append(a)
        return out

    def h_opq(self, eng, st, ins, args, dem):
        this = args[0]
        loc = eng.m.loc(ins.get("l"))
        if isinstance(this, Undef) or not isinstance(this, Lin):
            raise Incomplete("undefined element address")
        name = dem[len("Opq::"):]
        src = args[1] if len(args) > 1 else None
        if name.startswith("~"):
            kind = "dtor"
        elif name.startswith("operator="):
            kind = "massign" if "&&" in dem else "cassign"
        elif src is None:
            kind = "ctor"
        else:
            kind = "mctor" if "&&" in dem else "cctor"
        if this.const:
            eng.finding(st, "null-deref", ins, "%s on a null address" % kind)
            eng.drop(st)
            return []
        # touches memory: use after free checks
        for a_ in (this, src):
            if a_ is not None and isinstance(a_, Lin):
                b = self.base(st, a_)
                if b is not None:
                    eng.check_live(st, b, st.mem[b], ins, "use")
        l = self.obj(st, this)
        if kind in ("ctor", "cctor", "mctor"):
            if l is True:
                eng.finding(st, "construct-over-live", ins, "%s over an element that is still alive: %s" % (kind, T.show(this)))
            self.set_obj(st, this, True)
        elif kind == "dtor":
            if l is False:
                eng.finding(st, "double-destroy", ins, "destruction of an element that is not alive: %s" % T.show(this))
            self.set_obj(st, this, False)
        else:
            if l is False:
                eng.finding(st, "assign-to-dead", ins, "%s to an element that is not alive: %s" % (kind, T.show(this)))
        if src is not None and kind != "dtor":
            if self.obj(st, src) is False:
                eng.finding(st, "read-dead", ins, "%s from an element that is not alive: %s" % (kind, T.show(src)))
        st.events.append((kind, this, src, loc))
        # the value of an element is an uninterpreted tag
        v = dict(st.x.get("val", {}))
        if kind == "ctor":
            v[this] = ZERO
        elif kind == "dtor":
            v.pop(this, None)
        else:
            v[this] = self.value_of(st, src)
            if kind in ("mctor", "massign") and src != this:
                v[src] = A(("op", "movedfrom", 64, src))
        st.x["val"] = v
        if "id" in ins:
            return [(st, this)]
        return [(st, None)]

    def value_of(self, st, addr):
        v = st.x.get("val", {})
        if addr in v:
            return v[addr]
        return A(("op", "val", 64, addr))

    def h_opcmp(self, eng, st, ins, args, dem):
        # result is an uninterpreted function of the two values
        import re
        opn = re.match(r"operator(==|!=|<=|>=|<|>)", dem).group(1)
        x, y = self.value_of(st, args[0]), self.value_of(st, args[1])
        for a_ in args[:2]:
            if self.obj(st, a_) is False:
                eng.finding(st, "read-dead", ins, "comparison reads an element that is not alive: " + T.show(a_))
        st.events.append(("cmp", opn, args[0], args[1], eng.m.loc(ins.get("l"))))
        return self.order_split(eng, st, opn, x, y)

    def order_split(self, eng, st, opn, x, y):
        if x == y:
            return [(st, ONE if opn in ("==", "<=", ">=") else ZERO)]
        key, t = (x, y), frozenset({"==": "=", "!=": "<>"}.get(opn, opn))
        if (aidkey_(y)) < (aidkey_(x)):
            key = (y, x)
            t = frozenset({"<": ">", ">": "<"}.get(c, c) for c in t)
        cur = st.facts.rel.get(key, frozenset("<=>"))
        yes, no = cur & t, cur - t
        out = []
        if yes and no:
            s2 = st.copy()
            s2.facts = Facts(s2.facts.ge, s2.facts.ne, {**s2.facts.rel, key: yes})
            out.append((s2, ONE))
            st.facts = Facts(st.facts.ge, st.facts.ne, {**st.facts.rel, key: no})
            out.append((st, ZERO))
            return out
        return [(st, ONE if yes else ZERO)]

    def rel(self, st, x, y):
        """known ordering of two element values, as a set of < = >"""
        if x == y:
            return frozenset("=")
        if aidkey_(y) < aidkey_(x):
            s = st.facts.rel.get((y, x), frozenset("<=>"))
            return frozenset({"<": ">", ">": "<"}.get(c, c) for c in s)
        return st.facts.rel.get((x, y), frozenset("<=>"))


def aidkey_(v):
    return (v.t, v.c) if isinstance(v, Lin) else (v.p,)


# ---------------------------------------------------------------------- obligations and reports
class Report:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []          # dicts
        self.obl = []           # (name, status, detail)
        self.functions = set()
        self.callsites = 0
        self.states = 0
        self.rules = []
        self.notes = []
        self.level = level
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def violation(self, where, rule, text, key=None):
        k = key or (where, rule)
        if all(v["key"] != k for v in self.viol):
            self.viol.append({"where": where, "rule": rule, "text": text, "key": k})

    def ok(self, name, detail=""):
        self.obl.append((name, "discharged", detail))

    def undecided(self, name, why):
        self.obl.append((name, "undecided", why))

    def failed(self, name, detail=""):
        self.obl.append((name, "violated", detail))


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                out.append(json.loads(l))
    return out


def finish(rep, minimum=1):
    """print the verdict, write the evidence, exit"""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = [k for k in known_findings() if k.get("property") == rep.pid and k.get("status") != "fixed"]
    new, old = [], []
    for v in rep.viol:
        ident = "%s | %s" % (v["where"], v["rule"])
        v["id"] = ident
        hit = next((k for k in known if k["id"] == ident or (k.get("rule") == v["rule"] and k.get("where") == v["where"])), None)
        (old if hit else new).append(v)
    done = [o for o in rep.obl if o[1] == "discharged"]
    und = [o for o in rep.obl if o[1] == "undecided"]
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": rep.level,
        "coverage": {
            "explanation": "static analysis of the IR compiled from /repo's current sources; nothing was executed. "
                           "Rules: " + " ".join(rep.rules),
            "obligations": len(rep.obl), "discharged": len(done), "undecided": [list(o) for o in und],
            "violated": [o[0] for o in rep.obl if o[1] == "violated"],
            "functions_analysed": sorted(rep.functions)[:400], "functions": len(rep.functions),
            "call_sites": rep.callsites, "abstract_states": rep.states,
            "rule_instances": [o[0] for o in rep.obl][:400], "notes": rep.notes,
            "known_findings": [v["id"] for v in old],
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w"), indent=1)
    for o in und:
        print("UNDECIDED %s: %s" % (o[0], o[2]))
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (rep.pid, v["id"], v["text"]))
    print("%s: %d obligations, %d discharged, %d undecided, %d functions, %d call sites, %.1fs"
          % (rep.pid, len(rep.obl), len(done), len(und), len(rep.functions), rep.callsites, time.time() - rep.t0))
    if new:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        rp = os.path.join(BUILD, "replay", rep.pid + ".txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("property %s\nwhere %s\nrule  %s\n%s\n\n" % (rep.pid, v["where"], v["rule"], v["text"]))
        for v in new[:20]:
            print("  %s: [%s] %s" % (v["where"], v["rule"], v["text"]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        sys.exit(1)
    if len(done) < minimum:
        print("ANALYSIS-BROKEN property=%s: only %d of the expected %d rule instances were decided" % (rep.pid, len(done), minimum))
        sys.exit(2)
    sys.exit(0)


class Checker:
    """runs obligations of one property over one witness module"""

    def __init__(self, pid, wit, level="other", link=(), fallback=None):
        """fallback(rep): what can still be decided, through the public interface alone, when the witness that names private parts does not compile"""
        self.rep = Report(pid, level)
        try:
            self.m = witness(wit, link) if isinstance(wit, str) else wit
        except Broken as e:
            if fallback:
                self.rep.undecided("rules that name private parts", str(e)[:400])
                fallback(self.rep)
                finish(self.rep, 4)
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
            sys.exit(2)
        self.only = os.environ.get("KA_ONLY")

    def find(self, name):
        if name not in self.m.funcs:
            raise Broken("witness function %s vanished" % name)
        return name

    def obligation(self, name, spec, fname, pre, post, kinds=None, ignore=("maybe-null",)):
        """pre(eng) -> list of (label, state, args);  post(eng, label, state, ret) -> list of (rule, text) failures
        kinds: engine findings that count as violations (default: all but `ignore`)"""
        if self.only and self.only not in name:
            return
        bad = []
        cls = name.split("[")[0]
        try:
            eng = Engine(self.m, spec)
            n = 0
            for label, st, args in pre(eng):
                if bad and getattr(self, "first", False):
                    break
                eng.findings, eng.dropped, eng.endless = [], [], []
                steps0 = eng.steps
                eng.steps = 0
                res = eng.run(self.find(fname), args, st)
                n += len(res)
                if not res and not eng.dropped and not eng.endless:
                    raise Incomplete("no abstract state survives for pre-state %s" % label)
                if not res and eng.endless and not eng.dropped:
                    bad.append(("does-not-return", eng.endless[0][0], "no path returns from pre-state %s" % label))
                for s, v in res:
                    for f in s.x.get("findings", ()):
                        if (kinds and f[0] in kinds) or (not kinds and f[0] not in ignore):
                            bad.append((f[0], f[1], "%s [pre-state %s]" % (f[2], label)))
                    for rule, text in (post(eng, label, s, v) or ()):
                        bad.append((rule, None, "%s [pre-state %s]" % (text, label)))
                for f in eng.findings:
                    if (kinds and f[0] in kinds) or (not kinds and f[0] not in ignore):
                        bad.append((f[0], f[1], "%s [pre-state %s]" % (f[2], label)))
            self.rep.functions |= {self.m.funcs[c]["d"] for c in eng.covered}
            self.rep.callsites += eng.callsites
            self.rep.states += n
        except Incomplete as e:
            # paths that ended with a definite error stay what they are
            for f in eng.findings:
                if (kinds and f[0] in kinds) or (not kinds and f[0] not in ignore):
                    bad.append((f[0], f[1], f[2]))
            if not bad:
                if os.environ.get("KA_DEBUG"):
                    traceback.print_exc()
                self.rep.undecided(name, str(e))
                return
        except Exception as e:
            if not bad:
                if os.environ.get("KA_DEBUG"):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.rep.undecided(name, "internal: %s %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                return
        if bad:
            self.rep.failed(name)
            seen = set()
            for rule, loc, text in bad:
                if (rule, text) in seen:
                    continue
                seen.add((rule, text))
                where = name if loc is None else name
                self.rep.violation(where, rule, (("at %s: " % loc) if loc else "") + text, key=(name, rule, text[:80]))
        else:
            self.rep.ok(name, "%d abstract exit states" % n)
