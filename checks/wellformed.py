"""Well-formedness of the whole interface, decided by the compilers' type checkers and flow analyses."""
import sys, os, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.common import *
import tempfile

PUB, PRIV = os.path.join(SRC, "public"), os.path.join(SRC, "private")
BASE = ["-std=c++17", "-mavx2", "-DPLATFORM_LINUX=1", "-I" + PUB]
MODES = {"debug": ["-DBUILD_DEBUG"], "development": ["-DBUILD_DEVELOPMENT=1"], "release": ["-DBUILD_RELEASE=1"]}
FLOW = ["return-type", "uninitialized", "sometimes-uninitialized", "infinite-recursion", "delete-abstract-non-virtual-dtor", "delete-non-abstract-non-virtual-dtor", "delete-incomplete",
        "return-stack-address", "dangling", "unsequenced", "array-bounds", "division-by-zero", "null-dereference", "shift-count-overflow", "shift-count-negative", "undefined-inline",
        "undefined-internal", "undefined-var-template", "mismatched-new-delete", "sizeof-pointer-memaccess", "sizeof-pointer-div", "sizeof-array-decay",
        "non-literal-null-conversion", "uninitialized-const-reference", "static-self-init", "memset-transposed-args", "call-to-pure-virtual-from-ctor-dtor",
        "conditional-uninitialized", "strict-aliasing", "for-loop-analysis"]
FLOW = [f for f in FLOW if f not in ("conditional-uninitialized", "strict-aliasing", "for-loop-analysis")]

# what each header offers on its own: nothing else is included before these uses
NT = ("struct NT { int x; NT(); NT(const NT &); NT(NT &&); NT & operator=(const NT &); NT & operator=(NT &&); ~NT(); bool operator<(const NT &) const; bool operator>(const NT &) const; "
      "bool operator==(const NT &) const; bool operator!=(const NT &) const; };\nstruct Cmp { template<typename A, typename B> int operator()(const A & a, const B & b) const { return a < b ? -1 : a > b; } };\n")
STRUCTS = ("Pair", "Mat4", "Optional", "Atomic", "StaticArray")
TEMPLATES = {'containers/array.h': ['Array<int32>', 'Array<NT>', 'Array<NT, MallocAnsi>'],
 'containers/map.h': ['Map<int32, NT>'],
 'containers/pair.h': ['Pair<int32, NT, Cmp>'],
 'containers/set.h': ['Set<int32>', 'Set<NT>'],
 'containers/string.h': ['StringBase<char>'],
 'containers/tree.h': ['BinaryTree<int32>', 'BinaryTree<NT>'],
 'containers/tuple.h': ['Tuple<int32, NT>'],
 'hal/malloc_object.h': ['MallocObject<NT>'],
 'math/mat4.h': ['Mat4<float32>'],
 'regex/automaton.h': ['Re::Automaton<ansichar>', 'Re::AutomatonBuilder<ansichar>'],
 'templates/array.h': ['StaticArray<NT, 2>'],
 'templates/atomic.h': ['Atomic<int32>'],
 'templates/function.h': ['Function<int32(int32)>', 'Function<void()>'],
 'templates/optional.h': ['Optional<int32>', 'Optional<NT>']}
USES = {'algorithm/sort.h': 'void f(int32*a){Sort::quicksort(a,a,[](int32 x,int32 y){return x-y;});}',
 'containers/array.h': 'void f(){Array<NT> a; a.add(NT{}); a.insertFirst(NT{}); for(auto&x:a){} }',
 'containers/list.h': 'struct NS : NT { String toString() const; }; template class List<NS>; void f(){List<NT> a; a.pushBack(NT{}); for(auto&x:a){} }',
 'containers/map.h': 'void f(){Map<int32,NT> a; a[1]=NT{}; a.insert(1,NT{}); a.has(1);}',
 'containers/pair.h': 'void f(){Pair<int32,NT,Cmp> a{1,NT{}}; if(a<a || a==a) a=a; swap(a,a);}',
 'containers/set.h': 'void f(){Set<NT> a; a.set(NT{}); a.any(NT{}); a+=a; a*=a; a-=a;}',
 'containers/string.h': 'void f(){String a{"x"}; a+=1; a+="y"; a+=1.f; a.findAll("x"); a.replaceAll("x","y"); String::format("%d",1);}',
 'containers/tuple.h': 'void f(){Tuple<int32,NT> a{1,NT{}}; a.get<0>(); a.get<NT>(); Tuple<int32,NT> b{a}; b=a; swap(a,b);}',
 'hal/malloc_ansi.h': 'void f(){MallocAnsi a; a.free(a.alloc(8)); }',
 'hal/malloc_binned.h': 'void f(){MallocBinned a; a.free(a.alloc(8)); a.realloc(a.alloc(8),9);}',
 'hal/malloc_object.h': 'void f(){MallocObject<NT> a; a.free(a.alloc(8)); }',
 'hal/malloc_pool.h': 'void f(){MallocPool a{8,8,8}; a.free(a.alloc(8)); MallocPooled b{8,8,8,1}; b.alloc(8); MallocPoolInline<8,4> c; c.alloc(8); }',
 'hal/platform_math.h': 'void f(){PlatformMath::pow(2,2);PlatformMath::abs(2);PlatformMath::sin(1.f);PlatformMath::min(1,2,3);PlatformMath::log2(4);}',
 'hal/platform_memory.h': 'void '
                          'f(NT*a,NT*b){Memory::constructDefaultElements(a,b);Memory::copyElements(a,b,1);Memory::constructCopyElements(a,b,1);Memory::moveElements(a,b,1);Memory::destroyElements(a,b);}',
 'math/mat4.h': 'void f(){Mat4<float32> a; a[0][1]=1.f; if(a==a) a=a;}',
 'math/math.h': 'void f(){Quat a; Vec3<float32> v; Vec2<float32> w; Vec4<float32> x; v = w ^ w; a = a * a;}',
 'math/quat.h': 'void f(){Quat a; a=a*a; a.getAxes(); a.getUp(); }',
 'math/vec2.h': 'void f(){Vec2<float32> a{1.f,2.f}; a=a+a; a=a*2.f; a.normalize(); a=Vec2<float32>::zero;}',
 'math/vec3.h': 'void f(){Vec3<float32> a{1.f,2.f,3.f}; a=a^a; a=a*2.f; a.normalize(); a=Vec3<float32>::up; a.isNearlyZero();}',
 'math/vec4.h': 'void f(){Vec4<float32> a{1.f,2.f,3.f,1.f}; a=a+a; a=a*2.f; a.normalize();a=Vec4<float32>::zero;}',
 'misc/assert.h': 'void f(int x){CHECK(x) CHECKF(x,"%d",x) ASSERT(x) ASSERTF(x,"%d",x)}',
 'regex/automaton.h': 'void f(){Re::Automaton<ansichar> a; a.createBuilder().pushState<Re::StateAny<ansichar>>(); a.acceptString("a"); a.toString(); a.createOptimizer().removeEpsilons();}',
 'regex/regex.h': 'void f(){Re::Regex r{"a"}; r.accept("a"); Re::accept("a","b");}',
 'templates/array.h': 'void f(){auto a=makeStaticArray({1,2}); StaticArray<int32,2> b{a}; b[0]=1;}',
 'templates/atomic.h': 'void f(){Atomic<int32> a{1}; ++a; a+=1; a=2; int32 x=a; Atomic<int32*> p{&x}; p++; }',
 'templates/function.h': 'void f(int32 k){auto l=[k](int32 i){return i+k;};Function<int32(int32)> f{l},g{f}; g=f; g=move(f); g(1);  invoke(l, 1);}',
 'templates/name.h': 'constexpr Name a="x"; void f(){constexpr Name b=JOIN_NAME(a,a);}',
 'templates/optional.h': 'void f(){Optional<NT> a{NT{}}; a=NT{}; a.emplace(); Optional<NT> b{a}; b=a; b=move(a);}',
 'templates/type_info.h': 'void f(){TypeDebugInfo<int32>::getDebugName();}',
 'templates/utility.h': 'void f(){int32 a=1,b=2; swap(a,b);}'}


def alone():
    for h, l in TEMPLATES.items():
        yield h, "its templates", "".join("template %s %s;\n" % ("struct" if x.split("<")[0] in STRUCTS else "class", x) for x in l)
    for h, c in USES.items():
        yield h, "a use", c + "\n"


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def rel(p):
    p = os.path.normpath(p)
    return os.path.relpath(p, REPO) if p.startswith(REPO) else os.path.relpath(p, VERIF) if p.startswith(VERIF) else p


def diags(text):
    """[(kind, file, line, message, [(note file, line)])] in order; notes belong to the diagnostic before them"""
    out, pending = [], []
    for l in text.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|warning|note): (.*)", l)
        if m:
            k = m.group(3)
            if k == "note":
                if out:
                    out[-1][4].append((m.group(1), int(m.group(2))))
            else:
                out.append(("error" if "error" in k else k, m.group(1), int(m.group(2)), m.group(4), pending))
                pending = []
            continue
        m = re.match(r"(.*?):(\d+):\d+:\s+required (?:from|by)", l)      # gcc names the users first
        if m:
            pending.append((m.group(1), int(m.group(2))))
    return out


def first_error(text):
    for k, f, n, msg, notes in diags(text):
        if k == "error":
            return "%s:%d: %s" % (rel(f), n, msg)
    return text.strip()[-300:]


def api_obligations(src):
    obs = {}
    for n, l in enumerate(open(src), 1):
        m = re.match(r"template (?:class|struct) (.*);", l)
        if m:
            obs[n] = "every member of " + m.group(1)
        m = re.match(r"(?:void) (use_\w+)\(", l)
        if m:
            obs[n] = m.group(1)
    return obs


def main():
    rep = Report("X02")
    rep.rule("Every public header stands alone; every public member of the interface is instantiated with access control on, and the compilers' own type rules and flow analyses accept it; every referenced function is defined.")
    jobs = []
    d = tempfile.mkdtemp(prefix="korin-sa-")
    try:
        # 1. headers alone
        heads = []
        for root, ds, fs in os.walk(PUB):
            ds[:] = [x for x in ds if x != "apple"]
            heads += [os.path.relpath(os.path.join(root, f), PUB) for f in fs if f.endswith((".h", ".hpp", ".inl")) and not f.endswith(".inl")]
        heads.sort()
        if len(heads) < 20:
            raise Broken("no public headers found")
        for h in heads:
            one = os.path.join(d, h.replace("/", "_") + ".cpp")
            open(one, "w").write('#include "%s"\n#include "%s"\n' % (h, h))
            for mode, fl in MODES.items():
                for cc in ("clang++", "g++"):
                    if mode == "development" and cc == "g++":
                        continue
                    jobs.append(("header %s alone, %s, %s" % (h, mode, cc), [cc] + BASE + fl + ["-w", "-fsyntax-only", one]))
        for i, (h, what, code) in enumerate(alone()):
            one = os.path.join(d, "alone%d.cpp" % i)
            open(one, "w").write('#include "%s"\n%s%s' % (h, NT, code))
            for mode, fl, cc in (("debug", MODES["debug"], "clang++"), ("release", MODES["release"] + ["-O2"], "g++")):
                jobs.append(("%s with only %s included, %s, %s" % (what, h, mode, cc), [cc] + BASE + fl + ["-w", "-c", one, "-o", one + "." + mode + ".o"]))
        # 2. sources
        srcs = sorted(glob.glob(os.path.join(PRIV, "**", "*.cpp"), recursive=True))
        srcs = [s for s in srcs if "/apple/" not in s]
        for s in srcs:
            for mode, fl in MODES.items():
                jobs.append(("source %s, %s, g++" % (rel(s), mode), ["g++"] + BASE + fl + ["-w", "-O2", "-c", s, "-o", os.path.join(d, "g.%s.%d.o" % (mode, len(jobs)))]))
        api = os.path.join(VERIF, "witness/api.cpp")
        wfl = ["-Wno-everything"] + ["-W" + f for f in FLOW]
        flowjobs = [("interface, " + m, ["clang++"] + BASE + fl + wfl + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fsyntax-only", api]) for m, fl in MODES.items()]
        flowjobs += [("source %s, %s" % (rel(s), m), ["clang++"] + BASE + fl + wfl + ["-fno-caret-diagnostics", "-fsyntax-only", s]) for s in srcs for m, fl in MODES.items()]
        gccjobs = [("interface, %s, g++" % m, ["g++"] + BASE + fl + ["-w", "-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-fno-diagnostics-show-caret", "-O2", "-c", api, "-o", os.path.join(d, "api.%s.g.o" % m)]) for m, fl in MODES.items() if m != "development"]
        # definedness
        lls = [(s, os.path.join(d, "u%d.o" % i), m) for m in MODES for i, s in enumerate([api] + [x for x in srcs if os.path.basename(x) != "main.cpp"])]
        lls = [(s, o.replace(".o", "." + m + ".o"), m) for s, o, m in lls]
        objjobs = [(s, o, m, ["clang++"] + BASE + MODES[m] + ["-w", "-O0", "-c", s, "-o", o]) for s, o, m in lls]
        with ThreadPoolExecutor(8) as ex:
            fh = [ex.submit(run, c) for n, c in jobs]
            ff = [ex.submit(run, c) for n, c in flowjobs]
            fg = [ex.submit(run, c) for n, c in gccjobs]
            fo = [ex.submit(run, j[3]) for j in objjobs]
        for (n, c), f in zip(jobs, fh):
            rc, so, se = f.result()
            if rc:
                rep.failed(n, first_error(se))
                rep.violation(n, "does-not-compile", first_error(se))
            else:
                rep.ok(n)
        obs = api_obligations(api)
        names = {}
        for (n, c), f in list(zip(flowjobs, ff)) + list(zip(gccjobs, fg)):
            rc, so, se = f.result()
            isapi = n.startswith("interface")
            hit = {}
            flowhit = set()
            for k, fi, ln, msg, notes in diags(se):
                where = [x for x in [(fi, ln)] + notes if os.path.basename(x[0]) == "api.cpp"]
                if k == "error" or "[-W" not in msg:
                    if k != "error":
                        continue
                    w = re.search(r"static assertion failed.*WANT (.*)", msg)
                    key = w.group(1) if w else next((obs[l] for _, l in where if l in obs), None) if isapi else n
                    if key is None:
                        key = "%s: %s" % (rel(fi), msg)
                    hit.setdefault(key, "%s:%d: %s" % (rel(fi), ln, msg))
                else:
                    fl = re.search(r"\[-W([\w-]+)", msg).group(1)
                    if fi.startswith(("/usr",)):
                        continue
                    key = (rel(fi), re.sub(r"\[-W.*", "", msg).strip(), fl)
                    if key not in flowhit:
                        flowhit.add(key)
                        rep.violation("%s:%d" % (rel(fi), ln), fl, re.sub(r"\[-W.*", "", msg).strip(), key=key)
                        rep.failed("flow analyses, %s: %s" % (n, rel(fi)))
            if rc and not hit:
                hit[n] = se.strip()[-300:]
            for key, msg in hit.items():
                rep.failed("%s (%s)" % (key, n), msg)
                rep.violation(key, "ill-formed", msg, key=(key, "ill-formed"))
            if isapi:
                for o in obs.values():
                    if o not in hit:
                        rep.ok("%s (%s)" % (o, n))
            elif not hit:
                rep.ok(n + ", clang++")
            if "g++" not in n and not flowhit:
                for f_ in FLOW:
                    rep.ok("-W%s, %s" % (f_, n))
        # the RETURNS_SELF facts
        rc, so, se = run(["clang++"] + BASE + MODES["debug"] + ["-E", "-P", api])
        for t in set(re.findall(r'"WANT " ((?:"(?:[^"\\]|\\.)*"\s*)+)', so)):
            name = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', t)).replace("\\", "")
            if not any(name == v["where"].replace("\\", "") for v in rep.viol):
                rep.ok(name)
        # every reference has a definition
        ok = all(not f.result()[0] for f in fo)
        if ok:
            for m in MODES:
                defined, undef = set(), {}
                for s, o, mm, c in objjobs:
                    if mm != m:
                        continue
                    for l in run(["nm", "-P", o])[1].splitlines():
                        p = l.split()
                        if p[1] == "U":
                            undef.setdefault(p[0], rel(s))
                        elif p[1] in "TWVDBRtu":
                            defined.add(p[0])
                bad = 0
                for u in sorted(undef):
                    if u in defined or not u.startswith("_Z"):
                        continue
                    dem = run(["c++filt", u])[1].strip()
                    if re.match(r"(NT|MO)::|operator (new|delete)|typeinfo|vtable for __cxxabiv1|__cxxabi|std::|_ZT", dem) or "__cxxabiv1" in dem or "__cxa" in dem:
                        continue
                    bad += 1
                    rep.violation("%s (%s)" % (dem, m), "undefined", "%s is referenced from %s and defined nowhere" % (dem, undef[u]), key=(dem, "undefined"))
                    rep.failed("definition of %s, %s" % (dem, m))
                if not bad:
                    rep.ok("every referenced function is defined (%s, %d references)" % (m, len(undef)))
        elif not rep.viol:
            f = next(f for f in fo if f.result()[0])
            rep.violation("interface", "does-not-compile", first_error(f.result()[2]))
    finally:
        subprocess.run(["rm", "-rf", d])
    for h in heads:
        rep.functions.add(h)
    rep.callsites = len(obs)
    finish(rep, 300)


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        print("ANALYSIS-BROKEN property=X02: " + str(e))
        sys.exit(2)
