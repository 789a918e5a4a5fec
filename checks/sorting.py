"""algorithm/sort.h: sorting and partitioning of ranges of unknown elements, by case split on what the comparator answers."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *

TIER = os.environ.get("VERIF_TIER", "quick")


def closure(rel):
    """rel: {(u, v): '<' or '='} over values -> the same, transitively closed; '=' both ways"""
    r = dict(rel)
    for (u, v), c in list(r.items()):
        if c == "=":
            r[(v, u)] = "="
    ch = True
    while ch:
        ch = False
        for (a, b), c in list(r.items()):
            for (b2, d), c2 in list(r.items()):
                if b2 != b or a == d:
                    continue
                n = "=" if c == c2 == "=" else "<"
                if r.get((a, d)) != n:
                    r[(a, d)] = n
                    ch = True
    return r


class SortSpec(ScnSpec):
    unroll = 1 << 9
    unroll_width = 100000
    runaway = True
    max_states = 400000
    max_recursion = 40
    max_depth = 400
    max_steps = 40000000

    def handler(self, eng, name, dem):
        h = {"k_cmp": self.h_cmp, "k_range": self.h_range, "k_step": self.h_step, "k_read": self.h_read}.get(name)
        return h or super().handler(eng, name, dem)

    def recursive_call(self, eng, st, ins, fn, args):
        eng.finding(st, "endless", ins, "the recursion of %s does not end" % fn["d"][:80])
        eng.drop(st)
        return []

    def h_range(self, eng, st, ins, args, dem):
        st.x["range"] = None if args[0] == ZERO else (args[0], args[1])
        return [(st, None)]

    def inside(self, st, p, end=False):
        r = st.x.get("range")
        if r is None:
            return True
        d, n = sub(p, r[0]), sub(r[1], r[0])
        if not d.const or not n.const:
            return True if self.base(st, p) != self.base(st, r[0]) else None
        return 0 <= d.c < n.c

    def h_step(self, eng, st, ins, args, dem):
        if self.inside(st, args[0]) is False:
            eng.finding(st, "out-of-range", ins, "an iterator steps beyond the end of the range")
            eng.drop(st)
            return []
        return [(st, None)]

    def h_read(self, eng, st, ins, args, dem):
        if self.inside(st, args[0]) is False:
            eng.finding(st, "out-of-range", ins, "an iterator outside the range is dereferenced")
            eng.drop(st)
            return []
        return [(st, None)]

    def h_cmp(self, eng, st, ins, args, dem):
        me, a, b = args
        if self.obj(st, me) is False or self.value_of(st, me) != st.x.get("cmpval"):
            eng.finding(st, "comparator", ins, "the comparator that is called is not the one that was passed (destroyed or moved from)")
        vals = []
        for p in (a, b):
            if self.obj(st, p) is False:
                eng.finding(st, "read-dead", ins, "an element that is not alive is compared")
            bp = self.base(st, p)
            r = st.x.get("range")
            if r and bp is not None and bp == self.base(st, r[0]) and self.inside(st, p) is False:
                eng.finding(st, "out-of-range", ins, "an element outside the range is compared")
                eng.drop(st)
                return []
            vals.append(self.value_of(st, p))
        st.x["ncmp"] = st.x.get("ncmp", 0) + 1
        if st.x["ncmp"] > 400:
            eng.finding(st, "endless", ins, "more than 400 comparisons for at most 6 elements")
            eng.drop(st)
            return []
        u, v = vals
        known = st.x.get("order", {})
        if u == v:
            return [(st, ZERO)]
        c = known.get((u, v)) or {"<": ">", "=": "="}.get(known.get((v, u)))
        if c:
            return [(st, {"<": C(-1, ), "=": ZERO, ">": ONE}[c])]
        out = []
        for rel_, val in (((u, v), "<"), C(-1)), (((u, v), "="), ZERO), (((v, u), "<"), ONE):
            s = st.copy() if val != ONE else st
            s.x["order"] = closure({**known, rel_[0]: rel_[1]})
            out.append((s, val))
        return out

    def order(self, s, u, v):
        if u == v:
            return "="
        k = s.x.get("order", {})
        return k.get((u, v)) or {"<": ">", "=": "="}.get(k.get((v, u)))


def case(ck, sp, kind, n):
    names = ["e%d" % i for i in range(n)]
    if kind.startswith("arg"):
        names += ["f%d" % i for i in range(n)]
    if kind.startswith("part"):
        names += ["v"]
    names += ["g", "c"]

    def pre(eng):
        st = State()
        args = sp.inputs(eng, st, None, names)
        st.x["tags"] = {nm: A(("op", "val", 64, a)) for nm, a in zip(names, args)}
        st.x["cmpval"] = st.x["tags"]["c"]
        yield "", st, args

    def post(eng, label, s, v):
        out = list(sp.leftovers(s))
        T_ = s.x["tags"]
        e = [T_["e%d" % i] for i in range(n)]
        saw = s.x.get("saw", ())
        got = [x[2] for x in saw if x[0] == 1]
        if [x[2] for x in saw if x[0] == 2] != [T_["g"]] * (4 if kind.startswith("arg") else 2):
            out.append(("outside", "an element outside the range is changed"))
        desc = lambda l: "[" + ", ".join(next((k for k, t in T_.items() if t == x), "a moved-from value" if x is not None else "nothing") for x in l) + "]"
        how = ", ".join("%s%s%s" % (desc([a])[1:-1], c, desc([b])[1:-1]) for (a, b), c in sorted(s.x.get("order", {}).items(), key=str))
        if sorted(map(str, got)) != sorted(map(str, e)):
            return out + [("permutation", "the result %s is not a permutation of the elements, when %s" % (desc(got), how))]
        if not kind.startswith("part"):
            for a, b in zip(got, got[1:]):
                if sp.order(s, a, b) not in ("<", "="):
                    out.append(("unsorted", "the result %s is not sorted: %s, %s, when %s" % (desc(got), desc([a]), desc([b]), how)))
        else:
            k = [x[1] for x in saw if x[0] == 4]
            k = k[0] if k else None
            if k is None or not k.const:
                raise Incomplete("boundary unknown")
            for i, a in enumerate(got):
                o = sp.order(s, a, T_["v"])
                if i < k.c and o != "<":
                    out.append(("boundary", "element %d of %s before the returned position %d is not known to be smaller than the pivot, when %s" % (i, desc(got), k.c, how)))
                if i >= k.c and o not in ("=", ">"):
                    out.append(("boundary", "element %d of %s from the returned position %d on may be smaller than the pivot, when %s" % (i, desc(got), k.c, how)))
            if not 0 <= k.c <= n:
                out.append(("boundary", "the returned position is outside the range"))
        if kind.startswith("arg"):
            f = [x[2] for x in saw if x[0] == 3]
            want = [T_["f%d" % e.index(g)] for g in got]
            if f != want:
                out.append(("arguments", "arguments %s do not follow their elements %s, when %s" % (desc(f), desc(got), how)))
        for nm, a in s.x.get("in", {}).items():
            if sp.value_of(s, A(a)) != A(("op", "val", 64, A(a))):
                out.append(("modified", "an object of the caller is changed"))
        return out
    ck.obligation("%s, %d elements" % ({"sort_ptr": "quicksort", "sort_rv": "quicksort with a temporary comparator", "sort_fwd": "quicksort of forward iterators", "arg_ptr": "argquicksort",
                                        "arg_fwd": "argquicksort of forward iterators", "part_ptr": "partition", "part_fwd": "partition of forward iterators"}[kind], n), sp, "s_%s%d" % (kind, n), pre, post)


def numbers(ck, sp, name, n, args=False):
    xs = [A(("s", c, "s")) for c in "xyz"[:n]]

    def pre(eng):
        st = State()
        yield "", st, list(xs)

    def post(eng, label, s, v):
        saw = s.x.get("saw", ())
        got = [x[1] for x in saw if x[0] == 1]
        out = []
        if sorted(map(str, got)) != sorted(map(str, xs)):
            if all(any(sub(g, x) == ZERO for x in xs) for g in got) and len(set(got)) == len(got):
                return [("permutation", "not a permutation")]
            # equal numbers may stand for one another
            for x in xs:
                if sum(1 for g in got if s.facts.zero(sub(g, x))) < 1:
                    return [("permutation", "the result is not a permutation of the numbers")]
        for a, b in zip(got, got[1:]):
            if not s.facts.entails(sub(b, a)):
                out.append(("unsorted", "the result is not sorted"))
        if any(x[1] != C(-1) for x in saw if x[0] == 2) or any(x[1] != C(9) for x in saw if x[0] == 5):
            out.append(("outside", "a number outside the range is changed"))
        if args:
            f = [x[1] for x in saw if x[0] == 3]
            if sorted(x.c for x in f) != list(range(n)) or any(got[i] != xs[x.c] for i, x in enumerate(f)):
                out.append(("arguments", "arguments do not follow their numbers"))
        return out
    ck.obligation(name, sp, "s_" + name, pre, post)


def comparator(ck, sp, name):
    x, y = (A(("s", c, "s")) for c in "xy")

    def pre(eng):
        yield "", State(), [x, y]

    def post(eng, label, s, v):
        out = []
        for t, g in s.x.get("saw", ()):
            if t == 4:
                ok = s.facts.zero(g)
            elif t in (2, 3):
                ok = g == (x if t == 2 else y)
            elif g == C(1):
                ok = s.facts.entails(sub(sub(x, y), C(1)))
            elif g == C(-1):
                ok = s.facts.entails(sub(sub(y, x), C(1)))
            elif g == ZERO:
                ok = s.facts.zero(sub(x, y))
            elif g.const:
                ok = False
            else:
                raise Incomplete("undetermined answer")
            if not ok:
                out.append(("modified", "a compared object is changed") if t in (2, 3) else
                           ("comparison", "the answer %s does not follow from the operands" % show(g)))
        return out
    ck.obligation("comparator %s" % name, sp, "s_" + name, pre, post)


def main():
    ck = Checker("Q01", "sort.cpp", link=("hal",))
    sp = SortSpec(ck.m)
    top = 6 if TIER == "thorough" else 5
    for kind in ("sort_ptr", "sort_rv", "sort_fwd", "arg_ptr", "arg_fwd", "part_ptr", "part_fwd"):
        for n in range(top + 1):
            case(ck, sp, kind, n)
    numbers(ck, sp, "num2", 2)
    numbers(ck, sp, "num3", 3)
    numbers(ck, sp, "numarg3", 3, True)
    for name in ("twc_num", "twc_const", "twc_rvalue", "twc_object", "twc_pointer", "twc_address", "nul_num", "nul_object", "nul_pointer"):
        comparator(ck, sp, name)
    ck.rep.rule("Sorting and partitioning of unknown elements is interpreted with a comparator that answers smaller, equal or greater, consistently with a weak order and its earlier answers (closed under transitivity); "
                "at every exit the elements are a permutation, order and boundary follow from the answers, arguments moved along, elements outside the range are neither read, compared nor changed, and every element and "
                "comparator is alive when used and destroyed once.")
    ck.rep.assumptions += ["the comparator is a weak order that does not change the elements", "ranges of at most %d elements" % top]
    finish(ck.rep, 20)


if __name__ == "__main__":
    main()
