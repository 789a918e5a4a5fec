"""Rvalues across the library: whatever the caller gives away is moved on to its place, and is never copied on the way."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *


class MoveSpec(ScnSpec):
    unroll = 64
    max_recursion = 8

    def global_init(self, name):
        return True


PARTS = ["lists", "arrays", "trees", "sets", "maps", "single values", "callables", "own allocators"]


def modules():
    """the witness, or the parts of it that compile and what is wrong with the others"""
    try:
        return [witness("moves.cpp", ("hal",))], []
    except Broken as e:
        whole = e
    src = os.path.join(VERIF, "witness", "moves.cpp")
    mods, wrong = [], []
    try:
        mods.append(compile_module(src, ["-DWITNESS_MAIN", "-DPART=0"], link=("hal",)))
    except Broken:
        print("ANALYSIS-BROKEN property=G01: %s" % whole)
        sys.exit(2)
    for k in range(1, len(PARTS) + 1):
        try:
            mods.append(compile_module(src, ["-DWITNESS_MAIN", "-DPART=%d" % k], link=("hal",)))
        except Broken as e:
            wrong.append((k, next((l for l in str(e).split("\n") if "error:" in l), str(e))[-300:]))
    return mods, wrong


def main():
    mods, wrong = modules()
    ck = Checker("G01", mods[0])
    for k, text in wrong:
        ck.rep.failed("the uses of %s" % PARTS[k - 1])
        ck.rep.violation("the uses of %s" % PARTS[k - 1], "rejected", "values that are given away do not get through: " + text, key=(k,))
    specs = {id(m): MoveSpec(m) for m in mods}

    def S(nm, names, *want, moved=None, copies=0):
        m = next((m for m in mods if "s_" + nm in m.funcs), None)
        if m is None:
            return
        ck.m, sp = m, specs[id(m)]
        t = {n: tag(i, n) for i, n in enumerate(names)}
        wl = []
        for w in want:
            if isinstance(w, str):
                wl += [(ANY, t[x]) for x in w]
            elif isinstance(w, int) and not isinstance(w, bool):
                wl.append((C(w),))
            else:
                wl.append((w,))
        scenario(ck, sp, nm, names, wl, moved=names if moved is None else moved, copies=copies)
    S("l_back", "e", "e", 1)
    S("l_front", "e", "e", 1)
    S("l_back2", "ef", "ef", 2)
    S("l_front2", "ef", "fe", 2)
    S("l_mixed", "efg", "efg", 3, moved="f", copies=2)
    S("l_mixedFront", "efg", "efg", 3, moved="f", copies=2)
    S("l_moveCtor", "ef", "ef", 2)
    S("l_moveAssign", "ef", "e", 1)
    S("l_popBack", "eo", 0)
    S("l_popFront", "eo", 0)
    S("a_last", "e", "e", 1)
    S("a_first", "e", "e", 1)
    S("a_at", "ef", "e", 1, "f", 1)
    S("a_last2", "ef", "ef", 2)
    S("a_first2", "ef", "ef", 2)
    S("a_at2", "ef", "ef", 2)
    S("a_at3", "efg", "efg", 3)
    S("a_mixed", "efg", "efg", 3, moved="f", copies=2)
    S("a_mixedFirst", "efg", "efg", 3, moved="f", copies=2)
    S("a_mixedAt", "efg", "efg", 3, moved="eg", copies=1)
    S("a_push", "ef", "e", 1, "f", 1)
    S("a_call", "e", "e", 1)
    S("a_moveCtor", "ef", "ef", 2)
    S("a_moveAssign", "ef", "e", 1)
    S("a_shift", "efg", "gf", 2)
    S("a_removeAt", "ef", "f", 1)
    S("a_popFirst", "efo", "f", 1)
    S("a_popLast", "efo", "e", 1)
    S("t_insert", "e", "e")
    S("t_insertTwice", "ef", 2)
    S("t_insertEqual", "ef", 2)
    S("t_insert2", "ef", 2)
    S("t_insertMixed", "ef", 2, moved="e", copies=1)
    S("t_unique", "e", 1)
    S("t_uniqueTwice", "ef", 2)
    S("t_unique2", "ef", 2)
    S("t_replace", "e", 1)
    S("t_replaceOld", "ef", 1)
    S("t_replaceNew", "ef", 2)
    S("t_replace2", "ef", 2)
    S("t_moveCtor", "ef", 2)
    S("t_moveAssign", "ef", 1)
    S("t_remove", "efg", 2)
    S("s_set", "e", 1)
    S("s_set2", "ef", 2)
    S("s_setMixed", "ef", 2, moved="f", copies=1)
    S("s_moveCtor", "ef", 2)
    S("s_moveAssign", "ef", 1)
    S("m_index", "ef", "ef", 2)
    S("m_indexOld", "efg", "ef", 2, moved="ef")
    S("m_indexNew", "efgh", 2)
    S("m_insert", "ef", "ef", 2)
    S("m_insertNew", "efgh", 2)
    S("m_insertMixed", "ef", "ef", 2, moved="f", copies=1)
    S("m_insertMixed2", "ef", "ef", 2, moved="e", copies=1)
    S("m_insertOld", "efgh", "h")
    S("m_moveCtor", "ef", "ef", 2)
    S("o_ctor", "e", "e")
    S("o_assign", "ef", "ef")
    S("o_emplace", "ef", "ef")
    S("o_moveCtor", "e", "e")
    S("o_moveAssign", "ef", "ef")
    S("o_take", "e", "e")
    S("o_swap", "ef", "fe")
    S("p_all", "ef", "efef")
    S("u_all", "ef", "efef")
    S("v_all", "ef", "efef")
    S("swap", "ef", "fe")
    S("f_ctor", "ea", True, moved="e")
    S("f_move", "ea", True, moved="e")
    S("f_byValue", "ea", "a", 3)
    S("f_byValueC", "ea", "a", 3)
    S("f_invoke", "", 1, 2, 3, 4, 5, 6)
    S("f_invokeMove", "e", "e", 3)
    S("l_own", "e", 0)
    S("a_own", "e", 0)
    S("t_own", "e", 0)
    return finish(ck.rep, 40)


if __name__ == "__main__":
    sys.exit(main())
