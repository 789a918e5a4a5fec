"""containers/tuple.h, containers/pair.h, templates/array.h, templates/name.h, templates/utility.h: plain holders of values."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *


class HoldSpec(ScnSpec):
    unroll = 64

    def global_init(self, name):
        return True


def name(*texts):
    out = []
    for t in texts:
        out.append(C(len(t)))
        out += [C(ord(c)) for c in t + "\0"]
        out += [ONE] * len(t)
    return out


def main():
    ck = Checker("V03", "holders.cpp", link=("hal",))
    sp = HoldSpec(ck.m)
    x, y, z = (A(("s", n, "u")) for n in "xyz")
    any_ = ANY

    def S(nm, names, *want, moved="", copies=None):
        t = {n: tag(i, n) for i, n in enumerate(names)}
        wl = []
        for w in want:
            if isinstance(w, str):
                w = t[w]
                wl.append((any_, w))
            elif isinstance(w, bool):
                wl.append((w,))
            else:
                wl.append((w,) if isinstance(w, Lin) else w)
        scenario(ck, sp, nm, names, wl, moved=moved, copies=copies)
    e3 = ("e", x, "f")
    S("t_ctor", "exf", *e3)
    S("t_ctorMove", "exf", *e3, moved="ef")
    S("t_ctorMixed", "exf", *e3, moved="e")
    S("t_access", "exf", *([True] * 9), C(3), C(3), C(3))
    S("t_firstOfType", "xyez", x, x, "e", y, z, C(4), x, z)
    S("t_write", "exfyg", "e", y, "f", "g", y, "f", "g", y, "e")
    S("t_copy", "exf", *e3, *e3, False, False)
    S("t_copyNC", "exf", *e3, *e3, False)
    S("t_move", "exf", *e3)
    S("t_assign", "exfg", *e3, *e3)
    S("t_assignNC", "exfg", *e3, *e3)
    S("t_assignMove", "exfg", *e3)
    S("t_swap", "exfy", "f", y, "e", *e3)
    S("t_default", "", (any_, ZERO), (any_, ZERO))
    S("t_one", "ef", "e", "f", "e", "e", "f", "e", ONE)
    S("t_nested", "exf", "e", x, C(5), "f")
    S("t_ctorLvalue", "exf", *e3)
    S("t_ctorConst", "exf", *e3)
    S("p_ctor", "ef", "e", "f")
    S("p_ctorLvalue", "ef", "e", "f")
    S("a_itemsLvalue", "ef", "e", "f", C(2))
    S("a_itemsMixed", "ef", "e", "f", C(2), moved="f")
    S("swapInputs", "ef", "f", "e", moved="ef", copies=0)
    S("t_swapInputs", "ef", "f", "e", moved="ef", copies=0)
    S("p_ctorMove", "ef", "e", "f", moved="ef")
    S("p_ctorMixed", "ef", "e", "f", moved="f")
    S("p_access", "ef", True, True, True, True)
    S("p_copy", "ef", "e", "f", "e", "f", "e", "f")
    S("p_move", "ef", "e", "f")
    S("p_assign", "efg", "e", "f", "e", "f", "e", "g")
    S("p_assignMove", "efg", "e", "f")
    S("p_swap", "efgh", "g", "h", "e", "f")
    S("a_items", "ef", "e", "f", C(2))
    S("a_itemsMove", "ef", "e", "f", moved="ef")
    S("a_default", "", (any_, ZERO), (any_, ZERO), C(2))
    S("a_buffer", "ef", "e", "f", "e", "f", C(2))
    S("a_make", "ef", "e", "f", "e", C(2))
    S("a_copy", "ef", "e", "f", "e", "f", "e", "f", False, C(2))
    S("a_move", "ef", "e", "f", C(2))
    S("a_assign", "efg", "e", "f", "e", "f", C(2))
    S("a_assignMove", "efg", "e", "f", C(2))
    S("a_swap", "efgh", "g", "h", "e", "f")
    S("a_access", "efg", True, True, True, True, "e", "g", "f", "g")
    S("a_numbers", "xyz", x, y, z, x, x, z, z, ZERO, ZERO)
    S("a_one", "e", "e", "e", ONE)
    S("swap", "ef", "f", "e")
    S("swapSelf", "x", x)
    S("swapNumbers", "xy", y, x, True, True)
    S("n_literal", "", *name("korin", "x", ""))
    S("n_part", "", *name("abcdef"))
    S("n_array", "", *name("abc"))
    S("n_copy", "", *name("abc"), True)
    S("n_join0", "", *name(""))
    S("n_join1", "", *name("ab"))
    S("n_join", "", *name("abcdeab", "cdeab"))
    S("n_types", "", *name("int8", "uint64", "void", "int32"))
    ck.rep.rule("Straight uses of tuples, pairs, static arrays, exchange and names are interpreted with unknown values: what each accessor refers to, the value found there, what becomes of the operands, and that every element is "
                "constructed where none lives and destroyed once.")
    ck.rep.assumptions += ["moved-from values are unspecified"]
    finish(ck.rep, 25)


if __name__ == "__main__":
    main()
