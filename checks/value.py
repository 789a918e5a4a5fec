"""templates/optional.h, templates/function.h: values held by value, through every operation from every state."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ka.scn import *

Y, N = ONE, ZERO
e, f = tag(0, "e"), tag(1, "f")


def optional(ck, sp):
    def S(name, names, *want):
        mv = {"ctorMove": "e", "assignRet": "f"}.get(name, "f" if "Move_" in name else "")
        scenario(ck, sp, name, names, [w if isinstance(w, tuple) else (w,) for w in want], moved=mv)
    full = lambda v: (Y, v)
    none = (N, None)
    S("default", "", none)
    S("boolean", "e", none, full(e))
    S("ctorCopy", "e", full(e))
    S("ctorMove", "e", full(e))
    S("ctorArgs", "e", full(e), (C(7), None))
    for nc in ("", "NC"):
        S("copyCtor%s_e" % nc, "e", full(e), full(e), False)
        S("copyCtor%s_n" % nc, "e", none, none)
    S("moveCtor_e", "e", full(e))
    S("moveCtor_n", "e", none, none)
    S("copyAssign_ee", "ef", full(f), full(f), False)
    S("copyAssign_ne", "ef", full(f), full(f), False)
    S("copyAssign_en", "ef", none, none)
    S("copyAssign_nn", "ef", none, none)
    S("copyAssign_self_e", "e", full(e))
    S("copyAssign_self_n", "e", none)
    S("moveAssign_ee", "ef", full(f))
    S("moveAssign_ne", "ef", full(f))
    S("moveAssign_en", "ef", none, none)
    S("moveAssign_nn", "ef", none, none)
    S("assignRet", "ef", True, True, True, True)
    for k in ("value", "valueMove", "emplace", "emplaceMove"):
        S(k + "_e", "ef", full(f))
        S(k + "_n", "ef", full(f))
    S("value_self", "e", full(e))
    S("emplace0_e", "e", full(ZERO))
    S("emplace0_n", "e", full(ZERO))
    S("reset_e", "e", none)
    S("reset_n", "e", none)
    S("resetTwice", "e", none)
    S("resetRefill", "ef", full(f), full(e))
    S("arrow", "e", True, True, True, True)
    S("rvalue", "e", full(e))
    S("crvalue", "e", full(e), full(e))
    S("moveOnly", "", (C(7), None) if False else (C(5), None), (C(7), None), (N, None))
    ck.rep.rule("Every operation is interpreted from the empty and the engaged state with unknown values (typestate per element address): values are constructed only where none lives, "
                "each constructed value is destroyed exactly once, hasValue tells whether one lives, the observed value is the specified one, and operands of copies keep theirs.")
    ck.rep.assumptions += ["the argument of emplace is not the value already held", "moved-from values are unspecified"]


def function(ck, sp):
    def call(v, i):
        return A(("op", "called", 64, v, x, A(("R", -20 - i, "r"))))

    def S(name, names, want, who=None):
        """who: the callables expected to be called, in order"""
        i = names.find("r")
        calls = None if who is None else [(w, x, A(("R", -20 - i, "r"))) for w in who]
        wl = []
        k = 0
        for w in want:
            if w == "call":
                w = call(who[k], i)
                k += 1
            wl.append((w,))
        scenario(ck, sp, "f_" + name, names, wl, calls, moved="c" if name == "rvalue" else "")
    x = A(("s", "x", "u"))
    c, d = tag(0, "c"), tag(1, "d")
    S("default", "", [N])
    S("rvalue", "cxr", [Y, "call", "call"], [c, c])
    S("lvalue", "cxr", [Y, "call"], [c])
    S("clvalue", "cxr", [Y, "call"], [c])
    S("own", "cxr", ["call"], [c])
    S("convert", "cdxr", ["call"], [c])
    S("const", "cxr", ["call"], [c])
    pl = A(("op", "plain", 64, x, A(("R", -21, "r"))))
    S("plain", "xr", [Y, pl, pl, pl])
    S("lambda", "xyr", [add(x, A(("s", "y", "u"))), add(x, A(("s", "y", "u")))])
    scenario(ck, sp, "f_void", "cx", [], [(c, x, ZERO), (c, x, ZERO)])
    S("ref", "x", [add(x, C(7))])
    S("state", "x", [add(x, ONE), add(x, C(2)), add(x, C(2))])
    S("copyCtor_e", "cxr", [Y, Y, "call", "call"], [c, c])
    S("copyCtorNC_e", "cxr", [Y, Y, "call", "call"], [c, c])
    S("copyCtor_n", "c", [N, N])
    S("copyOutlives", "cxr", ["call"], [c])
    S("moveCtor_e", "cxr", [Y, "call"], [c])
    S("moveCtor_n", "c", [N, N])
    S("copyAssign_ee", "cdxr", [Y, "call", "call"], [d, d])
    S("copyAssign_ne", "cdxr", [Y, "call", "call"], [d, d])
    S("copyAssign_en", "cdxr", [N, N])
    S("copyAssign_nn", "c", [N, N])
    S("copyAssign_self_e", "cxr", [Y, "call"], [c])
    S("copyAssign_self_n", "c", [N])
    S("moveAssign_ee", "cdxr", [Y, "call"], [d])
    S("moveAssign_ne", "cdxr", [Y, "call"], [d])
    S("moveAssign_en", "cd", [N])
    S("moveAssign_nn", "c", [N])
    S("assignRet", "c", [True, True])
    S("array", "cxr", [N, "call"], [c])
    scenario(ck, sp, "f_byvalue", "ed", [(Y, tag(0, "e")), (Y, tag(1, "d")), (Y, tag(0, "e"))], copies=2)
    scenario(ck, sp, "invoke", "cxr", [(A(("op", "called", 64, c, x, A(("R", -22, "r")))),), (A(("op", "plain", 64, x, A(("R", -22, "r")))),)])
    ck.rep.rule("Every operation is interpreted from the empty and the bound state with unknown callables and arguments: the call reaches the stored callable with the given arguments and returns its result, "
                "copies hold their own callable, each callable is destroyed exactly once, and every block that was allocated is released.")
    ck.rep.assumptions += ["allocation succeeds", "an empty function is not called", "moved-from functions are unspecified"]


def main():
    pid = sys.argv[1]
    ck = Checker(pid, "value.cpp", link=("hal",))
    sp = ScnSpec(ck.m)
    if pid == "V01":
        optional(ck, sp)
        return finish(ck.rep, 20)
    function(ck, sp)
    finish(ck.rep, 15)


if __name__ == "__main__":
    main()
