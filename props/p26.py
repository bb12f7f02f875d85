"""P26: scope guards run their action exactly once unless released (scope_exit.hpp)."""
import z3
from slpv.eng import *

HARNESS = "p26.cpp"
MIN_OBLIGATIONS = 14
SRC = """
#include <sleipnir/util/scope_exit.hpp>
struct Act { long* n; void operator()(); };
template class slp::scope_exit<Act>;
void life(Act a) { slp::scope_exit g{Act{a}}; }
void life_moved(Act a) { slp::scope_exit g{Act{a}}; slp::scope_exit h{std::move(g)}; }
void life_released(Act a) { slp::scope_exit g{Act{a}}; slp::scope_exit h{std::move(g)}; h.release(); }
"""
CNT = "runs"


def prove(ck):
    P = ck.dump(SRC)
    ck.part("members", members, ck, P)
    ck.part("lifetimes", lifetimes, ck, P)
    ck.assume += ["the guarded action is an arbitrary callable; its own effects are recorded by a ghost call counter",
                  "C++ runs destructors of locals at scope end (semantics of the language)"]


def eng(ck, P):
    E = ck.eng(P, dtor_classes=("scope_exit",))

    def act(E_, st, fn, obj, vals, e):
        st.ghost[CNT] = st.ghost[CNT] + 1
        st.ghost["who"] = E_.rv(st, obj).f["n"]
        return [(st, VOID)]
    E.contracts.append((lambda fn: fn["qn"].startswith("Act::operator()"), act))
    st = State()
    st.ghost[CNT] = z3.IntVal(0)
    st.ghost["who"] = z3.IntVal(-1)
    return E, st


def members(ck, P):
    n = 0
    for f in P.find(r"^slp::scope_exit<.*>::[^:]*$"):
        if f.get("body") is None and f["kind"] != "ctor":
            continue
        E, st = eng(ck, P)
        a, b = fresh("id", I), fresh("id2", I)
        mk = lambda i, act: Obj("scope_exit", {"m_f": Obj("Act", {"n": i}), "m_active": act})
        qn, loc = f["fn"]["qn"], f["loc"]
        if f["kind"] == "ctor" and len(f["params"]) == 1 and "scope_exit" in P.tstr(f["params"][0]["t"]):
            if f["fn"].get("copy"):
                continue
            act = fresh("active", B)
            src = E.alloc(st, mk(a, act), "rhs")
            for s, v in E.construct(st, f, [src]):
                v = E.rv(s, v)
                mf = E.rv(s, v.f["m_f"])
                E.oblige(s, v.f["m_active"] == act, "move: the new guard owns the action iff the source did", loc, "post")
                E.oblige(s, z3.Not(E.read(s, src).f["m_active"]), "move: the source no longer runs the action", loc, "post")
                E.oblige(s, mf.f["n"] == a, "move: the action moved is the source's", loc, "post")
                E.oblige(s, s.ghost[CNT] == 0, "move: the action is not run", loc, "post")
                n += 1
        elif f["kind"] == "ctor" and len(f["params"]) == 1:
            l = E.alloc(st, Obj("Act", {"n": a}), "f")
            for s, v in E.construct(st, f, [l]):
                v = E.rv(s, v)
                E.oblige(s, v.f["m_active"], "construct: the guard is armed", loc, "post")
                E.oblige(s, E.rv(s, v.f["m_f"]).f["n"] == a, "construct: the guard holds the given action", loc, "post")
                E.oblige(s, s.ghost[CNT] == 0, "construct: the action is not run", loc, "post")
                n += 1
        elif f["kind"] == "dtor":
            act = fresh("active", B)
            g = E.alloc(st, mk(a, act), "g")
            for s, _ in E.run_fn(st, f, g, []):
                E.oblige(s, s.ghost[CNT] == z3.If(act, 1, 0), "end of life: the action runs exactly once if armed and never otherwise", loc, "post")
                E.oblige(s, z3.Implies(act, s.ghost["who"] == a), "end of life: it is the guard's own action that runs", loc, "post")
                n += 1
        elif f["fn"]["n"] == "release":
            act = fresh("active", B)
            g = E.alloc(st, mk(a, act), "g")
            for s, _ in E.run_fn(st, f, g, []):
                E.oblige(s, z3.Not(E.read(s, g).f["m_active"]), "release: the guard is disarmed", loc, "post")
                E.oblige(s, s.ghost[CNT] == 0, "release: the action is not run", loc, "post")
                n += 1
        ck.take(E, qn)
    if n < 4:
        raise Unsupported("only %d members of scope_exit found" % n)
    # history lemma: every operation preserves runs + (armed owners) == (released ? 0 : 1)
    runs, armed, rel = z3.Ints("runs armed released")
    inv = lambda r, a, l: z3.And(r + a + l == 1, r >= 0, a >= 0, l >= 0)
    x = z3.Bool("x")
    d = z3.If(x, 1, 0)
    ck.ob("history: destroying a guard preserves runs+armed+released==1", [inv(runs, armed, rel), d <= armed], inv(runs + d, armed - d, rel), kind="lemma")
    ck.ob("history: moving a guard preserves runs+armed+released==1", [inv(runs, armed, rel), d <= armed], inv(runs, armed - d + d, rel), kind="lemma")
    ck.ob("history: releasing a guard preserves runs+armed+released==1", [inv(runs, armed, rel), d <= armed], inv(runs, armed - d, rel + d), kind="lemma")


def lifetimes(ck, P):
    for n, want in (("life", 1), ("life_moved", 1), ("life_released", 0)):
        E, st = eng(ck, P)
        a = fresh("id", I)
        for s, _ in E.run_fn(st, P.one("^%s$" % n), None, [Obj("Act", {"n": a})]):
            E.oblige(s, s.ghost[CNT] == want, "scope end after %s runs the action %d time(s)" % (n, want), kind="post")
        ck.take(E, n)
