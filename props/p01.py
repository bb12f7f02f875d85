"""P01: Slice resolution == Python slice semantics (slice.hpp, all int inputs)."""
import z3
from slpv.eng import *

HARNESS = "p01.cpp"
SAN = ("-fsanitize=undefined", "-fno-sanitize-recover=undefined")
SRC = """
#include <sleipnir/autodiff/slice.hpp>
using namespace slp; using slicing::_;
void use(int a, int b, int c) {
  Slice s; s = Slice(_); s = Slice(a);
  s = Slice(a, b); s = Slice(_, b); s = Slice(a, _); s = Slice(_, _);
  s = Slice(a, b, c); s = Slice(_, b, c); s = Slice(a, _, c); s = Slice(_, _, c);
  s = Slice(a, b, _); s = Slice(_, b, _); s = Slice(a, _, _); s = Slice(_, _, _);
  s.adjust(a);
}
"""
MIN_OBLIGATIONS = 30


def py_slice(start, stop, step, n):
    """Python's slice(start, stop, step).indices(n) and range length; None = omitted."""
    if step is None:
        step = z3.IntVal(1)
    neg = step < 0
    lower = z3.If(neg, z3.IntVal(-1), z3.IntVal(0))
    upper = z3.If(neg, n - 1, n)

    def clip(x, dflt):
        if x is None:
            return dflt
        w = x + n
        return z3.If(x < 0, z3.If(w < lower, lower, w), z3.If(x > upper, upper, x))
    a = clip(start, z3.If(neg, upper, lower))
    b = clip(stop, z3.If(neg, lower, upper))
    return a, b, step


def count_is(cnt, a, b, step):
    """cnt is the number of k>=0 with a + k*step on this side of b."""
    return z3.If(step > 0,
                 z3.If(a < b, z3.And(cnt >= 1, a + (cnt - 1) * step < b, a + cnt * step >= b), cnt == 0),
                 z3.If(a > b, z3.And(cnt >= 1, a + (cnt - 1) * step > b, a + cnt * step <= b), cnt == 0))


def prove(ck):
    P = ck.dump(SRC)
    MIN, MAX = -2 ** 31, 2 ** 31 - 1
    adj = P.one(r"^slp::Slice::adjust$")
    ctors = [f for f in P.funcs.values() if f["kind"] == "ctor" and f["fn"]["qn"] == "slp::Slice::Slice" and f["params"] and f.get("body") is not None and not f["fn"].get("copy") and not f["fn"].get("move")]
    seen = set()
    for c in ctors:
        ck.part("Slice ctor", one, ck, P, c, adj, MIN, MAX, seen)
    ck.ob("every constructor form was reached", [], z3.BoolVal(len(seen) >= 14), kind="coverage")
    # two-phase modular check of adjust alone on arbitrary fields
    ck.part("adjust", adjust_alone, ck, P, adj, MIN, MAX)
    ck.assume += ["int is 32-bit two's complement (machine arithmetic is checked, not assumed: every signed operation has a no-overflow obligation)"]


def args_of(P, c, MIN, MAX):
    vals, spec, pc, inp = [], [], [], {}
    for p, nm in zip(c["params"], ("start", "stop", "step")):
        if "none_t" in P.tstr(p["t"]):
            vals.append(Obj("none_t", {}))
            spec.append(None)
        else:
            v = fresh(nm, I)
            pc += [v >= MIN, v <= MAX]
            vals.append(v)
            spec.append(v)
            inp[nm] = v
    return vals, spec, pc, inp


def one(ck, P, c, adj, MIN, MAX, seen):
    E = ck.eng(P, check_overflow=True)
    st = State()
    vals, spec, pc, inp = args_of(P, c, MIN, MAX)
    n = fresh("length", I)
    inp["length"] = n
    st.pc = tuple(pc) + (n >= 0, n <= MAX)
    k = len(spec)
    names = ["none" if s is None else "int" for s in spec]
    label = "Slice(%s)" % ", ".join(names)
    seen.add(label)
    if k == 1 and spec[0] is None:
        spec = [None, None, None]
    elif k == 1:
        spec = ["idx", spec[0], None]
    elif k == 2:
        spec = spec + [None]
    if spec[2] is not None:
        st.pc += (spec[2] != 0,)
    outs = E.construct(st, c, vals)
    for s, o in outs:
        s = s.copy()
        lv = E.alloc(s, o, "slice")
        for s2, cnt in E.run_fn(s, adj, lv, [n]):
            f = E.read(s2, lv).f
            if isinstance(spec[0], str):
                i = spec[1]
                # Slice(i) == slice(i, i + 1) with i == -1 meaning slice(-1, None)
                pa, pb, ps = py_slice(i, i + 1, None, n)
                pb = z3.If(i == -1, n, pb)
            else:
                pa, pb, ps = py_slice(spec[0], spec[1], spec[2], n)
            E.oblige(s2, count_is(cnt, pa, pb, ps) if spec[2] is not None else z3.If(pa < pb, cnt == pb - pa, cnt == 0), label + ": count equals Python's", c["loc"], "post")
            E.oblige(s2, z3.Implies(cnt > 0, f["start"] == pa), label + ": first element equals Python's", c["loc"], "post")
            MAXN = 2 ** 31 - 1
            st_ok = f["step"] == ps
            if spec[2] is not None:
                st_ok = z3.Or(st_ok, z3.And(cnt <= 1))
            E.oblige(s2, z3.Implies(cnt > 0, st_ok), label + ": stride equals Python's", c["loc"], "post")
            E.oblige(s2, z3.Implies(cnt > 0, z3.And(f["start"] >= 0, f["start"] < n)), label + ": first position inside the sequence", c["loc"], "post")
            last = pb
            E.oblige(s2, z3.Implies(cnt > 1, z3.And(f["start"] + (cnt - 1) * f["step"] >= 0, f["start"] + (cnt - 1) * f["step"] < n)), label + ": last position inside the sequence", c["loc"], "post")
            E.oblige(s2, z3.And(cnt >= 0, cnt <= n), label + ": count between 0 and length", c["loc"], "post")
            ck.nonvacuous(label, list(s2.pc))
    ck.take(E, label, inp)


def adjust_alone(ck, P, adj, MIN, MAX):
    E = ck.eng(P, check_overflow=True)
    st = State()
    o = {k: fresh(k, I) for k in ("start", "stop", "step")}
    n = fresh("length", I)
    st.pc = tuple(x for v in o.values() for x in (v >= MIN, v <= MAX)) + (n >= 0, n <= MAX, o["step"] != 0, o["step"] > MIN)
    lv = E.alloc(st, Obj("slp::Slice", dict(o)), "slice")
    for s2, cnt in E.run_fn(st, adj, lv, [n]):
        f = E.read(s2, lv).f
        pa, pb, ps = py_slice(o["start"], o["stop"], o["step"], n)
        E.oblige(s2, z3.And(count_is(cnt, pa, pb, ps), z3.Implies(cnt > 0, z3.And(f["start"] == pa, f["step"] == ps))), "adjust: Python semantics on any stored slice", adj["loc"], "post")
        ck.nonvacuous("adjust", list(s2.pc))
    ck.take(E, "Slice::adjust", dict(o, length=n))
