"""Models (assumed contracts) of the C++ standard library used by /repo.

Each model is the documented meaning of the library operation.  They are part of
the trusted base and are listed in every evidence file.
"""
import re
import z3
from .eng import *

SEQ = r"(std::vector|gch::small_vector|std::array|std::initializer_list)"


def elem_type(eng, fn):
    ty = eng.prog.ty(fn["cls"])
    return ty["targs"][0]["t"]


def seq_of(eng, st, obj):
    v = eng.rv(st, obj)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Obj) and v.cls == "arr":
        return arr_to_seq(v)
    raise Unsupported("sequence expected, got %r" % (v,))


def as_iter(eng, st, v):
    v = eng.rv(st, v)
    if isinstance(v, Iter):
        return v
    if isinstance(v, Ptr) and v.lv is not None and v.lv.path and v.lv.path[-1][0] == "i":
        return Iter(LV(v.lv.root, v.lv.path[:-1]), v.lv.path[-1][1])
    raise Unsupported("iterator expected, got %r" % (v,))


def it_lv(it, off=0):
    i = it.idx if not off else it.idx + off
    if it.rev:
        i = i - 1
    if not isinstance(it.lv, LV):
        return ("val", it, i)
    return it.lv.at(i)


def mk_default(eng, st, t):
    """Value-initialised object of type t (None if unknown)."""
    ty = eng.prog.ty(t)
    k = ty["k"]
    if k in ("bool", "int", "enum", "float", "ptr"):
        return st, eng.zero_of(t)
    if k == "rec":
        s = ty["s"]
        for hk in getattr(eng, "default_hooks", []):
            h = hk(eng, st, ty)
            if h is not None:
                return st, h
        if re.match(SEQ, s) or s.startswith("std::basic_string<"):
            return st, Seq(z3.IntVal(0), None, "seq")
        fs = [f for f in eng.prog.funcs.values() if f["kind"] == "ctor" and f["fn"].get("default") and eng.prog.ty(f["fn"]["cls"]).get("id") == ty["id"]]
        if fs:
            r = eng.invoke(st, fs[0]["fn"], None, [])
            if len(r) == 1:
                return r[0]
            raise Unsupported("default constructor forks")
        h = default_hooks(eng, st, ty)
        if h is not None:
            return st, h
        rec = eng.prog.records.get(ty["id"])
        if rec is not None:
            f = {}
            for x in rec["fields"]:
                if "init" in x:
                    (st, v), = eng.ev_r(st, x["init"])
                    f[x["n"]] = v
                else:
                    st, f[x["n"]] = mk_default(eng, st, x["t"])
            return st, Obj(s, f)
        return st, eng.fresh_of(t, "dflt")
    raise Unsupported("default of %s" % ty["s"])


def default_hooks(eng, st, ty):
    for h in getattr(eng, "default_hooks", []):
        r = h(eng, st, ty)
        if r is not None:
            return r
    if ty["s"].startswith("std::pair<"):
        t = ty["targs"]
        st, a = mk_default(eng, st, t[0]["t"])
        st, b = mk_default(eng, st, t[1]["t"])
        return Obj("pair", {"first": a, "second": b})
    return None


def const_data(v):
    """Lifted data whose every element is v."""
    return tmap(lambda x: z3.K(I, x), v)


# ------------------------------------------------------------ construct by args
def make_elem(eng, st, t, vals, exprs):
    """Construct a T from constructor arguments (emplace_back)."""
    ty = eng.prog.ty(t)
    if ty["k"] != "rec":
        if not vals:
            return [(st, eng.zero_of(t))]
        v = eng.rv(st, vals[0])
        if ty["k"] == "float" and is_leaf(v) and v.sort() == I:
            v = eng.dom.of_int(v)
        return [(st, v)]
    if ty["s"].startswith("std::pair<") and len(vals) == 2:
        return [(st, Obj("pair", {"first": eng.rv(st, vals[0]), "second": eng.rv(st, vals[1])}))]
    for h in getattr(eng, "make_hooks", []):
        r = h(eng, st, ty, vals, exprs)
        if r is not None:
            return r
    if len(vals) == 1:
        v = eng.rv(st, vals[0])
        at = eng.prog.ty(eng.prog.strip_ref(exprs[0]["t"])) if exprs and isinstance(exprs[0], dict) else None
        if at is not None and at.get("id") == ty["id"]:
            return [(st, v)]
        if isinstance(v, Obj) and v.cls == ty["s"]:
            return [(st, v)]
        if isinstance(v, (Seq, Clo)):
            return [(st, v)]
    if not vals:
        s, v = mk_default(eng, st, t)
        return [(s, v)]
    # a constructor in /repo
    best = None
    for f in eng.prog.funcs.values():
        if f["kind"] != "ctor" or eng.prog.ty(f["fn"]["cls"]).get("id") != ty["id"]:
            continue
        if len(f["params"]) != len(vals):
            continue
        sc = 0
        ok = True
        for p, x, v in zip(f["params"], exprs, vals):
            pt = eng.prog.ty(eng.prog.strip_ref(p["t"]))
            if not isinstance(x, dict):
                continue
            xt = eng.prog.ty(eng.prog.strip_ref(x["t"]))
            if pt["s"] == xt["s"] or pt.get("id") is not None and pt.get("id") == xt.get("id"):
                sc += 2
            elif pt["k"] in ("float", "int", "bool") and xt["k"] in ("float", "int", "bool"):
                sc += 1
            else:
                ok = False
        if ok and (best is None or sc > best[0]):
            best = (sc, f)
    if best:
        return eng.invoke(st, best[1]["fn"], None, vals)
    rec = eng.prog.records.get(ty["id"])
    if rec is not None and len(rec["fields"]) == len(vals):
        return [(st, Obj(ty["s"], {x["n"]: eng.rv(st, v) for x, v in zip(rec["fields"], vals)}))]
    if rec is not None and len(rec["fields"]) > len(vals) and vals:
        # aggregate / parenthesised init
        f = {}
        for i, x in enumerate(rec["fields"]):
            if i < len(vals):
                f[x["n"]] = eng.rv(st, vals[i])
            else:
                st, f[x["n"]] = mk_default(eng, st, x["t"])
        return [(st, Obj(ty["s"], f))]
    raise Unsupported("construct %s from %d arguments" % (ty["s"], len(vals)))


# ------------------------------------------------------------ sequences
def h_seq(eng, st, fn, obj, vals, e):
    n = fn["n"]
    q = fn["qn"]
    et = elem_type(eng, fn)
    isarr = q.startswith("std::array")
    if obj is None and (n in ("vector", "small_vector", "array", "initializer_list")):
        return seq_ctor(eng, st, fn, vals, e, et)
    if n == "operator=":
        v = eng.rv(st, vals[0])
        eng.write(st, obj, v)
        return [(st, obj)]
    s = seq_of(eng, st, obj)
    if n in ("size", "max_size"):
        return [(st, s.n)]
    if n == "empty":
        return [(st, s.n == 0)]
    if n in ("operator[]", "at"):
        i = eng.rv(st, vals[0])
        if eng.check_bounds:
            eng.oblige(st, z3.And(i >= 0, i < s.n), "index within sequence", kind="bounds")
        return [(st, elem_lv(eng, st, obj, i))]
    if n in ("begin", "cbegin", "data"):
        return [(st, mk_iter(eng, st, obj, z3.IntVal(0)))]
    if n in ("end", "cend"):
        return [(st, mk_iter(eng, st, obj, s.n))]
    if n in ("rbegin", "crbegin"):
        it = mk_iter(eng, st, obj, s.n)
        return [(st, Iter(it.lv, it.idx, True))]
    if n in ("rend", "crend"):
        it = mk_iter(eng, st, obj, z3.IntVal(0))
        return [(st, Iter(it.lv, it.idx, True))]
    if n in ("front",):
        if eng.check_bounds:
            eng.oblige(st, s.n > 0, "front of nonempty sequence", kind="bounds")
        return [(st, elem_lv(eng, st, obj, z3.IntVal(0)))]
    if n in ("back",):
        if eng.check_bounds:
            eng.oblige(st, s.n > 0, "back of nonempty sequence", kind="bounds")
        return [(st, elem_lv(eng, st, obj, s.n - 1))]
    if n in ("reserve", "shrink_to_fit"):
        return [(st, VOID)]
    if n == "clear":
        eng.write(st, obj, Seq(z3.IntVal(0), s.d, s.cls))
        return [(st, VOID)]
    if n == "pop_back":
        if eng.check_bounds:
            eng.oblige(st, s.n > 0, "pop_back of nonempty sequence", kind="bounds")
        eng.write(st, obj, Seq(s.n - 1, s.d, s.cls))
        return [(st, VOID)]
    if n in ("push_back", "emplace_back"):
        outs = []
        for s2, v in make_elem(eng, st, et, vals, e.get("args", [])):
            s2 = s2.copy()
            cur = seq_of(eng, s2, obj)
            d = cur.d
            if d is None:
                d = lift(v, "seq")
            nn = cur.n
            eng.write(s2, obj, Seq(nn + 1, vstore(d, nn, v), cur.cls))
            if eng.on_push:
                eng.on_push(s2, obj, nn, v)
            outs.append((s2, obj.at(nn) if isinstance(obj, LV) else VOID))
        return outs
    if n == "resize":
        nn = eng.rv(st, vals[0])
        if len(vals) > 1:
            dv = eng.rv(st, vals[1])
        else:
            st, dv = mk_default(eng, st, et)
        d = s.d if s.d is not None else lift(dv)
        j = z3.Int("j!resize")
        nd = tmap2(lambda a, b: z3.Lambda([j], z3.If(j < s.n, z3.Select(a, j), b)), d, dv)
        eng.write(st, obj, Seq(nn, nd, s.cls))
        return [(st, VOID)]
    if n == "fill":
        eng.write(st, obj, Seq(s.n, const_data(eng.rv(st, vals[0])), s.cls))
        return [(st, VOID)]
    raise Unsupported("%s" % q)


def tmap2(fn, d, v):
    """map over lifted data d with element tree v."""
    if is_leaf(d):
        return fn(d, v)
    if isinstance(d, Obj):
        return Obj(d.cls, {k: tmap2(fn, d.f[k], v.f[k]) for k in d.f})
    if isinstance(d, Seq):
        return Seq(fn(d.n, v.n), None if d.d is None else tmap2(fn, d.d, v.d) if v.d is not None else d.d, d.cls)
    return d


def elem_lv(eng, st, obj, i):
    if isinstance(obj, LV):
        return obj.at(i)
    v = eng.rv(st, obj)
    return ValLV(vselect(v.d, i))


def mk_iter(eng, st, obj, i):
    if isinstance(obj, LV):
        return Iter(obj, i)
    return Iter(eng.alloc(st, eng.rv(st, obj), "rng"), i)


def seq_ctor(eng, st, fn, vals, e, et):
    pt = fn.get("pt", [])
    vs = [eng.rv(st, v) for v in vals]
    vs = [v for v in vs if not (isinstance(v, Pure) and v.tag == "alloc")]
    if not vs:
        if fn["qn"].startswith("std::array"):
            n = eng.prog.ty(fn["cls"])["targs"][1]["i"]
            return [(st, Seq(z3.IntVal(n), lift(eng.fresh_of(et)), "seq"))]
        return [(st, Seq(z3.IntVal(0), None, "seq"))]
    v = vs[0]
    if isinstance(v, Seq) and len(vs) == 1:
        return [(st, v)]
    if is_leaf(v) and v.sort() == I and len(vs) == 1:
        st, dv = mk_default(eng, st, et)
        return [(st, Seq(v, const_data(dv), "seq"))]
    if is_leaf(v) and v.sort() == I and len(vs) == 2:
        return [(st, Seq(v, const_data(vs[1]), "seq"))]
    if isinstance(v, Iter) and len(vs) == 2:
        a, b = vs
        src = eng.read(st, a.lv)
        j = z3.Int("j!ctor")
        d = None if src.d is None else tmap(lambda x: z3.Lambda([j], z3.Select(x, j + a.idx)), src.d)
        z = z3.simplify(a.idx)
        if z3.is_int_value(z) and z.as_long() == 0:
            d = src.d
        return [(st, Seq(b.idx - a.idx, d, "seq"))]
    if isinstance(v, Obj) and v.cls == "arr":
        return [(st, arr_to_seq(v))]
    raise Unsupported("constructor of %s" % fn["qn"])


def arr_to_seq(v):
    n = len(v.f)
    if n == 0:
        return Seq(z3.IntVal(0), None, "seq")
    d = lift(v.f["0"], "il")
    for i in range(n):
        d = vstore(d, z3.IntVal(i), v.f[str(i)])
    return Seq(z3.IntVal(n), d, "seq")


# ------------------------------------------------------------ spans
def mk_span(it, n):
    return Obj("span", {"it": it, "n": n})


def h_span(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if obj is None and n == "span":
        if not vals:
            return [(st, mk_span(Iter(None, z3.IntVal(0)), z3.IntVal(0)))]
        a = vals[0]
        v = eng.rv(st, a)
        if isinstance(v, Obj) and v.cls == "span":
            return [(st, v)]
        if isinstance(v, Iter) and len(vals) == 2:
            w = eng.rv(st, vals[1])
            if isinstance(w, Iter):
                return [(st, mk_span(v, w.idx - v.idx))]
            return [(st, mk_span(v, w))]
        if isinstance(v, Seq):
            lv = a if isinstance(a, LV) else eng.alloc(st, v, "spanned")
            return [(st, mk_span(Iter(lv, z3.IntVal(0)), v.n))]
        if isinstance(v, Obj) and v.cls == "arr":
            v = arr_to_seq(v)
            return [(st, mk_span(Iter(eng.alloc(st, v, "spanned"), z3.IntVal(0)), v.n))]
        for h in getattr(eng, "span_hooks", []):
            r = h(eng, st, a, v)
            if r is not None:
                return [(st, r)]
        raise Unsupported("span from %r" % (v,))
    if n == "operator=":
        eng.write(st, obj, eng.rv(st, vals[0]))
        return [(st, obj)]
    v = eng.rv(st, obj)
    if not (isinstance(v, Obj) and v.cls == "span"):
        if isinstance(v, Seq):
            return h_seq(eng, st, fn, obj, vals, e)
        raise Unsupported("span method on %r" % (v,))
    it, ln = v.f["it"], v.f["n"]
    if n in ("size",):
        return [(st, ln)]
    if n == "empty":
        return [(st, ln == 0)]
    if n in ("operator[]",):
        i = eng.rv(st, vals[0])
        if eng.check_bounds:
            eng.oblige(st, z3.And(i >= 0, i < ln), "index within span", kind="bounds")
        return [(st, it.lv.at(addi(it.idx, i)))]
    if n in ("front",):
        return [(st, it.lv.at(it.idx))]
    if n in ("back",):
        return [(st, it.lv.at(it.idx + ln - 1))]
    if n in ("begin", "data"):
        return [(st, it)]
    if n == "end":
        return [(st, Iter(it.lv, addi(it.idx, ln)))]
    if n == "subspan":
        a = eng.rv(st, vals[0])
        c = eng.rv(st, vals[1]) if len(vals) > 1 and e and not isinstance(vals[1], dict) else None
        if c is None or z3.is_int_value(z3.simplify(c)) and z3.simplify(c).as_long() > 2 ** 62:
            c = ln - a
        return [(st, mk_span(Iter(it.lv, addi(it.idx, a)), c))]
    if n == "first":
        return [(st, mk_span(it, eng.rv(st, vals[0])))]
    raise Unsupported(fn["qn"])


def addi(a, b):
    s = z3.simplify(a)
    if z3.is_int_value(s) and s.as_long() == 0:
        return b
    return a + b


# ------------------------------------------------------------ iterators
def h_iter(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if obj is None and "cls" in fn and (n in ("__normal_iterator", "reverse_iterator") or len(vals) == 1 and n not in ("operator*", "operator++", "operator--")):
        v = eng.rv(st, vals[0])
        if n == "reverse_iterator" and isinstance(v, Iter):
            return [(st, v if v.rev else Iter(v.lv, v.idx, True))]
        return [(st, v)]
    args = ([obj] if obj is not None else []) + list(vals)
    a = as_iter(eng, st, args[0])
    sgn = -1 if a.rev else 1
    if n == "operator*":
        return [(st, it_lv(a))]
    if n == "operator->":
        return [(st, Ptr(it_lv(a)))]
    if n == "base":
        return [(st, Iter(a.lv, a.idx))]
    if n in ("operator++", "operator--"):
        d = sgn if n == "operator++" else -sgn
        new = Iter(a.lv, a.idx + d, a.rev)
        eng.write(st, args[0], new)
        return [(st, a if len(args) > 1 else args[0])]
    if n == "operator[]":
        return [(st, it_lv(Iter(a.lv, a.idx + sgn * eng.rv(st, args[1]), a.rev)))]
    if n in ("operator+=", "operator-="):
        k = eng.rv(st, args[1])
        eng.write(st, args[0], Iter(a.lv, a.idx + k * sgn if n == "operator+=" else a.idx - k * sgn, a.rev))
        return [(st, args[0])]
    b = eng.rv(st, args[1])
    if n in ("operator+", "operator-") and is_leaf(b):
        return [(st, Iter(a.lv, a.idx + sgn * b if n == "operator+" else a.idx - sgn * b, a.rev))]
    b = as_iter(eng, st, b)
    if n == "operator-":
        return [(st, sgn * (a.idx - b.idx))]
    if n in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
        if not same_lv(a.lv, b.lv):
            raise Unsupported("comparison of iterators into different sequences")
        x, y = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
        c = {"operator==": x == y, "operator!=": x != y, "operator<": x < y, "operator<=": x <= y, "operator>": x > y, "operator>=": x >= y}[n]
        return [(st, c)]
    raise Unsupported(fn["qn"])


# ------------------------------------------------------------ scalars
def rvs(eng, st, vals):
    return [eng.rv(st, v) for v in vals]


def h_minmax(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if len(vals) == 1 and isinstance(eng.rv(st, vals[0]), (Seq, Obj)) and not (isinstance(eng.rv(st, vals[0]), Obj) and eng.rv(st, vals[0]).cls == "ext"):
        v = eng.rv(st, vals[0])
        if isinstance(v, Obj) and v.cls == "arr":
            xs = [v.f[str(i)] for i in range(len(v.f))]
        elif isinstance(v, Seq):
            nn = z3.simplify(v.n)
            if not z3.is_int_value(nn):
                raise Unsupported("min/max of list")
            xs = [vselect(v.d, z3.IntVal(i)) for i in range(nn.as_long())]
        r = xs[0]
        for x in xs[1:]:
            r = ite(eng.compare(st, "<", x, r) if n == "min" else eng.compare(st, "<", r, x), x, r)
        return [(st, r)]
    if len(vals) > 2:
        raise Unsupported("min/max with comparator")
    a, b = rvs(eng, st, vals)
    c = eng.compare(st, "<", b, a) if n == "min" else eng.compare(st, "<", a, b)
    return [(st, ValLV(ite(c, b, a)))]


def h_clamp(eng, st, fn, obj, vals, e):
    v, lo, hi = rvs(eng, st, vals)
    if eng.check_bounds:
        eng.oblige(st, z3.Not(eng.compare(st, "<", hi, lo)), "clamp bounds are ordered", kind="bounds")
    return [(st, ValLV(ite(eng.compare(st, "<", v, lo), lo, ite(eng.compare(st, "<", hi, v), hi, v))))]


def h_abs(eng, st, fn, obj, vals, e):
    v = eng.rv(st, vals[0])
    if is_leaf(v) and v.sort() == I:
        return [(st, z3.If(v < 0, -v, v))]
    return [(st, eng.dom.abs(v))]


def h_isfinite(eng, st, fn, obj, vals, e):
    return [(st, eng.dom.isfinite(eng.rv(st, vals[0])))]


def h_isnan(eng, st, fn, obj, vals, e):
    v = eng.rv(st, vals[0])
    if isinstance(v, Obj) and v.cls == "ext":
        return [(st, v.f["k"] == NAN)]
    return [(st, z3.BoolVal(False))]


def h_pass(eng, st, fn, obj, vals, e):
    return [(st, vals[0])]


def h_exchange(eng, st, fn, obj, vals, e):
    old = eng.rv(st, vals[0])
    v = eng.rv(st, vals[1])
    if isinstance(v, Ptr) and v.lv is None and is_leaf(old):
        v = z3.IntVal(0)
    eng.write(st, vals[0], v)
    return [(st, old)]


def h_swap(eng, st, fn, obj, vals, e):
    a, b = rvs(eng, st, vals)
    eng.write(st, vals[0], b)
    eng.write(st, vals[1], a)
    return [(st, VOID)]


def h_addressof(eng, st, fn, obj, vals, e):
    return [(st, eng.addr(st, vals[0], e["args"][0]["t"]))]


def h_limits(eng, st, fn, obj, vals, e):
    n = fn["n"]
    t = elem_type(eng, fn)
    k = eng.prog.ty(t)["k"]
    if k == "float":
        if n == "infinity":
            return [(st, eng.dom.const("inf"))]
        if n == "quiet_NaN":
            return [(st, eng.dom.const("nan"))]
        if n == "epsilon":
            return [(st, eng.dom.const(str(2.0 ** -52)))]
        if n == "max":
            return [(st, eng.dom.const(repr(1.7976931348623157e308)))]
        if n == "lowest":
            return [(st, eng.dom.const(repr(-1.7976931348623157e308)))]
        if n == "min":
            return [(st, eng.dom.const(repr(2.2250738585072014e-308)))]
    r = eng.int_range(t)
    if r:
        return [(st, z3.IntVal(r[1] if n == "max" else r[0]))]
    raise Unsupported(fn["qn"])


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


def h_math(eng, st, fn, obj, vals, e):
    xs = rvs(eng, st, vals)
    xs = [z3.ToReal(x) if is_leaf(x) and x.sort() == I else x for x in xs]
    n = fn["n"]
    n = {"fabs": "abs"}.get(n, n)
    if n == "abs":
        return [(st, eng.dom.abs(xs[0]))]
    if any(not is_leaf(x) for x in xs):
        # extended domain: finite result unconstrained except by its mathematical value
        return [(st, ext_math(eng, n, xs))]
    r = uf("m_" + n, *([R] * (len(xs) + 1)))(*xs)
    ax = MATH_AXIOMS.get(n)
    if ax is not None:
        st = st.assume(*ax(r, *xs))
    return [(st, r)]


def ext_math(eng, n, xs):
    """Total function of the operands; the result's kind and value are uninterpreted."""
    ks = [x.f["k"] for x in xs]
    vs = [x.f["v"] for x in xs]
    k = uf("k_" + n, *([I] * len(xs) + [R] * len(xs) + [I]))(*(ks + vs))
    v = uf("m_" + n, *([R] * (len(xs) + 1)))(*vs)
    return eng.dom.mk(z3.If(k < 0, 0, z3.If(k > 3, 3, k)), v)


MATH_AXIOMS = {
    "sqrt": lambda r, x: [r >= 0, z3.Implies(x >= 0, r * r == x)],
    "hypot": lambda r, x, y: [r >= 0, r * r == x * x + y * y],
    "exp": lambda r, x: [r > 0],
    "pow": lambda r, x, y: [z3.Implies(x > 0, r > 0), z3.Implies(y == 2, r == x * x), z3.Implies(y == 1, r == x), z3.Implies(y == 0, r == 1)],
}


# ------------------------------------------------------------ pairs, tuples, optional
def h_pair(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if n in ("pair", "make_pair"):
        if len(vals) == 2:
            return [(st, Obj("pair", {"first": eng.rv(st, vals[0]), "second": eng.rv(st, vals[1])}))]
        if len(vals) == 1:
            return [(st, eng.rv(st, vals[0]))]
        t = eng.prog.ty(fn["cls"])["targs"]
        st, a = mk_default(eng, st, t[0]["t"])
        st, b = mk_default(eng, st, t[1]["t"])
        return [(st, Obj("pair", {"first": a, "second": b}))]
    if n == "operator=":
        eng.write(st, obj, eng.rv(st, vals[0]))
        return [(st, obj)]
    raise Unsupported(fn["qn"])


def h_tuple(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if n in ("tuple", "make_tuple"):
        if len(vals) == 1 and isinstance(eng.rv(st, vals[0]), Obj) and eng.rv(st, vals[0]).cls == "tuple":
            return [(st, eng.rv(st, vals[0]))]
        return [(st, Obj("tuple", {str(i): eng.rv(st, v) for i, v in enumerate(vals)}))]
    if n == "operator=":
        eng.write(st, obj, eng.rv(st, vals[0]))
        return [(st, obj)]
    raise Unsupported(fn["qn"])


def h_get(eng, st, fn, obj, vals, e):
    idx = None
    for t in fn.get("targs", []):
        if "i" in t:
            idx = int(t["i"])
            break
    if idx is None:
        raise Unsupported("std::get without index")
    return [(st, bind(eng, st, vals[0], idx, None))]


def h_optional(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if n == "optional":
        if not vals:
            return [(st, Obj("optional", {"has": z3.BoolVal(False), "val": UNINIT}))]
        v = eng.rv(st, vals[0])
        if isinstance(v, Obj) and v.cls == "optional":
            return [(st, v)]
        if isinstance(v, Pure) or isinstance(v, Obj) and v.cls.startswith("std::nullopt"):
            return [(st, Obj("optional", {"has": z3.BoolVal(False), "val": UNINIT}))]
        t = elem_type(eng, fn)
        return [(s, Obj("optional", {"has": z3.BoolVal(True), "val": x})) for s, x in make_elem(eng, st, t, [vals[0]], e.get("args", []))]
    o = eng.rv(st, obj)
    if n == "operator=":
        v = eng.rv(st, vals[0])
        if isinstance(v, Obj) and v.cls == "optional":
            eng.write(st, obj, v)
            return [(st, obj)]
        t = elem_type(eng, fn)
        outs = []
        for s, x in make_elem(eng, st, t, [vals[0]], e.get("args", [])[1:] or [None]):
            s = s.copy()
            eng.write(s, obj, Obj("optional", {"has": z3.BoolVal(True), "val": x}))
            outs.append((s, obj))
        return outs
    if n in ("operator bool", "has_value"):
        return [(st, o.f["has"])]
    if n in ("value", "operator*"):
        return [(st, obj.fld("val") if isinstance(obj, LV) else ValLV(o.f["val"]))]
    if n == "operator->":
        return [(st, Ptr(obj.fld("val")))]
    if n == "value_or":
        d = vals[0]
        t = elem_type(eng, fn)
        sv = z3.simplify(o.f["has"])
        if z3.is_true(sv):
            return [(st, o.f["val"])]
        outs = []
        for s, x in make_elem(eng, st, t, [d], e.get("args", [])):
            if z3.is_false(sv):
                outs.append((s, x))
            else:
                outs.append((s, ite(o.f["has"], o.f["val"], x)))
        return outs
    if n == "reset":
        eng.write(st, obj, Obj("optional", {"has": z3.BoolVal(False), "val": o.f["val"]}))
        return [(st, VOID)]
    raise Unsupported(fn["qn"])


# ------------------------------------------------------------ callables
def h_function(eng, st, fn, obj, vals, e):
    n = fn["n"]
    if n in ("function", "function_ref", "move_only_function"):
        if not vals:
            return [(st, Pure("nullfn"))]
        v = eng.rv(st, vals[0])
        return [(st, v)]
    if n == "operator()":
        return eng.call_clo(st, eng.rv(st, obj), vals, e)
    if n == "operator bool":
        v = eng.rv(st, obj)
        return [(st, z3.BoolVal(not (isinstance(v, Pure) and v.tag == "nullfn")))]
    if n == "operator=":
        eng.write(st, obj, eng.rv(st, vals[0]))
        return [(st, obj)]
    raise Unsupported(fn["qn"])


def h_invoke(eng, st, fn, obj, vals, e):
    return eng.call_clo(st, eng.rv(st, vals[0]), vals[1:], e)


def h_opaque(eng, st, fn, obj, vals, e):
    return [(st, Pure("opaque"))]


def h_void(eng, st, fn, obj, vals, e):
    return [(st, VOID)]


def h_clock(eng, st, fn, obj, vals, e):
    return [(st, Pure("time"))]


def h_fmt(eng, st, fn, obj, vals, e):
    return [(st, Pure("fmt"))]


def h_path_end(eng, st, fn, obj, vals, e):
    return []


def h_back_inserter(eng, st, fn, obj, vals, e):
    return [(st, Obj("back_inserter", {"lv": Pure("lv", vals[0])}))]


def range_of(eng, st, v):
    """(container LV or None, Seq value) of a range argument."""
    x = eng.rv(st, v)
    if isinstance(x, Seq):
        lv = v if isinstance(v, LV) else eng.alloc(st, x, "rng")
        return lv, z3.IntVal(0), x.n
    if isinstance(x, Obj) and x.cls == "span":
        return x.f["it"].lv, x.f["it"].idx, x.f["n"]
    raise Unsupported("range %r" % (x,))


def h_rcopy(eng, st, fn, obj, vals, e):
    """std::ranges::copy(range, out)."""
    lv, off, n = range_of(eng, st, vals[0])
    src = eng.read(st, lv)
    out = eng.rv(st, vals[1])
    j = z3.Int("j!cp")
    if isinstance(out, Obj) and out.cls == "back_inserter":
        dst = out.f["lv"].data
        cur = seq_of(eng, st, dst)
        if src.d is None:
            return [(st, VOID)]
        d = cur.d if cur.d is not None else tmap(lambda x: fresh("cp", x.sort()), src.d)
        nd = tmap(lambda a, b: z3.Lambda([j], z3.If(j >= cur.n, z3.Select(b, j - cur.n + off), z3.Select(a, j))), d, src.d)
        eng.write(st, dst, Seq(cur.n + n, nd, cur.cls))
        return [(st, VOID)]
    it = as_iter(eng, st, out)
    cur = eng.read(st, it.lv)
    nd = tmap(lambda a, b: z3.Lambda([j], z3.If(z3.And(j >= it.idx, j < it.idx + n), z3.Select(b, j - it.idx + off), z3.Select(a, j))), cur.d, src.d)
    eng.write(st, it.lv, Seq(cur.n, nd, cur.cls))
    return [(st, VOID)]


def elem_pred(eng, st, clo, lv, off, ln):
    """Boolean function of the element position: pred applied to that element."""
    i = fresh("ai", I)
    s0 = st.copy()
    base = len(s0.pc)
    s0 = s0.assume(i >= 0, i < ln)
    res = eng.call_clo(s0, clo, [lv.at(addi(off, i))])
    cond = None
    for s, v in res:
        if not eng.pure_since(st, s):
            raise Unsupported("predicate with side effects")
        c = z3.And(*(list(s.pc[base + 2:]) + [eng.as_bool(v)]))
        cond = c if cond is None else z3.Or(cond, c)
    if cond is None:
        raise Unsupported("predicate without outcome")
    return lambda b: z3.substitute(cond, (i, b))


def h_erase_if(eng, st, fn, obj, vals, e):
    """std::erase_if: exactly the elements satisfying the predicate go, order kept."""
    lv = vals[0]
    s = seq_of(eng, st, lv)
    if s.d is None:
        return [(st, z3.IntVal(0))]
    pf = elem_pred(eng, st, eng.rv(st, vals[1]), lv, z3.IntVal(0), s.n)
    nn = fresh("erased.n", I)
    nd = tmap(lambda x: fresh("erased", x.sort()), s.d)
    src = z3.Function("src!%d" % next(_cnt), I, I)
    dst = z3.Function("dst!%d" % next(_cnt), I, I)
    q, p = z3.Int("q!%d" % next(_cnt)), z3.Int("q!%d" % next(_cnt))
    eq = lambda a, b: z3.And(*[select(x, a) == select(y, b) for (_, x), (_, y) in zip(leaves(nd), leaves(s.d))])
    st = st.assume(nn >= 0, nn <= s.n,
                   z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nn), z3.And(src(q) >= q, src(q) < s.n, eq(q, src(q)), z3.Not(pf(src(q))))), patterns=[src(q)] + [z3.Select(x, q) for _, x in leaves(nd)][:1]),
                   z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s.n, z3.Not(pf(q))), z3.And(dst(q) >= 0, dst(q) <= q, dst(q) < nn, eq(dst(q), q), src(dst(q)) == q)), patterns=[dst(q)] + [z3.Select(x, q) for _, x in leaves(s.d)][:1]),
                   z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < nn), src(p) < src(q)), patterns=[z3.MultiPattern(src(p), src(q))]))
    eng.__dict__.setdefault("erase_log", []).append((s, Seq(nn, nd, s.cls), src, dst))
    eng.write(st, lv, Seq(nn, nd, s.cls))
    return [(st, s.n - nn)]


def h_allof(eng, st, fn, obj, vals, e):
    """all_of/any_of/none_of(range, pred): universally quantified over the elements."""
    vs = list(vals)
    n = fn["qn"]
    if "ranges" in n:
        lv, off, ln = range_of(eng, st, vs[0])
        clo = vs[1]
    else:
        a, z = as_iter(eng, st, vs[0]), as_iter(eng, st, vs[1])
        lv, off, ln, clo = a.lv, a.idx, z.idx - a.idx, vs[2]
        if z3.is_int_value(z3.simplify(a.idx)) and z3.simplify(a.idx).as_long() == 0:
            ln = z.idx
    if eng.read(st, lv).d is None:
        return [(st, z3.BoolVal("any_of" not in n))]
    pf = elem_pred(eng, st, eng.rv(st, clo), lv, off, ln)
    b = z3.Int("q!%d" % next(_cnt))
    body = pf(b)
    rng = z3.And(b >= 0, b < ln)
    if "all_of" in n:
        r = z3.ForAll([b], z3.Implies(rng, body))
    elif "any_of" in n:
        r = z3.Exists([b], z3.And(rng, body))
    else:
        r = z3.ForAll([b], z3.Implies(rng, z3.Not(body)))
    return [(st, r)]


import itertools
_cnt = itertools.count()


def h_fill(eng, st, fn, obj, vals, e):
    vs = rvs(eng, st, vals)
    j = z3.Int("j!fill")
    if "ranges" in fn["qn"]:
        lv, off, n = range_of(eng, st, vals[0])
        v = vs[1]
    else:
        a, b = as_iter(eng, st, vals[0]), as_iter(eng, st, vals[1])
        lv, off, n, v = a.lv, a.idx, b.idx - a.idx, vs[2]
    cur = eng.read(st, lv)
    nd = tmap2(lambda a, x: z3.Lambda([j], z3.If(z3.And(j >= off, j < off + n), x, z3.Select(a, j))), cur.d, v)
    eng.write(st, lv, Seq(cur.n, nd, cur.cls))
    return [(st, VOID)]


def h_adaptor(eng, st, fn, obj, vals, e):
    """std::views closures: views::reverse, views::drop(n), views::take(n) (and adjacent pipes)."""
    m = re.match(r".*_RangeAdaptor<std::ranges::views::_(\w+)>::operator\(\)$", fn["qn"])
    if m:
        vs = [eng.rv(st, v) for v in vals]
        if len(vals) == 1:
            return [(st, Pure("adaptor", (m.group(1), vs)))]
        return [(st, apply_view(eng, st, m.group(1), vals[0], vs[1:]))]
    m = re.match(r".*::views::_(\w+)::operator\(\)$", fn["qn"])
    if m:
        return [(st, apply_view(eng, st, m.group(1), vals[0], [eng.rv(st, v) for v in vals[1:]]))]
    if fn["n"] == "operator|":
        try:
            c = eng.rv(st, vals[1])
        except (Unsupported, KeyError):
            c = None
        if isinstance(c, Pure) and c.tag == "adaptor":
            k, a = c.data
        else:
            t = eng.prog.ty(eng.prog.strip_ref(fn["pt"][1]))["s"]
            m = re.match(r"^(?:const )?std::ranges::views::_(\w+)$", t)
            if not m:
                raise Unsupported("view closure %s" % t)
            k, a = m.group(1), []
        return [(st, apply_view(eng, st, k, vals[0], a))]
    raise Unsupported(fn["qn"])


def apply_view(eng, st, kind, rng, args):
    x = eng.rv(st, rng)
    if isinstance(x, Obj) and x.cls == "view":
        raise Unsupported("view of a reversed view")
    lv, off, n = range_of(eng, st, rng)
    if kind == "Reverse":
        return Obj("view", {"it": Iter(lv, off), "n": n})
    k = args[0]
    m = ite(k <= n, k, n)
    if kind == "Drop":
        return mk_span(Iter(lv, addi(off, m)), n - m)
    if kind == "Take":
        return mk_span(Iter(lv, off), m)
    raise Unsupported("std::views adaptor %s" % kind)


def h_view(eng, st, fn, obj, vals, e):
    v = eng.rv(st, obj)
    if isinstance(v, Obj) and v.cls == "span":
        return h_span(eng, st, fn, obj, vals, e)
    if not (isinstance(v, Obj) and v.cls == "view"):
        raise Unsupported(fn["qn"])
    it, n = v.f["it"], v.f["n"]
    if fn["n"] == "begin":
        return [(st, Iter(it.lv, addi(it.idx, n), True))]
    if fn["n"] == "end":
        return [(st, Iter(it.lv, it.idx, True))]
    if fn["n"] == "size":
        return [(st, n)]
    if fn["n"] == "empty":
        return [(st, n == 0)]
    raise Unsupported(fn["qn"])


# ------------------------------------------------------------ hooks used by eng
def bind(eng, s, base, idx, b):
    """idx-th component of a structured binding / std::get."""
    v = eng.rv(s, base)
    if not isinstance(v, Obj):
        raise Unsupported("structured binding of %r" % (v,))
    if v.cls == "arr" or v.cls == "tuple":
        key = str(idx)
    else:
        key = list(v.f)[idx]
    x = v.f[key]
    if isinstance(x, LV):
        return x
    if isinstance(base, LV):
        return base.fld(key)
    return ValLV(x)


def fresh_rec(eng, ty, name):
    s = ty["s"]
    for h in getattr(eng, "fresh_hooks", []):
        r = h(eng, ty, name)
        if r is not None:
            return r
    if re.match(SEQ, s):
        t = ty["targs"][0]["t"]
        if s.startswith("std::array"):
            return Seq(z3.IntVal(ty["targs"][1]["i"]), lift(eng.fresh_of(t, name), name), "seq")
        return Seq(fresh(name + ".n", I), lift(eng.fresh_of(t, name), name), "seq")
    if s.startswith("std::pair<"):
        return Obj("pair", {"first": eng.fresh_of(ty["targs"][0]["t"], name + ".1"), "second": eng.fresh_of(ty["targs"][1]["t"], name + ".2")})
    if s.startswith("std::optional<"):
        return Obj("optional", {"has": fresh(name + ".has", B), "val": eng.fresh_of(ty["targs"][0]["t"], name + ".v")})
    return None


def init_list(eng, s, ty, vs, e):
    nm = ty["s"]
    if nm in ("std::identity", "std::ranges::less", "std::less<>", "std::greater<>", "std::plus<>", "std::ranges::greater") and not vs:
        return Obj(nm.split("::")[-1], {})
    for h in getattr(eng, "init_hooks", []):
        r = h(eng, s, ty, vs, e)
        if r is not None:
            return r
    if nm.startswith("std::array<") and len(vs) == 1:
        v = eng.rv(s, vs[0])
        if isinstance(v, Obj) and v.cls == "arr":
            return arr_to_seq(v)
        if isinstance(v, Seq):
            return v
    if nm.startswith("std::array<") and not vs:
        n = ty["targs"][1]["i"]
        _, dv = mk_default(eng, s, ty["targs"][0]["t"])
        return Seq(z3.IntVal(n), const_data(dv), "seq")
    if nm.startswith("std::pair<") and len(vs) == 2:
        return Obj("pair", {"first": eng.rv(s, vs[0]), "second": eng.rv(s, vs[1])})
    return None


def install(eng):
    M = eng.models

    def add(rx, h):
        M.append((re.compile(rx), h))
    add(r"^" + SEQ + r"<.*>::[^:]*$", h_seq)
    add(r"^std::span<.*>::[^:]*$", h_span)
    add(r"^__gnu_cxx::__normal_iterator<.*>::[^:]*$", h_iter)
    add(r"^__gnu_cxx::operator", h_iter)
    add(r"^std::reverse_iterator<.*>::[^:]*$", h_iter)
    add(r"^std::operator(==|!=|<|>|<=|>=|-|\+)$", h_iter)
    add(r"^std::ranges::views::.*operator(\(\)|\|)$", h_adaptor)
    add(r"^std::ranges::(\w+_view|subrange|view_interface)<.*>::\w+$", h_view)
    add(r"^std::(min|max)$", h_minmax)
    add(r"^std::ranges::__(min|max)_fn::operator\(\)$", lambda E, s, f, o, v, e: h_minmax(E, s, dict(f, n="max" if "__max_fn" in f["qn"] else "min"), None, v, e))
    add(r"^std::clamp$", h_clamp)
    add(r"^(std::)?(abs|fabs)$", h_abs)
    add(r"^(std::)?(isfinite)$", h_isfinite)
    add(r"^(std::)?(isnan)$", h_isnan)
    add(r"^(std::)?(sqrt|cbrt|exp|log|log10|log2|pow|hypot|sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|erf|ceil|floor)$", h_math)
    add(r"^std::(move|forward|as_const|to_underlying|move_if_noexcept)$", h_pass)
    add(r"^std::exchange$", h_exchange)
    add(r"^std::swap$", h_swap)
    add(r"^std::(addressof|__addressof)$", h_addressof)
    add(r"^std::numeric_limits<.*>::[a-zA-Z_]+$", h_limits)
    add(r"^std::(pair<.*>::(pair|operator=)|make_pair)$", h_pair)
    add(r"^std::(tuple<.*>::(tuple|operator=)|make_tuple)$", h_tuple)
    add(r"^std::get$", h_get)
    add(r"^std::optional<.*>::[^:]*$", h_optional)
    add(r"^std::(function|move_only_function)<.*>::[^:]*$", h_function)
    add(r"^slp::function_ref<.*>::[^:]*$", h_function)
    add(r"^std::invoke$", h_invoke)
    add(r"^std::allocator<.*>::allocator$", lambda E, s, f, o, v, e: [(s, Pure("alloc"))])
    add(r"^std::(unreachable|terminate|abort)$", h_path_end)
    add(r"^std::back_inserter$", h_back_inserter)
    add(r"^std::ranges::__copy_fn::operator\(\)$", h_rcopy)
    add(r"^std::(ranges::__(all|any|none)_of_fn::operator\(\)|(all|any|none)_of)$", h_allof)
    add(r"^(std|gch)::erase_if$", h_erase_if)
    add(r"^std::(ranges::__fill_fn::operator\(\)|fill)$", h_fill)
    add(r"^std::(print|println|format|vprint_unicode|fflush)$", h_fmt)
    add(r"^std::basic_format_string<", h_fmt)
    add(r"^std::(basic_string_view|basic_string|basic_ofstream|basic_ostream)<", h_fmt)
    add(r"^std::chrono::", h_clock)
    add(r"^std::source_location::", h_fmt)
