"""Verification-condition generator: symbolic execution of the dumped C++ ASTs.

Functions are executed on fully symbolic states.  Loops are cut by inductive
invariants (never unrolled), calls go to a contract if one is registered, to a
library model, or are inlined.  Every obligation is (assumptions |- goal).
"""
import itertools, re, time
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values
class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return "Obj(%s,%s)" % (self.cls, self.f)


class Seq:
    """Sequence: length, lifted element data (leaves are arrays Int->T)."""
    __slots__ = ("n", "d", "cls")

    def __init__(self, n, d, cls="seq"):
        self.n, self.d, self.cls = n, d, cls

    def __repr__(self):
        return "Seq(%s,%s)" % (self.n, self.d)


class Iter:
    __slots__ = ("lv", "idx", "rev")

    def __init__(self, lv, idx, rev=False):
        self.lv, self.idx, self.rev = lv, idx, rev


class LV:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def fld(self, n):
        return LV(self.root, self.path + (("f", n),))

    def at(self, i):
        return LV(self.root, self.path + (("i", i),))

    def __repr__(self):
        return "LV(%s%s)" % (self.root, self.path)


class ValLV:
    """A glvalue whose value is known but has no storage (e.g. Eigen coeff of an expression)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class View(ValLV):
    """Write-through view: rd(st) gives the value, wr(st, v) stores it."""

    def __init__(self, rd, wr):
        self.rd, self.wr = rd, wr


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv  # LV or None

    def __repr__(self):
        return "Ptr(%s)" % (self.lv,)


class Clo:
    __slots__ = ("fns", "caps", "this", "py", "lt")

    def __init__(self, fns, caps, this=None, py=None):
        self.fns, self.caps, self.this, self.py = fns, caps, this, py


class Pure:
    """A Python-implemented opaque value (never merged unless identical)."""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return "Pure(%s)" % self.tag


class _Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()
VOID = Pure("void")


def is_leaf(v):
    return isinstance(v, z3.ExprRef)


def tmap(fn, t, *ts):
    if is_leaf(t):
        return fn(t, *ts)
    if isinstance(t, Obj):
        for u in ts:
            if not isinstance(u, Obj) or u.f.keys() != t.f.keys():
                raise Unsupported("shape mismatch %s" % t.cls)
        return Obj(t.cls, {k: tmap(fn, v, *[u.f[k] for u in ts]) for k, v in t.f.items()})
    if isinstance(t, Seq):
        for u in ts:
            if not isinstance(u, Seq):
                raise Unsupported("shape mismatch seq")
        if t.d is None or any(u.d is None for u in ts):
            return Seq(fn(t.n, *[u.n for u in ts]), next((x.d for x in (t,) + ts if x.d is not None), None), t.cls)
        return Seq(fn(t.n, *[u.n for u in ts]), tmap(fn, t.d, *[u.d for u in ts]), t.cls)
    if isinstance(t, Iter):
        return Iter(t.lv, fn(t.idx, *[u.idx for u in ts]), t.rev)
    if not ts:
        return t
    for u in ts:
        if not same(t, u):
            raise Unsupported("cannot merge %r / %r" % (t, u))
    return t


def leaves(t, pre=()):
    if is_leaf(t):
        yield pre, t
    elif isinstance(t, Obj):
        for k, v in t.f.items():
            yield from leaves(v, pre + (k,))
    elif isinstance(t, Seq):
        yield pre + ("#n",), t.n
        if t.d is not None:
            yield from leaves(t.d, pre + ("#d",))
    elif isinstance(t, Iter):
        yield pre + ("#idx",), t.idx
    else:
        yield pre, t


def set_leaf(t, path, fn):
    """Functional replacement of the leaf at `path` by fn(old)."""
    if not path:
        return fn(t)
    if isinstance(t, Obj):
        d = dict(t.f)
        d[path[0]] = set_leaf(d[path[0]], path[1:], fn)
        return Obj(t.cls, d)
    if isinstance(t, Seq):
        if path[0] == "#n":
            return Seq(fn(t.n), t.d, t.cls)
        return Seq(t.n, set_leaf(t.d, path[1:], fn), t.cls)
    if isinstance(t, Iter):
        return Iter(t.lv, fn(t.idx), t.rev)
    raise Unsupported("set_leaf")


def get_leaf(t, path):
    for p in path:
        if isinstance(t, Obj):
            t = t.f[p]
        elif isinstance(t, Seq):
            t = t.n if p == "#n" else t.d
        elif isinstance(t, Iter):
            t = t.idx
    return t


def same_lv(a, b):
    if a is None or b is None:
        return a is b
    if a.root != b.root or len(a.path) != len(b.path):
        return False
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return False
        if x[0] == "f":
            if x[1] != y[1]:
                return False
        elif not (x[1].eq(y[1]) if is_leaf(x[1]) and is_leaf(y[1]) else x[1] == y[1]):
            return False
    return True


def same(a, b):
    if a is b:
        return True
    if is_leaf(a) and is_leaf(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same_lv(a.lv, b.lv)
    if isinstance(a, LV) and isinstance(b, LV):
        return same_lv(a, b)
    if isinstance(a, Pure) and isinstance(b, Pure):
        return a.tag == b.tag and (a.data is b.data or a.data == b.data)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return a.n.eq(b.n) and (a.d is b.d or (a.d is not None and b.d is not None and same(a.d, b.d)))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return same_lv(a.lv, b.lv) and a.idx.eq(b.idx) and a.rev == b.rev
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.fns == b.fns and a.caps.keys() == b.caps.keys() and all(same(a.caps[k], b.caps[k]) for k in a.caps) and a.py is b.py
    return False


def vselect(d, i):
    if is_leaf(d):
        return select(d, i)
    if isinstance(d, Obj):
        return Obj(d.cls, {k: vselect(v, i) for k, v in d.f.items()})
    if isinstance(d, Seq):
        return Seq(select(d.n, i), None if d.d is None else vselect(d.d, i), d.cls)
    return d


def select(a, i):
    """Select with eager read-over-write on syntactically equal / distinct numerals."""
    while z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j):
                a = a.arg(0)
                continue
            s = z3.simplify(i - j)
            if z3.is_int_value(s):
                if s.as_long() == 0:
                    return a.arg(2)
                a = a.arg(0)
                continue
            break
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        break
    if z3.is_quantifier(a) and a.is_lambda():
        return z3.substitute_vars(a.body(), i)
    return z3.Select(a, i)


def vstore(d, i, v):
    if is_leaf(d):
        if not is_leaf(v):
            raise Unsupported("vstore leaf<-%r" % (v,))
        s = d.sort().range()
        if s != v.sort():
            if s == R and v.sort() == I:
                v = z3.ToReal(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT and v.arg(0).eq(d) and v.arg(1).eq(i):
            return d
        return z3.Store(d, i, v)
    if isinstance(d, Obj):
        if d.cls == "ext" and is_leaf(v):
            v = Obj("ext", {"k": z3.IntVal(0), "v": v})
        if not isinstance(v, Obj):
            raise Unsupported("vstore obj %s <- %r" % (d.cls, v))
        return Obj(d.cls, {k: vstore(x, i, v.f[k]) for k, x in d.f.items()})
    if isinstance(d, Seq):
        if d.d is None and v.d is not None:
            d = Seq(d.n, lift(v.d), d.cls)
        return Seq(z3.Store(d.n, i, v.n), d.d if v.d is None else vstore(d.d, i, v.d), d.cls)
    return d


_c = itertools.count()


def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_c)), sort)


def lift(t, name="a"):
    """Fresh data tree of arrays with the shape of element tree t."""
    if is_leaf(t):
        return fresh(name, z3.ArraySort(I, t.sort()))
    if isinstance(t, Obj):
        return Obj(t.cls, {k: lift(v, name + "." + k) for k, v in t.f.items()})
    if isinstance(t, Seq):
        return Seq(fresh(name + ".n", z3.ArraySort(I, I)), None if t.d is None else lift(t.d, name + ".d"), t.cls)
    return t


def havoc_like(t, name="h"):
    return tmap(lambda x: fresh(name, x.sort()), t)


def ite(c, a, b):
    if isinstance(a, Obj) and a.cls == "ext" and is_leaf(b):
        b = Obj("ext", {"k": z3.IntVal(0), "v": b})
    elif isinstance(b, Obj) and b.cls == "ext" and is_leaf(a):
        a = Obj("ext", {"k": z3.IntVal(0), "v": a})
    if is_leaf(a) and is_leaf(b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            elif a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
        return z3.If(c, a, b)
    if same(a, b):
        return a
    if a is UNINIT and is_leaf(b):
        return b
    if b is UNINIT and is_leaf(a):
        return a
    if isinstance(a, (Obj, Seq, Iter)) and type(a) is type(b):
        if isinstance(a, Iter) and (not same_lv(a.lv, b.lv) or a.rev != b.rev):
            raise Unsupported("merge of iterators into different sequences")
        if isinstance(a, Obj):
            if a.f.keys() != b.f.keys():
                raise Unsupported("merge of %s/%s" % (a.cls, b.cls))
            return Obj(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Seq):
            return Seq(ite(c, a.n, b.n), (a.d if b.d is None else b.d if a.d is None else ite(c, a.d, b.d)), a.cls)
        return tmap(lambda x, y: ite(c, x, y), a, b)
    raise Unsupported("cannot merge %r / %r" % (a, b))


# ---------------------------------------------------------------- float domains
def frac(s):
    return Fraction(repr(float(s)))


class RealDom:
    """Machine floats treated as mathematical reals."""
    name = "real"

    def __init__(self):
        self.inf = None

    def leaf(self, name):
        return fresh(name, R)

    def const(self, s):
        if s in ("inf", "-inf", "nan"):
            if self.inf is None:
                raise Unsupported("non-finite constant in the real domain")
            return self.inf if s == "inf" else -self.inf
        return z3.RealVal(str(frac(s)))

    def of_int(self, t):
        return z3.ToReal(t)

    def bin(self, op, a, b):
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()

    def neg(self, a):
        return -a

    def cmp(self, op, a, b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def isfinite(self, a):
        return z3.BoolVal(True)

    def to_bool(self, a):
        return a != 0

    def abs(self, a):
        return z3.If(a < 0, -a, a)


FIN, PINF, NINF, NAN = 0, 1, 2, 3


class ExtDom(RealDom):
    """Reals extended with +inf, -inf and NaN (IEEE special-value rules, exact rounding)."""
    name = "ext"

    def mk(self, k, v):
        return Obj("ext", {"k": k if is_leaf(k) else z3.IntVal(k), "v": v})

    def leaf(self, name):
        return self.mk(fresh(name + ".k", I), fresh(name + ".v", R))

    def wf(self, x):
        return z3.And(x.f["k"] >= 0, x.f["k"] <= 3)

    def const(self, s):
        if s in ("inf", "-inf", "nan"):
            return self.mk({"inf": PINF, "-inf": NINF, "nan": NAN}[s], z3.RealVal(0))
        return self.mk(FIN, z3.RealVal(str(frac(s))))

    def of_int(self, t):
        return self.mk(FIN, z3.ToReal(t))

    def neg(self, a):
        k = a.f["k"]
        return self.mk(z3.simplify(z3.If(k == PINF, NINF, z3.If(k == NINF, PINF, k))), -a.f["v"])

    def bin(self, op, a, b):
        if op == "-":
            return self.bin("+", a, self.neg(b))
        ka, va, kb, vb = a.f["k"], a.f["v"], b.f["k"], b.f["v"]
        nan = z3.Or(ka == NAN, kb == NAN)
        both = z3.And(ka == FIN, kb == FIN)
        if op == "+":
            k = z3.If(nan, NAN, z3.If(both, FIN, z3.If(ka == FIN, kb, z3.If(kb == FIN, ka, z3.If(ka == kb, ka, NAN)))))
            return self.mk(z3.simplify(k), va + vb)
        sa = z3.If(ka == FIN, z3.If(va > 0, 1, z3.If(va < 0, -1, 0)), z3.If(ka == PINF, 1, -1))
        sb = z3.If(kb == FIN, z3.If(vb > 0, 1, z3.If(vb < 0, -1, 0)), z3.If(kb == PINF, 1, -1))
        if op == "*":
            k = z3.If(nan, NAN, z3.If(both, FIN, z3.If(z3.Or(sa == 0, sb == 0), NAN, z3.If(sa == sb, PINF, NINF))))
            return self.mk(z3.simplify(k), va * vb)
        if op == "/":
            # division by zero: sign of zero not tracked -> unknown infinity sign
            u = fresh("divz", I)
            k = z3.If(nan, NAN, z3.If(z3.And(both, vb != 0), FIN,
                      z3.If(z3.And(both, vb == 0), z3.If(va == 0, NAN, z3.If(u == 0, PINF, NINF)),
                      z3.If(kb == FIN, z3.If(sb == 0, z3.If(u == 0, PINF, NINF), z3.If(sa == sb, PINF, NINF)),
                      z3.If(ka == FIN, FIN, NAN)))))
            v = z3.If(z3.And(ka == FIN, kb != FIN), z3.RealVal(0), va / vb)
            return self.mk(z3.simplify(k), v)
        raise Unsupported(op)

    def cmp(self, op, a, b):
        ka, va, kb, vb = a.f["k"], a.f["v"], b.f["k"], b.f["v"]
        nn = z3.And(ka != NAN, kb != NAN)
        lt = z3.And(nn, z3.Or(z3.And(ka == FIN, kb == FIN, va < vb), z3.And(ka == NINF, kb != NINF), z3.And(kb == PINF, ka != PINF)))
        eq = z3.And(nn, ka == kb, z3.Implies(ka == FIN, va == vb))
        if op == "<": return lt
        if op == "<=": return z3.Or(lt, eq)
        if op == ">": return self.cmp("<", b, a)
        if op == ">=": return self.cmp("<=", b, a)
        if op == "==": return eq
        return z3.Not(eq)

    def isfinite(self, a):
        return a.f["k"] == FIN

    def to_bool(self, a):
        return z3.Not(self.cmp("==", a, self.const("0")))

    def abs(self, a):
        k, v = a.f["k"], a.f["v"]
        return self.mk(z3.If(k == NINF, PINF, k), z3.If(v < 0, -v, v))


INV = z3.Function("inv", R, R)
INV_AX = z3.ForAll([z3.Real("x!inv")], z3.Implies(z3.Real("x!inv") != 0, z3.Real("x!inv") * INV(z3.Real("x!inv")) == 1), patterns=[INV(z3.Real("x!inv"))])


class MixDom(ExtDom):
    """Inputs are finite reals; results of divisions that can divide by zero, and infinite
    constants, carry IEEE special values (a zero divisor is taken as +0)."""
    name = "mix"

    def leaf(self, name):
        return fresh(name, R)

    def const(self, s):
        if s in ("inf", "-inf", "nan"):
            return ExtDom.const(self, s)
        return z3.RealVal(str(frac(s)))

    def of_int(self, t):
        return z3.ToReal(t)

    def ext(self, a):
        if is_leaf(a):
            if a.sort() == I:
                a = z3.ToReal(a)
            return self.mk(FIN, a)
        return a

    def neg(self, a):
        return -a if is_leaf(a) else ExtDom.neg(self, a)

    def bin(self, op, a, b):
        if op == "/" and is_leaf(b):
            b = self.ext(b).f["v"]
            a = self.ext(a)
            ka, va = a.f["k"], a.f["v"]
            zero = z3.If(ka == NAN, NAN, z3.If(ka != FIN, ka, z3.If(va == 0, NAN, z3.If(va > 0, PINF, NINF))))
            sg = z3.If(b < 0, z3.If(ka == PINF, NINF, z3.If(ka == NINF, PINF, ka)), ka)
            k = z3.simplify(z3.If(b == 0, zero, sg))
            v = va / b if z3.is_rational_value(z3.simplify(b)) else va * INV(b)
            return v if z3.is_int_value(k) and k.as_long() == FIN else self.mk(k, v)
        return ExtDom.bin(self, op, self.ext(a), self.ext(b))

    def cmp(self, op, a, b):
        return ExtDom.cmp(self, op, self.ext(a), self.ext(b))

    def isfinite(self, a):
        return z3.BoolVal(True) if is_leaf(a) else a.f["k"] == FIN

    def to_bool(self, a):
        return a != 0 if is_leaf(a) else ExtDom.to_bool(self, a)

    def abs(self, a):
        return z3.If(a < 0, -a, a) if is_leaf(a) else ExtDom.abs(self, a)


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "env", "this", "pc", "ghost", "log")

    def __init__(self):
        self.mem, self.env, self.this, self.pc, self.ghost, self.log = {}, {}, None, (), {}, ()

    def copy(self):
        s = State()
        s.mem, s.env, s.this, s.pc, s.ghost, s.log = dict(self.mem), dict(self.env), self.this, self.pc, dict(self.ghost), self.log
        return s

    def assume(self, *fs):
        s = self.copy()
        s.pc = s.pc + tuple(f for f in fs if not z3.is_true(f))
        return s


class Ob:
    __slots__ = ("name", "pc", "goal", "loc", "st", "kind", "abstracted", "status")

    def __init__(self, name, pc, goal, loc, st=None, kind="post", abstracted=False):
        self.name, self.pc, self.goal, self.loc, self.st, self.kind, self.abstracted = name, pc, goal, loc, st, kind, abstracted
        self.status = None


class Frame:
    pass


TIMEOUT = 20000


class Stats:
    workers = 8      # forked helpers per process
    gens = ()        # instantiation depth limits to try (properties with matching loops)
    scale = 1        # timeout multiplier (second attempts)
    queries = 0
    time = 0.0
    backends = {}


_hq = {}


def _guarded(f):
    """A fact of one of the joined alternatives."""
    if not (z3.is_implies(f)):
        return False
    a = f.arg(0)
    if z3.is_not(a):
        a = a.arg(0)
    return a.num_args() == 0 and a.decl().name().startswith("sel!")


def has_quant(f):
    i = f.get_id()
    if i in _hq:
        return _hq[i][1]
    r = _has_quant(f)
    _hq[i] = (f, r)       # the reference keeps the identifier from being reused
    return r


def _has_quant(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            todo.append(x.body())
        else:
            todo += x.children()
    return False


def ematch(fs, timeout, configs=4):
    """E-matching without model-based instantiation or extensionality: only 'unsat' is meaningful."""
    from . import ginst
    if ginst.ON[0]:
        if ginst.solve(fs, max(20000, timeout)) == z3.unsat:
            return z3.unsat
        timeout = timeout // 3
    end = time.time() + timeout / 1000
    plan = [(0, 0, None), (2, 0, None), (0, 7, None), (2, 5, None)]
    if Stats.gens:
        # bounded instantiation depth first (for matching loops)
        plan = [(2, 0, g) for g in Stats.gens]
    for n, (rel, seed, gen) in enumerate(plan[:configs]):
        left = int((end - time.time()) * 1000)
        if Stats.gens:
            left = left // max(1, min(configs, len(plan)) - n)
        if left <= 10:
            break
        s = z3.SimpleSolver()
        s.set("timeout", left)
        s.set("mbqi", False)
        s.set("array.extensional", False)
        s.set("relevancy", rel)
        s.set("random_seed", seed)
        if gen is not None:
            s.set("qi.eager_threshold", float(gen))
            s.set("qi.lazy_threshold", float(gen))
        s.add(*fs)
        try:
            if s.check() == z3.unsat:
                return z3.unsat
        except z3.Z3Exception:
            pass
    return z3.unknown


def check_sat(fs, timeout=5000):
    t0 = time.time()
    r, s = z3.unknown, None
    if any(has_quant(f) for f in fs):
        # E-matching alone first: decides most valid obligations at once
        from . import ginst
        if ginst.ON[0]:
            r = ginst.solve(fs, timeout * 5)
            Stats.queries += 1
            Stats.time += time.time() - t0
            Stats.backends["z3"] = Stats.backends.get("z3", 0) + 1
            return r, None
        r = ematch(fs, min(400, timeout), 1)
        if r != z3.unsat:
            s = z3.Solver()
            s.set("timeout", min(700, timeout))
            s.add(*fs)
            r = s.check()
        if r == z3.unknown:
            r = ematch(fs, max(500, timeout // 2))
    if r == z3.unknown:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*fs)
        r = s.check()
    Stats.queries += 1
    Stats.time += time.time() - t0
    Stats.backends["z3"] = Stats.backends.get("z3", 0) + 1
    return r, s


def fork_map(fn, n, w):
    """[fn(0), ..., fn(n-1)] computed in w forked processes; results must be picklable."""
    import os, pickle
    kids = []
    for i in range(w):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                Stats.queries, Stats.time, Stats.backends = 0, 0.0, {}
                res = [(j, fn(j)) for j in range(i, n, w)]
                with os.fdopen(wr, "wb") as h:
                    pickle.dump((res, Stats.queries, Stats.time, Stats.backends), h)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, rd, i))
    out = [None] * n
    for pid, rd, i in kids:
        with os.fdopen(rd, "rb") as h:
            data = h.read()
        os.waitpid(pid, 0)
        try:
            res, q, t, be = pickle.loads(data)
        except Exception:
            res, q, t, be = [(j, fn(j)) for j in range(i, n, w)], 0, 0.0, {}
        for j, r in res:
            out[j] = r
        Stats.queries += q
        Stats.time += t
        for k, v in be.items():
            Stats.backends[k] = Stats.backends.get(k, 0) + v
    return out


class Eng:
    def __init__(self, prog, dom=None, **kw):
        self.prog = prog
        self.dom = dom or RealDom()
        self.obs = []
        self.mute = 0
        self.contracts = []      # (predicate(fnref), handler)
        self.models = []         # (regex, handler)
        self.heap_classes = {}   # class string -> heap root name
        self.check_overflow = kw.get("check_overflow", False)
        self.check_bounds = kw.get("check_bounds", False)
        self.merge = kw.get("merge", True)
        self.prune = kw.get("prune", True)
        self.dtor_classes = kw.get("dtor_classes", ())
        self.loop_cands = None   # callable(ctx) -> [(name, fn(st,k)->Bool)]
        self.fnstack = []
        self.used_fns = {}
        self.assert_mode = "assume"
        self.inline_deny = kw.get("inline_deny", ())
        self.loops_seen = []
        self.inv_report = []
        self.axioms = []
        self.prune_timeout = kw.get("prune_timeout", 500)
        self.throw_ok = True
        self.abstract_loop = False
        self.merge_loops = True  # join the paths of a loop body (simpler invariant checks when off)
        self.on_write = None     # ghost code: hook(st, lv, new value) before a store
        self.on_push = None      # ghost code: hook(st, sequence lv, index, value) after an append
        self.parallel = True
        from . import models
        models.install(self)

    # ------------------------------------------------------------ helpers
    def root(self, hint="t"):
        return "%s#%d" % (hint, next(_c))

    def alloc(self, st, v, hint="t"):
        r = self.root(hint)
        st.mem[r] = v
        return LV(r)

    def step(self, t, p):
        if p[0] == "f":
            if isinstance(t, Obj):
                if p[1] not in t.f:
                    raise Unsupported("no field %s in %s" % (p[1], t.cls))
                return t.f[p[1]]
            raise Unsupported("field %s of %r" % (p[1], t))
        i = p[1]
        if isinstance(t, Seq):
            if t.d is None:
                raise Unsupported("read from sequence of unknown shape")
            return vselect(t.d, i)
        if isinstance(t, Obj) and t.cls == "arr":
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return t.f[str(i.as_long())]
            keys = sorted(t.f, key=int)
            v = t.f[keys[-1]]
            for k in reversed(keys[:-1]):
                v = ite(i == int(k), t.f[k], v)
            return v
        raise Unsupported("index into %r" % (t,))

    def read(self, st, lv):
        if isinstance(lv, View):
            return lv.rd(st)
        if isinstance(lv, ValLV):
            return lv.v
        if lv.root not in st.mem:
            raise Unsupported("read of unknown root %s" % lv.root)
        t = st.mem[lv.root]
        for p in lv.path:
            t = self.step(t, p)
        return t

    def upd(self, t, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == "f":
            d = dict(t.f)
            d[p[1]] = self.upd(d.get(p[1], UNINIT), path[1:], v)
            return Obj(t.cls, d)
        i = p[1]
        if isinstance(t, Seq):
            if len(path) == 1:
                nv = v
            else:
                nv = self.upd(vselect(t.d, i), path[1:], v)
            if t.d is None:
                t = Seq(t.n, lift(nv), t.cls)
            return Seq(t.n, vstore(t.d, i, nv), t.cls)
        if isinstance(t, Obj) and t.cls == "arr":
            d = dict(t.f)
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = str(i.as_long())
                d[k] = self.upd(d[k], path[1:], v)
            else:
                for k in d:
                    d[k] = ite(i == int(k), self.upd(d[k], path[1:], v), d[k])
            return Obj(t.cls, d)
        raise Unsupported("update index of %r" % (t,))

    def write(self, st, lv, v):
        if isinstance(v, (LV, ValLV)):
            v = self.read(st, v)
        if isinstance(lv, View):
            lv.wr(st, v)
            return
        if isinstance(lv, ValLV):
            raise Unsupported("write to value without storage")
        if lv.root in getattr(self, "readonly", ()):
            raise Unsupported("write to read-only root")
        old = st.mem.get(lv.root, UNINIT)
        v = self.coerce_like(st, lv, v)
        if self.on_write:
            self.on_write(st, lv, v)
        st.mem[lv.root] = self.upd(old, lv.path, v)

    def coerce_like(self, st, lv, v):
        if is_leaf(v) and v.sort() == I:
            try:
                o = self.read(st, lv)
            except Unsupported:
                return v
            if is_leaf(o) and o.sort() == R:
                return z3.ToReal(v)
        return v

    settle_ext = False   # treat an extended value as finite where the path condition says it is

    def rv(self, st, v):
        v = self.read(st, v) if isinstance(v, (LV, ValLV)) else v
        if self.settle_ext and isinstance(v, Obj) and v.cls == "ext" and not z3.is_int_value(z3.simplify(v.f["k"])):
            if any(h.eq(v.f["k"] == 0) for h in st.pc) or self.prove_ground(st.pc, v.f["k"] == 0, 300):
                return v.f["v"]
        return v

    def oblige(self, st, goal, name, loc=None, kind="safety"):
        if self.mute:
            return
        if z3.is_true(z3.simplify(goal)):
            self.obs.append(Ob(name, (), z3.BoolVal(True), loc, st, kind))
            return
        self.obs.append(Ob(name, st.pc, goal, loc or self.where(), st, kind))

    def where(self):
        return self.fnstack[-1]["loc"] if self.fnstack else "?"

    def feasible(self, st):
        if not self.prune:
            return True
        fs = list(st.pc) + self.axioms
        if self.__dict__.get("join"):
            fs = [f for f in fs if not _guarded(f)]      # fewer facts: at worst an impossible path is kept
        t0 = time.time()
        try:
            qf = [f for f in fs if not has_quant(f)]
            s = z3.Solver()
            s.set("timeout", self.prune_timeout)
            s.add(*qf)
            if s.check() == z3.unsat:
                return False
            from . import ginst
            if len(qf) == len(fs) or ginst.ON[0]:
                return True
            if ematch(fs, 300, 1) == z3.unsat:
                return False
            s = z3.Solver()
            s.set("timeout", min(300, self.prune_timeout))
            s.add(*fs)
            return s.check() != z3.unsat
        finally:
            Stats.queries += 1
            Stats.time += time.time() - t0

    def prove(self, pc, goal, timeout=TIMEOUT):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        r, _ = check_sat(list(pc) + self.axioms + [z3.Not(goal)], timeout * Stats.scale)
        return r == z3.unsat

    def prove_many(self, tasks):
        """[bool] for [(pc, goal, timeout)], decided in forked processes when there are enough of them."""
        n = len(tasks)
        w = min(Stats.workers, n // 2)
        if w < 2 or not self.parallel:
            return [self.prove(*t) for t in tasks]
        return fork_map(lambda j: self.prove(*tasks[j]), n, w)

    def prove_ground(self, pc, goal, timeout=TIMEOUT):
        """prove() from the quantifier-free hypotheses only."""
        return self.prove([h for h in pc if not has_quant(h)], goal, timeout)

    # branch on a condition; returns [(st, bool)]
    def branch(self, st, c):
        c = self.as_bool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return [(st, True)]
        if z3.is_false(s):
            return [(st, False)]
        out = []
        a = st.assume(c)
        b = st.assume(z3.Not(c))
        fa = self.feasible(a)
        if not fa:
            return [(b, False)]
        fb = self.feasible(b)
        if not fb:
            return [(a, True)]
        return [(a, True), (b, False)]

    def as_bool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if is_leaf(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
        if isinstance(v, Ptr):
            return z3.BoolVal(v.lv is not None)
        if isinstance(v, Obj) and v.cls == "ext":
            return self.dom.to_bool(v)
        raise Unsupported("bool of %r" % (v,))

    def merge_states(self, base_n, sts):
        """Merge [(st, val)] that share the first base_n path facts."""
        if len(sts) <= 1 or not self.merge:
            return sts
        out = [sts[0]]
        for s, v in sts[1:]:
            m = None
            for k in range(len(out)):
                m = self.try_merge(base_n, out[k][0], out[k][1], s, v)
                if m is not None:
                    out[k] = m
                    break
            if m is None:
                out.append((s, v))
        return self.join_states(base_n, out)

    def join_states(self, base_n, sts):
        """Merge arbitrary states into one guarded by fresh selectors (only when self.join)."""
        if len(sts) <= 1 or not self.__dict__.get("join") or not self.fnstack:
            return sts
        out = [sts[0]]
        for s, v in sts[1:]:
            m = self.try_merge(base_n, out[-1][0], out[-1][1], s, v, True)
            if m is None:
                out.append((s, v))
            else:
                out[-1] = m
        return out

    def try_merge(self, n, s1, v1, s2, v2, select=False):
        try:
            c1 = z3.And(*s1.pc[n:]) if len(s1.pc) > n else z3.BoolVal(True)
            c2 = z3.And(*s2.pc[n:]) if len(s2.pc) > n else z3.BoolVal(True)
            # select on the first differing fact
            d1, d2 = s1.pc[n:], s2.pc[n:]
            if (not d1 or not d2) and not select:
                return None
            j = 0
            while j < len(d1) and j < len(d2) and d1[j].eq(d2[j]):
                j += 1
            if select:
                a = fresh("sel", B)
            else:
                if j >= len(d1) or j >= len(d2):
                    return None
                a, b = d1[j], d2[j]
                if not (z3.is_not(a) and a.arg(0).eq(b)) and not (z3.is_not(b) and b.arg(0).eq(a)):
                    return None
            if s1.log != s2.log:
                return None
            sel = a
            st = State()
            st.env, st.this = s1.env, s1.this
            if s1.env.keys() != s2.env.keys():
                ks = s1.env.keys() & s2.env.keys()
                st.env = {k: s1.env[k] for k in ks}
            for k in st.env:
                if not same(st.env[k], s2.env[k]):
                    return None
            st.mem = {}
            for r in s1.mem:
                if r in s2.mem:
                    x, y = s1.mem[r], s2.mem[r]
                    st.mem[r] = x if x is y else ite(sel, x, y)
                else:
                    st.mem[r] = s1.mem[r]
            for r in s2.mem:
                if r not in s1.mem:
                    st.mem[r] = s2.mem[r]
            st.ghost = {}
            for g in s1.ghost.keys() | s2.ghost.keys():
                if g in s1.ghost and g in s2.ghost:
                    x, y = s1.ghost[g], s2.ghost[g]
                    st.ghost[g] = x if x is y else ite(sel, x, y)
                else:
                    return None
            v = None
            if v1 is not None or v2 is not None:
                v = v1 if v1 is v2 else ite(sel, v1, v2)
            st.log = s1.log
            rest1 = list(d1[j if select else j + 1:])
            rest2 = list(d2[j if select else j + 1:])
            pc = s1.pc[:n + j]
            if rest1:
                pc = pc + (z3.Implies(a, z3.And(*rest1)),)
            if rest2:
                pc = pc + (z3.Implies(z3.Not(a), z3.And(*rest2)),)
            st.pc = pc
            return (st, v)
        except Unsupported:
            return None

    # ------------------------------------------------------------ types
    def tkind(self, t):
        return self.prog.ty(t)["k"]

    def fresh_of(self, t, name="v"):
        """A fresh symbolic value of C++ type t."""
        t = self.prog.strip_ref(t)
        ty = self.prog.ty(t)
        k = ty["k"]
        if k == "bool":
            return fresh(name, B)
        if k in ("int", "enum"):
            return fresh(name, I)
        if k == "float":
            return self.dom.leaf(name)
        if k == "ptr":
            if self.heap_of(ty["p"]):
                return fresh(name, I)
            raise Unsupported("fresh pointer %s" % ty["s"])
        if k == "rec":
            h = self.fresh_rec(ty, name)
            if h is not None:
                return h
            rec = self.prog.records.get(ty["id"])
            if rec:
                f = {}
                for b in rec["bases"]:
                    f.update(self.fresh_of(b, name).f)
                for x in rec["fields"]:
                    f[x["n"]] = self.fresh_of(x["t"], name + "." + x["n"])
                return Obj(ty["s"], f)
        raise Unsupported("fresh of %s" % ty["s"])

    def fresh_rec(self, ty, name):
        from . import models
        return models.fresh_rec(self, ty, name)

    def heap_of(self, t):
        s = self.prog.tstr(t)
        return self.heap_classes.get(s)

    def int_range(self, t):
        ty = self.prog.ty(t)
        if ty["k"] == "enum" or ty["k"] == "int":
            b = ty["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty["sg"] else (0, (1 << b) - 1)
        return None

    def type_inv(self, v, t):
        """Range facts of a value of C++ type t."""
        t = self.prog.strip_ref(t)
        r = self.int_range(t)
        if r and is_leaf(v) and v.sort() == I:
            return [v >= r[0], v <= r[1]]
        return []

    # ------------------------------------------------------------ expressions
    def evs(self, st, es):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev_r(self, st, e):
        return [(s, self.rv(s, v)) for s, v in self.ev(st, e)]

    def ev(self, st, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expr %s at %s" % (e["k"], self.where()))
        return m(st, e)

    def const_of(self, e):
        ty = self.prog.ty(e["t"])
        if "cv" in e:
            if ty["k"] == "bool":
                return z3.BoolVal(int(e["cv"]) != 0)
            return z3.IntVal(int(e["cv"]))
        if "cf" in e:
            return self.dom.const(e["cf"])
        return None

    def e_Int(self, st, e):
        return [(st, z3.IntVal(int(e["v"])))]

    def e_Bool(self, st, e):
        return [(st, z3.BoolVal(bool(e["v"])))]

    def e_Float(self, st, e):
        return [(st, self.dom.const(e["v"]))]

    def e_Str(self, st, e):
        return [(st, Pure("str", e["v"]))]

    def e_Const(self, st, e):
        v = self.const_of(e)
        if v is None:
            raise Unsupported("Const")
        return [(st, v)]

    def e_Nullptr(self, st, e):
        return [(st, Ptr(None))]

    def e_This(self, st, e):
        return [(st, Ptr(st.this))]

    def e_DefInit(self, st, e):
        return self.ev(st, e["e"])

    def e_StdIL(self, st, e):
        return [(s, v) for s, v in self.ev_r(st, e["e"])]

    def e_ValInit(self, st, e):
        return [(st, self.zero_of(e["t"]))]

    def zero_of(self, t):
        ty = self.prog.ty(t)
        k = ty["k"]
        if k == "bool": return z3.BoolVal(False)
        if k in ("int", "enum"): return z3.IntVal(0)
        if k == "float": return self.dom.const("0")
        if k == "ptr":
            return z3.IntVal(0) if self.heap_of(ty["p"]) else Ptr(None)
        raise Unsupported("zero of %s" % ty["s"])

    def e_Ref(self, st, e):
        d = e["d"]
        if d in st.env:
            v = st.env[d]
            return [(st, v)]
        if "fn" in e:
            return [(st, Pure("fn", e["fn"]))]
        if "cv" in e or "cf" in e:
            v = self.const_of(e)
            return [(st, ValLV(v) if e.get("lv") else v)]
        if e.get("glob"):
            g = self.prog.globals.get(d)
            r = "glob:" + e["glob"]
            if r in st.mem:
                return [(st, LV(r))]
            if g is not None and g.get("init") is not None:
                s = st.copy()
                outs = []
                for s2, v in self.ev_r(s, g["init"]):
                    s2.mem[r] = v
                    outs.append((s2, LV(r)))
                return outs
            return [(st, ValLV(Pure("glob", e["glob"])))]
        raise Unsupported("unbound %s" % e.get("n"))

    def e_Member(self, st, e):
        if "fn" in e:
            return [(st, Pure("fn", e["fn"]))]
        if e.get("static"):
            v = self.const_of(e)
            if v is not None:
                return [(st, ValLV(v))]
            raise Unsupported("static member %s" % e["m"])
        outs = []
        for s, b in self.ev(st, e["b"]):
            if e.get("arrow"):
                lv = self.deref(s, self.rv(s, b), e["b"]["t"])
            else:
                lv = b
            x = None
            for h in self.__dict__.get("member_hooks", ()):
                x = h(self, s, lv, e)
                if x is not None:
                    break
            outs.append((s, self.member(s, lv, e["m"]) if x is None else x))
        return outs

    def member(self, s, lv, name):
        if isinstance(lv, LV):
            cur = self.read(s, lv)
            if isinstance(cur, Obj) and name in cur.f:
                x = cur.f[name]
                if isinstance(x, LV):      # reference member
                    return x
                return lv.fld(name)
            if isinstance(cur, Obj):
                raise Unsupported("member %s of %s" % (name, cur.cls))
            raise Unsupported("member %s of %r" % (name, cur))
        v = lv.v if isinstance(lv, ValLV) else lv
        if isinstance(v, Obj):
            x = v.f[name]
            return x if isinstance(x, LV) else ValLV(x)
        raise Unsupported("member %s of %r" % (name, v))

    def deref(self, s, p, t=None):
        """Pointer value -> glvalue."""
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige(s, z3.BoolVal(False), "null dereference")
                raise Unsupported("null deref")
            return p.lv
        if is_leaf(p) and p.sort() == I and t is not None:
            pt = self.prog.ty(t)
            h = self.heap_of(pt["p"]) if pt["k"] == "ptr" else None
            if h:
                self.oblige(s, p != 0, "pointer not null when dereferenced")
                return LV(h, (("i", p),))
        if isinstance(p, LV):
            return p
        if isinstance(p, Iter):
            from .models import it_lv
            return it_lv(p)
        raise Unsupported("deref %r" % (p,))

    def e_Sub(self, st, e):
        outs = []
        for s, (b, i) in self.evs(st, [e["b"], e["i"]]):
            b = self.rv(s, b) if not isinstance(b, LV) else b
            i = self.rv(s, i)
            if isinstance(b, Ptr):
                # pointer arithmetic base: pointer to element 0 or decayed array
                outs.append((s, self.ptr_at(s, b, i)))
            elif isinstance(b, LV):
                v = self.read(s, b)
                if isinstance(v, Ptr):
                    outs.append((s, self.ptr_at(s, v, i)))
                else:
                    outs.append((s, b.at(i)))
            elif isinstance(b, Iter):
                from .models import it_lv
                if self.check_bounds and isinstance(b.lv, LV):
                    q = self.read(s, b.lv)
                    if isinstance(q, Seq):
                        self.oblige(s, z3.And(b.idx + i >= 0, b.idx + i < q.n), "element within sequence", kind="bounds")
                outs.append((s, it_lv(Iter(b.lv, b.idx + i, b.rev))))
            else:
                raise Unsupported("subscript")
        return outs

    def ptr_at(self, s, p, i):
        lv = p.lv
        if lv.path and lv.path[-1][0] == "i":
            return LV(lv.root, lv.path[:-1] + (("i", lv.path[-1][1] + i),))
        return lv.at(i)

    def e_Mat(self, st, e):
        outs = []
        for s, v in self.ev(st, e["e"]):
            if isinstance(v, (LV, ValLV)):
                outs.append((s, v))
            else:
                s = s.copy()
                outs.append((s, self.alloc(s, v, "tmp")))
        return outs

    def e_Cast(self, st, e):
        ck = e["ck"]
        sub = e["e"]
        if ck == "ToVoid":
            return [(s, VOID) for s, _ in self.ev(st, sub)]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(st, sub)
        if ck == "ArrayToPointerDecay":
            return [(s, Ptr(v) if isinstance(v, LV) else self.rv(s, v)) for s, v in self.ev(st, sub)]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            return self.ev(st, sub)
        if ck == "LValueToRValue":
            return [(s, self.lvr(s, v)) for s, v in self.ev(st, sub)]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return self.ev(st, sub)
        if ck == "NullToPointer":
            ty = self.prog.ty(e["t"])
            if ty["k"] == "ptr" and self.heap_of(ty["p"]):
                return [(st, z3.IntVal(0))]
            return [(st, Ptr(None))]
        outs = []
        for s, v in self.ev_r(st, sub):
            outs.append((s, self.cast(s, ck, v, sub["t"], e["t"])))
        return outs

    def lvr(self, s, v):
        v = self.rv(s, v)
        if v is UNINIT:
            raise Unsupported("read of uninitialized variable at %s" % self.where())
        return v

    def cast(self, s, ck, v, ft, tt):
        if ck == "IntegralCast":
            return self.int_cast(s, v, ft, tt)
        if ck == "IntegralToBoolean":
            return self.as_bool(v)
        if ck in ("FloatingToBoolean", "PointerToBoolean"):
            return self.as_bool(v)
        if ck == "BooleanToSignedIntegral":
            return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        if ck == "IntegralToFloating":
            if is_leaf(v) and v.sort() == B:
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.dom.of_int(v)
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            if is_leaf(v):
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ("BitCast", "Dynamic"):
            return v
        raise Unsupported("cast %s" % ck)

    def int_cast(self, s, v, ft, tt):
        if is_leaf(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if self.prog.ty(tt)["k"] == "bool":
            return self.as_bool(v)
        if not is_leaf(v):
            return v
        fr, tr = self.int_range(ft), self.int_range(tt)
        if fr is None or tr is None:
            return v
        if tr[0] <= fr[0] and fr[1] <= tr[1]:
            return v
        sv = z3.simplify(v)
        if z3.is_int_value(sv):
            n = sv.as_long()
            if tr[0] <= n <= tr[1]:
                return v
            m = tr[1] - tr[0] + 1
            n = (n - tr[0]) % m + tr[0]
            return z3.IntVal(n)
        if self.check_overflow:
            if tr[0] == 0 and fr[0] < 0 and tr[1] >= fr[1]:
                return z3.If(v >= 0, v, v + (tr[1] + 1))
            m = tr[1] - tr[0] + 1
            return z3.If(z3.And(v >= tr[0], v <= tr[1]), v, (v - tr[0]) % m + tr[0])
        return v

    # operators -------------------------------------------------
    def e_Un(self, st, e):
        op = e["op"]
        if op == "&":
            return [(s, self.addr(s, v, e["e"]["t"])) for s, v in self.ev(st, e["e"])]
        if op == "*":
            return [(s, self.deref(s, self.rv(s, v), e["e"]["t"])) for s, v in self.ev(st, e["e"])]
        if op in ("++", "--"):
            outs = []
            for s, lv in self.ev(st, e["e"]):
                s = s.copy()
                old = self.lvr(s, lv)
                if isinstance(old, Iter):
                    new = Iter(old.lv, old.idx + 1 if op == "++" else old.idx - 1, old.rev)
                elif isinstance(old, Ptr):
                    new = Ptr(self.ptr_at(s, old, z3.IntVal(1 if op == "++" else -1)))
                elif is_leaf(old) and old.sort() == R:
                    new = old + 1 if op == "++" else old - 1
                else:
                    new = self.arith(s, op[0], old, z3.IntVal(1), e["t"])
                self.write(s, lv, new)
                outs.append((s, old if e.get("post") else lv))
            return outs
        outs = []
        for s, v in self.ev_r(st, e["e"]):
            if op == "!":
                outs.append((s, z3.Not(self.as_bool(v))))
            elif op == "-":
                if is_leaf(v) and v.sort() == I:
                    outs.append((s, self.arith(s, "-", z3.IntVal(0), v, e["t"])))
                else:
                    outs.append((s, self.dom.neg(v)))
            elif op == "+":
                outs.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return outs

    def addr(self, s, v, t=None):
        if isinstance(v, LV):
            if t is not None and self.heap_of(t):
                if len(v.path) == 1 and v.root == self.heap_of(t):
                    return v.path[0][1]
            return Ptr(v)
        raise Unsupported("address of %r" % (v,))

    def e_Bin(self, st, e):
        op = e["op"]
        if op == ",":
            outs = []
            for s, _ in self.ev(st, e["a"]):
                outs += self.ev(s, e["b"])
            return outs
        if op in ("&&", "||"):
            outs = []
            for s, a in self.ev_r(st, e["a"]):
                a = self.as_bool(a)
                sa = z3.simplify(a)
                if op == "&&":
                    if z3.is_false(sa):
                        outs.append((s, z3.BoolVal(False)))
                        continue
                    n = len(s.pc)
                    s1 = s.assume(a)
                else:
                    if z3.is_true(sa):
                        outs.append((s, z3.BoolVal(True)))
                        continue
                    n = len(s.pc)
                    s1 = s.assume(z3.Not(a))
                if self.prune and not self.feasible(s1):
                    outs.append((s, z3.BoolVal(op == "||")))
                    continue
                rs = self.ev_r(s1, e["b"])
                if len(rs) == 1 and self.pure_since(s, rs[0][0]):
                    s2, b = rs[0]
                    b = self.as_bool(b)
                    # facts learned under the guard stay guarded
                    s3 = s.copy()
                    s3.mem = {**s.mem, **{k: v for k, v in s2.mem.items() if k not in s.mem}}
                    extra = s2.pc[n + 1:]
                    if extra:
                        s3.pc = s3.pc + (z3.Implies(s1.pc[n] if len(s1.pc) > n else z3.BoolVal(True), z3.And(*extra)),)
                    outs.append((s3, z3.And(a, b) if op == "&&" else z3.Or(a, b)))
                else:
                    for s2, b in rs:
                        outs.append((s2, self.as_bool(b)))
                    s0 = s.assume(z3.Not(a)) if op == "&&" else s.assume(a)
                    if self.feasible(s0):
                        outs.append((s0, z3.BoolVal(op == "||")))
            return outs
        if op == "=":
            outs = []
            for s, b in self.ev_r(st, e["b"]):
                for s2, a in self.ev(s, e["a"]):
                    s2 = s2.copy()
                    self.write(s2, a, b)
                    outs.append((s2, a))
            return outs
        outs = []
        for s, (a, b) in self.evs(st, [e["a"], e["b"]]):
            a, b = self.rv(s, a), self.rv(s, b)
            outs.append((s, self.binop(s, op, a, b, e["t"], e["a"]["t"])))
        return outs

    def pure_since(self, s, s2):
        """s2's memory agrees with s on all of s's roots."""
        for r, v in s.mem.items():
            if s2.mem.get(r) is not v and not same(s2.mem.get(r), v):
                return False
        return s.env.keys() == s2.env.keys() and s.log == s2.log and all(s2.ghost.get(g) is v or same(s2.ghost.get(g), v) for g, v in s.ghost.items()) and s.ghost.keys() == s2.ghost.keys()

    def binop(self, s, op, a, b, t, at):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(s, op, a, b)
        return self.arith(s, op, a, b, t)

    def compare(self, s, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                eq = z3.BoolVal(same_lv(a.lv, b.lv)) if (a.lv is None or b.lv is None) or same_lv(a.lv, b.lv) or a.lv.root != b.lv.root else None
                if eq is None:
                    raise Unsupported("pointer comparison")
            else:
                x, y = (a, b) if isinstance(a, Ptr) else (b, a)
                if x.lv is None and is_leaf(y):
                    eq = y == 0
                else:
                    raise Unsupported("pointer comparison")
            return eq if op == "==" else z3.Not(eq)
        if isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.lv, b.lv):
            x, y = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if isinstance(a, Obj) and a.cls == "ext" or isinstance(b, Obj) and b.cls == "ext":
            return self.dom.cmp(op, a, b)
        if is_leaf(a) and is_leaf(b):
            if a.sort() == B and b.sort() == B:
                return a == b if op == "==" else a != b if op == "!=" else self._bcmp(op, a, b)
            if a.sort() == B: a = z3.If(a, 1, 0)
            if b.sort() == B: b = z3.If(b, 1, 0)
            if a.sort() == R or b.sort() == R:
                if a.sort() == I: a = z3.ToReal(a)
                if b.sort() == I: b = z3.ToReal(b)
                return RealDom.cmp(self.dom, op, a, b)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op] if a.sort() == I else (a == b if op == "==" else a != b)
        raise Unsupported("compare %r %s %r" % (a, op, b))

    def _bcmp(self, op, a, b):
        a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

    def arith(self, s, op, a, b, t):
        if isinstance(a, Obj) and a.cls == "ext" or isinstance(b, Obj) and b.cls == "ext":
            return self.dom.bin(op, a, b)
        if isinstance(a, Iter) and op in "+-":
            if is_leaf(b):
                return Iter(a.lv, a.idx + b if op == "+" else a.idx - b, a.rev)
            if isinstance(b, Iter) and same_lv(a.lv, b.lv):
                return a.idx - b.idx
        if isinstance(a, Ptr) and op in "+-" and is_leaf(b):
            return Ptr(self.ptr_at(s, a, b if op == "+" else -b))
        if is_leaf(a) and a.sort() == B and op in "|&^" and is_leaf(b) and b.sort() == B:
            return {"|": z3.Or(a, b), "&": z3.And(a, b), "^": z3.Xor(a, b)}[op]
        if not (is_leaf(a) and is_leaf(b)):
            raise Unsupported("arith %r %s %r" % (a, op, b))
        if a.sort() == B: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == R or b.sort() == R:
            if a.sort() == I: a = z3.ToReal(a)
            if b.sort() == I: b = z3.ToReal(b)
            if op == "/" and self.dom.name == "mix":
                sb = z3.simplify(b)
                nz = (sb.as_fraction() != 0) if z3.is_rational_value(sb) else getattr(self, "disc", 0) > 0 or self.prove_ground(s.pc, b != 0, 1000) or self.prove(s.pc, b != 0, 1000)
                if nz and getattr(self, "quo", None) and not z3.is_rational_value(sb):
                    return self.quo(a, b)
                if nz:
                    return a / b if z3.is_rational_value(sb) else a * self.inv(b)
                return self.dom.bin(op, a, b)
            return RealDom.bin(self.dom, op, a, b)
        rng = self.int_range(t)
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = self.mul(a, b) if getattr(self, "mul", None) and not (z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b))) else a * b
        elif op in ("/", "%"):
            if self.check_overflow or self.check_bounds:
                self.oblige(s, b != 0, "integer divisor is nonzero")
            r = self.tdiv(a, b) if op == "/" else a - b * self.tdiv(a, b)
        elif op in ("<<", ">>", "&", "|", "^"):
            sa, sb = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(sa) and z3.is_int_value(sb):
                x, y = sa.as_long(), sb.as_long()
                r = z3.IntVal({"<<": x << y, ">>": x >> y, "&": x & y, "|": x | y, "^": x ^ y}[op])
            elif op == "<<" and z3.is_int_value(sb):
                r = a * (1 << sb.as_long())
            else:
                raise Unsupported("bit operation")
        else:
            raise Unsupported("arith " + op)
        if rng and self.check_overflow:
            if rng[0] < 0:
                self.oblige(s, z3.And(r >= rng[0], r <= rng[1]), "no signed overflow in %s" % op)
            elif op in "+-*":
                m = rng[1] + 1
                r = z3.If(z3.And(r >= 0, r <= rng[1]), r, r % m)
        return r

    def inv(self, b):
        """Reciprocal as an uninterpreted function (b * inv(b) = 1 where b != 0), so products stay polynomial."""
        return INV(b)

    def tdiv(self, a, b):
        sb = z3.simplify(b)
        if z3.is_int_value(sb) and sb.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def e_CAssign(self, st, e):
        op = e["op"][:-1]
        outs = []
        for s, b in self.ev_r(st, e["b"]):
            for s2, lv in self.ev(s, e["a"]):
                s2 = s2.copy()
                a = self.lvr(s2, lv)
                self.write(s2, lv, self.arith(s2, op, a, b, e["ct"]))
                outs.append((s2, lv))
        return outs

    def e_Cond(self, st, e):
        # assert() expands to (cond ? void(0) : __assert_fail(...))
        b = e["b"]
        while b["k"] == "Cast":
            b = b["e"]
        if b["k"] == "Call" and b.get("fn", {}).get("n") in ("__assert_fail", "__glibcxx_assert_fail"):
            outs = []
            for s, c in self.ev_r(st, e["c"]):
                c = self.as_bool(c)
                if len(self.fnstack) > 1 or self.assert_mode == "check":
                    self.oblige(s, c, "assertion holds", kind="assert")
                s = s.assume(c)
                if self.feasible(s):
                    outs.append((s, VOID))
            return outs
        outs = []
        for s, c in self.ev_r(st, e["c"]):
            n = len(s.pc)
            part = []
            for s2, br in self.branch(s, c):
                for s3, v in self.ev(s2, e["a"] if br else e["b"]):
                    part.append((s3, v))
            if len(part) > 1:
                if not (e.get("lv") or e.get("xv")):
                    part = [(s3, self.rv(s3, v)) for s3, v in part]
                elif self.merge:
                    # an lvalue conditional used as a value: try merging values
                    pass
                part = self.merge_states(n, part)
            outs += part
        return outs

    def e_InitList(self, st, e):
        ty = self.prog.ty(e["t"])
        outs = []
        for s, vs in self.evs(st, e["args"]):
            if ty["k"] == "array":
                n = ty["len"]
                vals = [self.rv(s, v) for v in vs]
                while len(vals) < n:
                    vals.append(self.zero_of(ty["p"]))
                outs.append((s, Obj("arr", {str(i): v for i, v in enumerate(vals)})))
            elif ty["k"] == "rec":
                from . import models
                r = models.init_list(self, s, ty, vs, e)
                if r is not None:
                    outs.append((s, r))
                    continue
                rec = self.prog.records.get(ty["id"])
                if rec is None:
                    raise Unsupported("init list of %s" % ty["s"])
                f = {}
                names = [x["n"] for x in rec["fields"]]
                if rec["bases"]:
                    raise Unsupported("aggregate with bases")
                for i, nm in enumerate(names):
                    if i < len(vs):
                        isref = self.prog.ty(rec["fields"][i]["t"])["k"] in ("lref", "rref")
                        f[nm] = vs[i] if isref else self.rv(s, vs[i])
                outs.append((s, Obj(ty["s"], f)))
            else:
                if not vs:
                    outs.append((s, self.zero_of(e["t"])))
                else:
                    outs.append((s, vs[0]))
        return outs

    def e_Lambda(self, st, e):
        outs = [(st, {})]
        for c in e["caps"]:
            nxt = []
            for s, caps in outs:
                caps = dict(caps)
                if c.get("this"):
                    caps["this"] = s.this
                    nxt.append((s, caps))
                elif c["ref"] and not c.get("ic"):
                    caps[c["d"]] = s.env[c["d"]]
                    nxt.append((s, caps))
                else:
                    for s2, v in self.ev(s, c["init"]):
                        s2 = s2.copy()
                        k = dict(caps)
                        if c["ref"]:
                            k[c["d"]] = v
                        else:
                            k[c["d"]] = self.alloc(s2, self.rv(s2, v), "cap")
                        nxt.append((s2, k))
            outs = nxt
        fns = [f["id"] for f in e["inst"]] if e.get("generic") else [e["fn"]["id"]]
        r = []
        for s, caps in outs:
            th = caps.pop("this", None)
            r.append((s, Clo(fns, caps, th)))
        return r

    def e_New(self, st, e):
        raise Unsupported("new")

    def e_Delete(self, st, e):
        raise Unsupported("delete")

    def e_Throw(self, st, e):
        return []      # path ends by exception

    def e_PseudoDtor(self, st, e):
        return [(st, VOID)]

    def e_Unsupported(self, st, e):
        if e["cls"] in ("SourceLocExpr", "PredefinedExpr"):
            return [(st, Pure("src"))]
        raise Unsupported("expr class " + e["cls"])

    # calls ------------------------------------------------------
    def e_Call(self, st, e):
        v = self.const_of(e) if ("cv" in e or "cf" in e) else None
        if v is not None:
            return [(st, v)]
        if "fn" not in e:
            outs = []
            for s, c in self.ev_r(st, e["callee"]):
                if isinstance(c, Clo):
                    for s2, vs in self.evs(s, e["args"]):
                        outs += self.call_clo(s2, c, vs)
                elif isinstance(c, Pure) and c.tag == "fn":
                    outs += self.call(s, c.data, None, e["args"], e)
                else:
                    raise Unsupported("indirect call")
            return outs
        return self.call(st, e["fn"], None, e["args"], e)

    def e_MCall(self, st, e):
        outs = []
        if "fn" not in e:
            raise Unsupported("member pointer call")
        for s, o in self.ev(st, e["o"]):
            if e.get("arrow"):
                o = self.deref(s, self.rv(s, o), e["o"]["t"])
            outs += self.call(s, e["fn"], o, e["args"], e)
        return outs

    def e_OCall(self, st, e):
        fn = e.get("fn")
        if fn is None:
            raise Unsupported("operator call without callee")
        if "cls" in fn and not fn.get("static"):
            # assignment operators evaluate the right operand first
            if e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and len(e["args"]) == 2:
                outs = []
                for s, b in self.ev(st, e["args"][1]):
                    for s2, o in self.ev(s, e["args"][0]):
                        outs += self.call(s2, fn, o, [("val", b)], e)
                return outs
            outs = []
            for s, o in self.ev(st, e["args"][0]):
                outs += self.call(s, fn, o, e["args"][1:], e)
            return outs
        return self.call(st, fn, None, e["args"] if "cls" not in fn else e["args"][1:], e)

    def e_Ctor(self, st, e):
        return self.call(st, e["fn"], None, e["args"], e)

    def args_of(self, st, args):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in outs:
                if isinstance(a, tuple) and a[0] == "val":
                    nxt.append((s, vs + [a[1]]))
                else:
                    for s2, v in self.ev(s, a):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def call(self, st, fn, obj, args, e):
        """Evaluate arguments and dispatch. obj: glvalue/value or None."""
        for s_, vs in [(None, None)]:
            pass
        for pred, h in self.contracts:
            if pred(fn):
                outs = []
                for s, vs in self.args_of(st, args):
                    outs += h(self, s.copy(), fn, obj, vs, e)
                return outs
        h = self.model_for(fn)
        if h is not None:
            outs = []
            for s, vs in self.args_of(st, args):
                outs += h(self, s.copy(), fn, obj, vs, e)
            return outs
        outs = []
        for s, vs in self.args_of(st, args):
            outs += self.invoke(s, fn, obj, vs, e)
        return outs

    def model_for(self, fn):
        qn = fn["qn"]
        for rx, h in self.models:
            if rx.search(qn):
                return h
        return None

    def invoke(self, st, fn, obj, vals, e=None):
        if fn["n"] == "operator()" and obj is not None:
            c = self.rv(st, obj)
            if isinstance(c, Clo):
                return self.call_clo(st, c, vals, e)
        f = self.prog.funcs.get(fn["id"])
        if f is None or (f.get("body") is None and not f.get("defaulted")):
            if fn.get("defaulted") or fn.get("trivial"):
                return self.defaulted(st, fn, obj, vals, e)
            raise Unsupported("call to %s (no body, no contract)" % fn["qn"])
        if f.get("defaulted"):
            return self.defaulted(st, fn, obj, vals, e, f)
        for d in self.inline_deny:
            if re.search(d, fn["qn"]):
                raise Unsupported("call to %s needs a contract" % fn["qn"])
        return self.run_fn(st, f, obj, vals, e)

    def defaulted(self, st, fn, obj, vals, e, f=None):
        n = fn["n"]
        st = st.copy()
        if fn.get("copy") or fn.get("move"):
            return [(st, self.rv(st, vals[0]))]
        if fn.get("copyassign") or fn.get("moveassign"):
            self.write(st, obj, self.rv(st, vals[0]))
            return [(st, obj)]
        if fn.get("default"):
            rec = self.prog.rec_of(fn["cls"])
            if f is not None and f.get("inits"):
                return self.construct(st, f, [])
            if rec is not None:
                o = {}
                for x in rec["fields"]:
                    if "init" in x:
                        (st, v), = self.ev_r(st, x["init"])
                        o[x["n"]] = v
                    else:
                        o[x["n"]] = UNINIT
                        if self.prog.ty(x["t"])["k"] == "rec":
                            from . import models
                            try:
                                st, o[x["n"]] = models.mk_default(self, st, x["t"])
                            except Unsupported:
                                pass
                return [(st, Obj(self.prog.tstr(fn["cls"]), o))]
        if n == "operator==" and obj is not None:
            return [(st, self.deep_eq(st, self.rv(st, obj), self.rv(st, vals[0])))]
        raise Unsupported("defaulted %s" % fn["qn"])

    def deep_eq(self, st, a, b):
        la, lb = list(leaves(a)), list(leaves(b))
        return z3.And(*[x[1] == y[1] for x, y in zip(la, lb)])

    def bind_params(self, st, f, vals):
        env = {}
        for i, p in enumerate(f["params"]):
            if i >= len(vals):
                raise Unsupported("missing argument for %s" % f["fn"]["qn"])
            v = vals[i]
            pk = self.prog.ty(p["t"])
            if pk["k"] in ("lref", "rref"):
                if not isinstance(v, (LV, ValLV)):
                    v = self.alloc(st, v, "arg")
                env[p["id"]] = v
            else:
                env[p["id"]] = self.alloc(st, self.rv(st, v), p["n"] or "p")
        return env

    def run_fn(self, st, f, obj, vals, e=None):
        if f["kind"] == "ctor":
            return self.construct(st, f, vals)
        if len(self.fnstack) > 60:
            raise Unsupported("recursion in %s" % f["fn"]["qn"])
        if sum(1 for g in self.fnstack if g is f) > 2:
            raise Unsupported("recursive call of %s needs a contract" % f["fn"]["qn"])
        st = st.copy()
        n = len(st.pc)
        env = self.bind_params(st, f, vals)
        senv, sthis = st.env, st.this
        st.env = env
        if obj is not None and not isinstance(obj, (LV, ValLV)):
            obj = self.alloc(st, obj, "this")
        st.this = obj
        self.enter(f)
        try:
            res = self.ex(st, f["body"])
        finally:
            self.fnstack.pop()
        outs = []
        rref = self.prog.ty(f["ret"])["k"] in ("lref", "rref")
        for k, s, v in res:
            if k == "ret" and v is not None and not rref:
                v = self.rv(s, v)
            if k in ("n", "ret"):
                s = s.copy()
                s.env, s.this = senv, sthis
                outs.append((s, v if k == "ret" and v is not None else VOID))
            else:
                raise Unsupported("break out of function")
        return self.merge_states(n, outs)

    def enter(self, f):
        self.fnstack.append(f)
        if not self.mute:
            key = f["fn"]["qn"]
            self.used_fns[key] = f["loc"]

    def call_clo(self, st, c, vals, e=None):
        if isinstance(c, LV) or isinstance(c, ValLV):
            c = self.rv(st, c)
        if isinstance(c, Pure) and c.tag == "fn":
            return self.call(st, c.data, None, [("val", v) for v in vals], e)
        if not isinstance(c, Clo):
            raise Unsupported("call of %r" % (c,))
        if c.py is not None:
            return c.py(self, st.copy(), vals)
        fs = [self.prog.funcs[i] for i in c.fns if i in self.prog.funcs]
        fs = [f for f in fs if len(f["params"]) == len(vals)]
        if not fs:
            raise Unsupported("closure without body")
        f = fs[0]
        st = st.copy()
        n = len(st.pc)
        env = dict(c.caps)
        env.update(self.bind_params(st, f, vals))
        senv, sthis = st.env, st.this
        st.env, st.this = env, c.this
        self.enter(f)
        try:
            res = self.ex(st, f["body"])
        finally:
            self.fnstack.pop()
        rref = self.prog.ty(f["ret"])["k"] in ("lref", "rref")
        outs = []
        for k, s, v in res:
            if k == "ret" and v is not None and not rref:
                v = self.rv(s, v)
            s = s.copy()
            s.env, s.this = senv, sthis
            outs.append((s, v if k == "ret" and v is not None else VOID))
        return self.merge_states(n, outs)

    def construct(self, st, f, vals):
        """Run a constructor; yields the constructed value."""
        st = st.copy()
        n = len(st.pc)
        env = self.bind_params(st, f, vals)
        cls = self.prog.tstr(f["fn"]["cls"])
        senv, sthis = st.env, st.this
        tmp = self.alloc(st, self.blank(f["fn"]["cls"]), "new")
        st.env, st.this = env, tmp
        self.enter(f)
        try:
            states = [st]
            for ini in f.get("inits", []):
                nxt = []
                for s in states:
                    if "field" in ini:
                        isref = self.prog.ty(ini["ft"])["k"] in ("lref", "rref")
                        for s2, v in self.ev(s, ini["e"]):
                            s2 = s2.copy()
                            if isref:
                                o = s2.mem[tmp.root]
                                d = dict(o.f)
                                d[ini["field"]] = v
                                s2.mem[tmp.root] = Obj(o.cls, d)
                            else:
                                v = self.rv(s2, v)
                                if is_leaf(v) and v.sort() == I and self.prog.ty(ini["ft"])["k"] == "float":
                                    v = z3.ToReal(v)
                                self.write(s2, tmp.fld(ini["field"]), v)
                            nxt.append(s2)
                    elif ini.get("deleg"):
                        for s2, v in self.ev_r(s, ini["e"]):
                            s2 = s2.copy()
                            s2.mem[tmp.root] = v
                            nxt.append(s2)
                    elif "base" in ini:
                        for s2, v in self.ev_r(s, ini["e"]):
                            s2 = s2.copy()
                            if isinstance(v, Obj):
                                o = s2.mem[tmp.root]
                                d = dict(o.f)
                                d.update(v.f)
                                s2.mem[tmp.root] = Obj(o.cls, d)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                states = nxt
            outs = []
            for s in states:
                if f.get("body"):
                    for k, s2, v in self.ex(s, f["body"]):
                        outs.append(s2)
                else:
                    outs.append(s)
        finally:
            self.fnstack.pop()
        res = []
        for s in outs:
            s = s.copy()
            v = s.mem[tmp.root]
            s.env, s.this = senv, sthis
            res.append((s, v))
        return self.merge_states(n, res)

    def blank(self, t):
        rec = self.prog.rec_of(t)
        f = {}
        if rec:
            for b in rec["bases"]:
                bb = self.blank(b)
                f.update(bb.f)
            for x in rec["fields"]:
                f[x["n"]] = UNINIT
        return Obj(self.prog.tstr(t), f)

    # ------------------------------------------------------------ statements
    def ex(self, st, s):
        if s is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("stmt %s" % s["k"])
        return m(st, s)

    def s_Null(self, st, s):
        return [("n", st, None)]

    def s_Expr(self, st, s):
        e = s["e"]
        return [("n", s2, None) for s2, _ in self.ev(st, e)]

    def s_Compound(self, st, s):
        n = len(st.pc)
        outs = []
        cur = [st]
        declared = []
        for x in s["b"]:
            nxt = []
            if x["k"] == "Decl":
                declared += [v for v in x["vars"]]
            for c in cur:
                for k, s2, v in self.ex(c, x):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        outs.append((k, s2, v))
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge_states(n, [(a, None) for a in nxt])]
            cur = nxt
            if not cur:
                break
        res = outs + [("n", c, None) for c in cur]
        dts = [v for v in declared if self.has_dtor(v)]
        if dts:
            fin = []
            for k, s2, v in res:
                if k == "ret" and v is not None:
                    v = self.rv(s2, v) if not isinstance(v, LV) else v
                sts = [s2]
                for d in reversed(dts):
                    nx = []
                    for s3 in sts:
                        if d["id"] in s3.env:
                            nx += self.run_dtor(s3, s3.env[d["id"]], d["t"])
                        else:
                            nx.append(s3)
                    sts = nx
                for s3 in sts:
                    fin.append((k, s3, v))
            res = fin
        return res

    def has_dtor(self, v):
        if not self.dtor_classes:
            return False
        s = self.prog.tstr(v["t"])
        return self.tkind(v["t"]) == "rec" and any(re.search(c, s) for c in self.dtor_classes)

    def run_dtor(self, st, lv, t):
        rec = self.prog.ty(t)
        fs = [f for f in self.prog.funcs.values() if f["kind"] == "dtor" and self.prog.ty(f["fn"]["cls"]).get("id") == rec["id"]]
        if not fs:
            raise Unsupported("no destructor body for %s" % rec["s"])
        return [s for s, _ in self.run_fn(st, fs[0], lv, [])]

    def s_Decl(self, st, s):
        cur = [st]
        for v in s["vars"]:
            nxt = []
            for c in cur:
                nxt += self.decl(c, v)
            cur = nxt
        return [("n", c, None) for c in cur]

    def decl(self, st, v):
        k = self.prog.ty(v["t"])["k"]
        outs = []
        if v.get("static"):
            r = "static:%d" % v["id"]
            if r not in st.mem:
                st = st.copy()
                if "init" in v:
                    (st, x), = self.ev_r(st, v["init"])
                    st.mem[r] = x
                else:
                    st.mem[r] = UNINIT
            st = st.copy()
            st.env[v["id"]] = LV(r)
            return [st]
        if "init" not in v or v["init"] is None:
            st = st.copy()
            st.env[v["id"]] = self.alloc(st, UNINIT, v["n"])
            return [st]
        for s, x in self.ev(st, v["init"]):
            s = s.copy()
            if k in ("lref", "rref"):
                if not isinstance(x, (LV, ValLV)):
                    x = self.alloc(s, x, v["n"])
                s.env[v["id"]] = x
            else:
                x = self.rv(s, x)
                if is_leaf(x) and x.sort() == I and k == "float":
                    x = z3.ToReal(x)
                s.env[v["id"]] = self.alloc(s, x, v["n"])
            if "bindings" in v:
                sts = [s]
                from . import models
                for bi, b in enumerate(v["bindings"]):
                    nx = []
                    for s2 in sts:
                        s2 = s2.copy()
                        base = s2.env[v["id"]]
                        lv = models.bind(self, s2, base, bi, b)
                        s2.env[b["id"]] = lv
                        if "hold" in b:
                            s2.env[b["hold"]["id"]] = lv
                        nx.append(s2)
                    sts = nx
                outs += sts
            else:
                outs.append(s)
        return outs

    def s_Return(self, st, s):
        if s["e"] is None:
            return [("ret", st, None)]
        return [("ret", s2, v) for s2, v in self.ev(st, s["e"])]

    def s_Break(self, st, s):
        return [("brk", st, None)]

    def s_Continue(self, st, s):
        return [("cont", st, None)]

    def s_If(self, st, s):
        cur = [st]
        if s.get("init"):
            cur = [x for c in cur for k, x, _ in self.ex(c, s["init"])]
        if s.get("var"):
            cur = [x for c in cur for k, x, _ in self.ex(c, s["var"])]
        outs = []
        for c in cur:
            every = []
            for s1, cond in self.ev_r(c, s["c"]):
                n = len(s1.pc)
                norm = []
                for s2, br in self.branch(s1, cond):
                    for k, s3, v in self.ex(s2, s["t"] if br else s["e"]):
                        if k == "n":
                            norm.append((s3, None))
                        else:
                            outs.append((k, s3, v))
                every += self.merge_states(n, norm)
            outs += [("n", a, None) for a, _ in self.join_states(len(c.pc), every)]
        return outs

    def s_Try(self, st, s):
        return self.ex(st, s["b"])

    def s_Switch(self, st, s):
        outs = []
        for s1, c in self.ev_r(st, s["c"]):
            body = s["b"]["b"]
            # flatten case labels
            items = []
            for x in body:
                labels = []
                while x["k"] in ("Case", "Default"):
                    labels.append(x)
                    x = x["b"]
                items.append((labels, x))
            vals = []
            for labels, x in items:
                for l in labels:
                    if l["k"] == "Case":
                        (_, v), = self.ev_r(s1, l["v"])
                        vals.append(v)
            def run_from(i, st0):
                cur = [st0]
                res = []
                for labels, x in items[i:]:
                    nx = []
                    for q in cur:
                        for k, s3, v in self.ex(q, x):
                            if k == "n": nx.append(s3)
                            elif k == "brk": res.append(("n", s3, None))
                            else: res.append((k, s3, v))
                    cur = nx
                    if not cur: break
                return res + [("n", q, None) for q in cur]
            hasdef = False
            for i, (labels, x) in enumerate(items):
                for l in labels:
                    if l["k"] == "Case":
                        (_, v), = self.ev_r(s1, l["v"])
                        s2 = s1.assume(c == v)
                    else:
                        hasdef = True
                        s2 = s1.assume(*[c != w for w in vals])
                    if self.feasible(s2):
                        outs += run_from(i, s2)
            if not hasdef:
                s2 = s1.assume(*[c != w for w in vals])
                if self.feasible(s2):
                    outs.append(("n", s2, None))
        return outs

    # loops --------------------------------------------------------
    def s_For(self, st, s):
        outs = []
        for k, c, _ in self.ex(st, s["init"]):
            outs += self.loop(c, s, s["c"], s["inc"], [s["b"]])
        return outs

    def s_While(self, st, s):
        pre = [s["var"]] if s.get("var") else []
        return self.loop(st, s, s["c"], None, [s["b"]], condpre=pre)

    def s_Do(self, st, s):
        # do B while(c)  ==  B; while(c) B   (break/continue handled by one shared body run)
        outs = []
        for k, c, v in self.ex(st, s["b"]):
            if k in ("n", "cont"):
                outs += self.loop(c, s, s["c"], None, [s["b"]])
            elif k == "brk":
                outs.append(("n", c, None))
            else:
                outs.append((k, c, v))
        return outs

    def s_RangeFor(self, st, s):
        cur = [st]
        for x in ("init", "range", "begin", "end"):
            if s.get(x):
                cur = [b for a in cur for _, b, _ in self.ex(a, s[x])]
        outs = []
        for c in cur:
            u = self.unroll_fixed(c, s)
            outs += u if u is not None else self.loop(c, s, s["c"], s["inc"], [s["var"], s["b"]])
        return outs

    def unroll_fixed(self, st, s):
        """A range-for over a small array of fixed extent, executed element by element (exact)."""
        its = [v for v in (self.read(st, x) if isinstance(x, LV) and x.root in st.mem else None for x in list(st.env.values())[-2:]) if isinstance(v, Iter)]
        if not its or not isinstance(its[0].lv, LV):
            return None
        a = self.read(st, its[0].lv)
        if not (isinstance(a, Obj) and a.cls == "arr" and len(a.f) <= 4):
            return None
        outs, cur = [], [st]
        for _ in range(len(a.f) + 1):
            nxt = []
            for c in cur:
                exits, backs, others = self.iterate(c, s["c"], s["inc"], [s["var"], s["b"]])
                outs += others + [("n", x, None) for x in exits]
                nxt += backs
            cur = nxt
        if cur:
            raise Unsupported("loop over a fixed array does not end")
        return outs

    def loop(self, st, node, cond, inc, body, condpre=()):
        from .loops import run_loop
        return run_loop(self, st, node, cond, inc, body, condpre)

    # one iteration from state st: returns (exits, backs, others)
    def iterate(self, st, cond, inc, body, condpre=()):
        n = len(st.pc)
        exits, backs, others = [], [], []
        starts = [st]
        for x in condpre:
            starts = [b for a in starts for _, b, _ in self.ex(a, x)]
        for st1 in starts:
            conds = self.ev_r(st1, cond) if cond is not None else [(st1, z3.BoolVal(True))]
            for s1, c in conds:
                for s2, br in self.branch(s1, c):
                    if not br:
                        exits.append(s2)
                        continue
                    cur = [s2]
                    ends = []
                    for b in body:
                        nx = []
                        for q in cur:
                            for k, s3, v in self.ex(q, b):
                                if k == "n": nx.append(s3)
                                elif k == "cont": ends.append(s3)
                                elif k == "brk": others.append(("n", s3, None))
                                else: others.append((k, s3, v))
                        cur = nx
                    ends += cur
                    if len(ends) > 1 and self.merge_loops:
                        ends = [a for a, _ in self.merge_states(n, [(a, None) for a in ends])]
                    for q in ends:
                        if inc is not None:
                            for s4, _ in self.ev(q, inc):
                                backs.append(s4)
                        else:
                            backs.append(q)
        return exits, backs, others
