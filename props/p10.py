"""P10: matrix elements, slices and views address exactly the elements they name."""
import re
import z3
from slpv.eng import *
from slpv import ginst as GI
from slpv.mats import *
from props.p01 import py_slice, count_is
from props.p11 import SRC as SRC11, kind

HARNESS = "p10.cpp"
HSRC = ("autodiff/variable_matrix.cpp",)
MIN_OBLIGATIONS = 200
SRC = SRC11 + r"""
void use2(M m, B b, const M& cm, const C& c, std::span<const V> sp, slp::Slice s) {
  M a1{sp}; M a2{sp, 1, 1}; M a3(1); M a4{1, 1}; M a5{slp::detail::empty, 1, 1}; M a6{b}; M a7{c}; V v; M a8{v}; M a9{V{}};
  m[s, s]; cm[s, s]; m[s, 1, s, 1]; cm[s, 1, s, 1]; cm.row(0); cm.col(0); m.row(0); m.col(0); m.segment(0, 1); cm.segment(0, 1); cm.block(0, 0, 1, 1); m.block(0, 0, 1, 1);
  B d{m, s, 1, s, 1}; C e{cm, s, 1, s, 1}; const B& cb = b; cb.row(0); cb.col(0); cb.block(0, 0, 1, 1); cb[s, s]; cb[s, 1, s, 1]; cb[0, 0]; cb[0]; cb.begin(); cb.end();
  m.value(0, 0); m.value(0); m.value(); m.size(); cm.begin(); cm.end(); cm[0, 0]; cm[0]; C f{cm};
}
"""
OWN = ((VM, "mat"), (VB, "blk"), (VC, "cblk"))


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for f in P.funcs.values():
        fn, q = f["fn"], f["fn"]["qn"]
        own = next((k for c, k in OWN if q.startswith(c + "::") and q.count("::") == c.count("::") + 1), None)
        if own is None:
            it = next((k for c, k in OWN[1:] if re.match("^" + re.escape(c) + r"::(const_)?iterator::", q)), None)
            if it and f["kind"] != "ctor" and re.match(r"^operator(\+\+|--|\*|==)$", fn["n"]) and f.get("body"):
                jobs.append(("%s iterator %s(%s)" % (it, fn["n"], ", ".join(kind(P, t) for t in fn["pt"])), iterator, P, f, it))
            continue
        if not f.get("body") and f["kind"] != "ctor":
            continue
        if fn.get("copy") or fn.get("move") or fn.get("defaulted"):
            continue
        ks = [kind(P, t) for t in fn["pt"]]
        n = fn["n"]
        const = "const" if fn.get("const") else ""
        nm = "%s::%s(%s)%s" % (own, n, ", ".join(ks), const)
        sl = "slp::Slice"
        if n == "operator[]" and all(k == "int" for k in ks):
            jobs.append((nm, access, P, f, own, len(ks)))
        elif n == "value" and all(k == "int" for k in ks) and ks:
            jobs.append((nm, access, P, f, own, len(ks), True))
        elif n in ("block", "segment", "row", "col") or n == "operator[]" and ks in ([sl, sl], [sl, "int", sl, "int"]):
            jobs.append((nm, views, P, f, own, ks))
        elif f["kind"] == "ctor" and own in ("blk", "cblk") and ks and ks[0] in ("mat",):
            jobs.append((nm, views, P, f, own, ks))
        elif n in ("begin", "end", "cbegin", "cend") and own != "mat":
            jobs.append((nm, ends, P, f, own))
        elif n == "size":
            jobs.append((nm, size, P, f, own))
        elif f["kind"] == "ctor" and own == "mat" and ks and not any("initializer" in k or "vector" in k for k in ks) and ks != ["mat"]:
            jobs.append((nm, ctor, P, f, ks))
        elif own in ("mat", "blk") and n in ("operator=", "set_value") and ks and f.get("body"):
            jobs.append((nm, assign, P, f, own, ks))
            if own == "blk" and ks == ["blk"]:
                jobs.append((nm + " to a view without a matrix", rebind, P, f, own))
                jobs.append((nm + " to itself", assign, P, f, own, ks, True))
        elif n == "value" and not ks:
            jobs.append((nm, toeigen, P, f, own))
        elif n.startswith("operator Variable") or n.startswith("operator slp::Variable") or fn.get("conv"):
            jobs.append((nm, toscalar, P, f, own))
    ck.part("lemmas", lemmas, ck)
    ck.par(jobs)
    ck.assume += ["index arithmetic (row * cols + col, start + i * step, composed steps) fits in int",
                  "Slice::adjust enters by the contract proved in P01",
                  "gch::small_vector keeps its elements in order (modelled as a sequence)",
                  "element-wise assignment between overlapping views at different positions is outside the domain",
                  "construction from nested lists is checked by the harness only (bounded)"]


# ---------------------------------------------------------------- worlds
class Flat(Mats):
    """VariableMatrix with its real fields; every member function is executed, except Slice::adjust."""

    def __init__(self, ck, P, views_by_contract=False):
        self.vbc = views_by_contract
        super().__init__(ck, P)
        self.ks = []          # positions (skolems) the facts of adjusted slices are instantiated at
        E = self.E
        E.contracts.insert(0, (lambda fn: fn["qn"] == "slp::Slice::adjust", self.h_adjust))
        E.contracts.insert(0, (lambda fn: fn["qn"].startswith(VM + "::") and not (fn.get("copy") or fn.get("move")) and fn["n"] not in ("~VariableMatrix",) and fn["id"] in P.funcs, lambda E_, s, fn, o, v, e: E_.construct(s, P.funcs[fn["id"]], v) if P.funcs[fn["id"]]["kind"] == "ctor" else E_.invoke(s, fn, o, v, e)))

    def is_mat(self, fn):
        if fn["qn"].startswith(VM + "::"):
            return False
        if not self.vbc and (fn["qn"].startswith(VB + "::") or fn["qn"].startswith(VC + "::")):
            return False
        return super().is_mat(fn)

    def h_adjust(self, E, s, fn, o, v, e):
        n = E.rv(s, v[0])
        x = E.read(s, o)
        a, b, t = [x.f[k] for k in ("start", "stop", "step")]
        E.oblige(s, z3.And(n >= 0, t != 0, t > -2 ** 31), "precondition of Slice::adjust", kind="pre")
        pa, pb, _ = py_slice(a, b, t, n)
        cnt, a2, b2, t2 = [fresh(k, I) for k in ("count", "start", "stop", "step")]
        fs = [cnt >= 0, cnt <= n, count_is(cnt, pa, pb, t), z3.Implies(cnt > 0, z3.And(a2 == pa, t2 == t)), t2 != 0, t2 > -2 ** 31]
        for k in self.ks:   # lemma "adjusted slices stay inside"
            fs.append(z3.Implies(z3.And(k >= 0, k < cnt), z3.And(a2 + k * t2 >= 0, a2 + k * t2 < n)))
        s = s.assume(*fs)
        E.write(s, o, Obj("slp::Slice", {"start": a2, "stop": b2, "step": t2}))
        self.__dict__.setdefault("adjusted", []).append((a, b, t, n, cnt, a2, t2))
        return [(s, cnt)]

    def flat(self, name):
        st = self.st
        r, c, n = fresh(name + ".rows", I), fresh(name + ".cols", I), None
        a = fresh(name, AR)
        st.pc += (r >= 0, c >= 0, r * c >= 0)
        lv = self.E.alloc(st, Obj(VM, {"m_storage": Seq(r * c, Obj(VT, {"v": a}), "seq"), "m_rows": r, "m_cols": c}), name)
        return lv, r, c

    def fview(self, own, name="view"):
        """A view with the class invariant: its positions stay inside the matrix."""
        st = self.st
        lv, mr, mc = self.flat("m")
        r, c = fresh("view.rows", I), fresh("view.cols", I)
        rs, rt, cs, ct = [fresh("view." + k, I) for k in ("rs", "rt", "cs", "ct")]
        st.pc += (r >= 0, c >= 0, rt != 0, ct != 0, rt > -2 ** 31, ct > -2 ** 31)
        v = self.view(lv, r, c, VB if own == "blk" else VC, rs, rt, cs, ct)
        w = self.E.alloc(st, v, name)
        return w, lv, mr, mc, r, c, (rs, rt, cs, ct)


def inside(k, n, s, t, size):
    return z3.Implies(z3.And(k >= 0, k < n), z3.And(s + k * t >= 0, s + k * t < size))


def same_place(E, s, got, want, label, loc):
    """The glvalue `got` is element `want` (an LV ending in an index) of the same storage."""
    if isinstance(got, Obj) or got is None or not isinstance(got, LV):
        E.oblige(s, z3.BoolVal(False), label + " (not an element reference)", loc, "post")
        return
    ok = got.root == want.root and len(got.path) == len(want.path) and all(x[0] == y[0] and (x[0] == "i" or x[1] == y[1]) for x, y in zip(got.path, want.path))
    E.oblige(s, z3.And(*[x[1] == y[1] for x, y in zip(got.path, want.path) if x[0] == "i"]) if ok else z3.BoolVal(False), label, loc, "post")


# ---------------------------------------------------------------- element access
def place(lv, mc, p, q):
    return lv.fld("m_storage").at(p * mc + q)


def access(ck, P, f, own, nidx, value=False):
    W = Flat(ck, P)
    E, st = W.E, W.st
    E.check_bounds = True
    if own == "mat":
        this, r, c = W.flat("m")
        lv, mc, mp = this, c, lambda p, q: (p, q)
    else:
        this, lv, mr, mc, r, c, (rs, rt, cs, ct) = W.fview(own)
        mp = lambda p, q: (rs + p * rt, cs + q * ct)
    p, q = fresh("row", I), fresh("col", I)
    st.pc += (p >= 0, p < r, q >= 0, q < c, p * c + q < r * c, p * c >= 0)
    args = [p, q]
    if nidx == 1:
        i = fresh("index", I)
        st.pc += (i == p * c + q, i / c == p, i % c == q)      # lemma "row-major index"
        args = [i]
    if own != "mat":
        x, y = mp(p, q)
        mr = E.read(st, lv).f["m_rows"]
        st.pc += (x >= 0, x < mr, y >= 0, y < mc, x * mc + y < mr * mc, x * mc >= 0)
    want = place(lv, mc, *mp(p, q))
    for s, v in E.run_fn(st, f, this, args):
        ck.nonvacuous("access", list(s.pc))
        if value:
            E.oblige(s, W.num(s, v) == W.num(s, want), "value of exactly the named element", f["loc"], "post")
        else:
            same_place(E, s, v, want, "a reference to exactly the named element", f["loc"])
        E.oblige(s, z3.BoolVal(same(s.mem[lv.root], st.mem[lv.root])), "access changes nothing", f["loc"], "frame")
    ck.take(E, "element access")


def toscalar(ck, P, f, own):
    W = Flat(ck, P)
    E, st = W.E, W.st
    if own == "mat":
        this, r, c = W.flat("m")
        st.pc += (r == 1, c == 1)
        want = place(this, c, z3.IntVal(0), z3.IntVal(0))
    else:
        this, lv, mr, mc, r, c, (rs, rt, cs, ct) = W.fview(own)
        st.pc += (r == 1, c == 1, rs >= 0, rs < mr, cs >= 0, cs < mc)
        want = place(lv, mc, rs, cs)
    for s, v in E.run_fn(st, f, this, []):
        E.oblige(s, W.num(s, v) == W.num(s, want), "the only element", f["loc"], "post")
    ck.take(E, "conversion to Variable")


def size(ck, P, f, own):
    W = Flat(ck, P)
    E, st = W.E, W.st
    if own == "mat":
        this, r, c = W.flat("m")
    else:
        this, lv, mr, mc, r, c, _ = W.fview(own)
        st.pc += (r * c >= 0,)
    for s, v in E.run_fn(st, f, this, []):
        E.oblige(s, E.rv(s, v) == r * c, "size is rows times columns", f["loc"], "post")
    ck.take(E, "size")


def ends(ck, P, f, own):
    W = Flat(ck, P)
    E, st = W.E, W.st
    this, lv, mr, mc, r, c, _ = W.fview(own)
    n = f["fn"]["n"]
    for s, v in E.run_fn(st, f, this, []):
        x = E.rv(s, v)
        ok = isinstance(x, Obj) and isinstance(x.f.get("m_mat"), Ptr) and same_lv(x.f["m_mat"].lv, this)
        E.oblige(s, z3.BoolVal(ok), "iterator over this view", f["loc"], "post")
        if ok:
            E.oblige(s, x.f["m_index"] == (0 if "begin" in n else r * c), "iterator position", f["loc"], "post")
    ck.take(E, n)


def iterator(ck, P, f, own):
    W = Flat(ck, P)
    E, st = W.E, W.st
    this, lv, mr, mc, r, c, (rs, rt, cs, ct) = W.fview(own)
    cls = P.tstr(f["fn"]["cls"]) if "cls" in f["fn"] else ("iterator")
    i = fresh("position", I)
    n, k = f["fn"]["n"], len(f["fn"]["pt"])
    it = E.alloc(st, Obj(cls, {"m_mat": Ptr(this), "m_index": i}), "it")
    if n == "operator*":
        p, q = fresh("row", I), fresh("col", I)
        x, y = rs + p * rt, cs + q * ct
        st.pc += (p >= 0, p < r, q >= 0, q < c, p * c + q < r * c, p * c >= 0, i == p * c + q, i / c == p, i % c == q, x >= 0, x < mr, y >= 0, y < mc, x * mc + y < mr * mc, x * mc >= 0)
        for s, v in E.run_fn(st, f, it, []):
            same_place(E, s, v, place(lv, mc, x, y), "position k of the iteration is element k in row-major order", f["loc"])
    elif n == "operator==":
        j = fresh("other", I)
        o = E.alloc(st, Obj(cls, {"m_mat": Ptr(this), "m_index": j}), "it2")
        for s, v in E.run_fn(st, f, it, [o]):
            E.oblige(s, E.rv(s, v) == (i == j), "iterators are equal exactly at equal positions", f["loc"], "post")
    else:
        d = 1 if n == "operator++" else -1
        for s, v in E.run_fn(st, f, it, [z3.IntVal(0)] * k):
            E.oblige(s, E.read(s, it).f["m_index"] == i + d, "moves by one", f["loc"], "post")
            E.oblige(s, E.rv(s, v).f["m_index"] == (i if k else i + d), "returned iterator", f["loc"], "post")
    ck.take(E, "iterator")


# ---------------------------------------------------------------- views
def views(ck, P, f, own, ks):
    W = Flat(ck, P)
    E, st = W.E, W.st
    n = f["fn"]["n"]
    k, l = fresh("k", I), fresh("l", I)        # an arbitrary position of the new view
    W.ks = [k, l]
    is_ctor = f["kind"] == "ctor"
    parent = "mat" if is_ctor else own
    if parent == "mat":
        this, r, c = W.flat("m")
        lv, mr, mc = this, r, c
        rs, rt, cs, ct = z3.IntVal(0), z3.IntVal(1), z3.IntVal(0), z3.IntVal(1)
    else:
        this, lv, mr, mc, r, c, (rs, rt, cs, ct) = W.fview(own)

    def held(x, y):
        """The parent's class invariant at row x and column y."""
        if parent != "mat":
            st.pc += (inside(x, r, rs, rt, mr), inside(y, c, cs, ct, mc))
    rowmap = colmap = None
    sl = "slp::Slice"
    if ks in ([sl, sl], [sl, "int", sl, "int"]) or is_ctor and ks == ["mat", sl, "int", sl, "int"]:
        S = []
        for x in ("row_slice", "col_slice"):
            S.append({y: fresh(x + "." + y, I) for y in ("start", "stop", "step")})
            st.pc += (S[-1]["step"] != 0, S[-1]["step"] > -2 ** 31)
        # the composed steps fit in int
        if parent != "mat":
            st.pc += (S[0]["step"] * rt > -2 ** 31, S[1]["step"] * ct > -2 ** 31, S[0]["step"] * rt != 0, S[1]["step"] * ct != 0)
        objs = [Obj(sl, dict(x)) for x in S]
        if len(ks) == 2:
            args = objs
            held_later = True
        else:
            m, h = fresh("row_len", I), fresh("col_len", I)
            st.pc += (m >= 0, h >= 0, inside(k, m, S[0]["start"], S[0]["step"], r), inside(l, h, S[1]["start"], S[1]["step"], c))
            args = [objs[0], m, objs[1], h]
            want = (m, h, lambda x: S[0]["start"] + x * S[0]["step"], lambda y: S[1]["start"] + y * S[1]["step"])
            held(want[2](k), want[3](l))
        if is_ctor:
            args = [this] + args
    else:
        names = {"block": 4, "segment": 2, "row": 1, "col": 1}.get(n) if not is_ctor else len(ks) - 1
        v = [fresh("a%d" % x, I) for x in range(names or 0)]
        z = z3.IntVal(0)
        one = z3.IntVal(1)
        if is_ctor and not v:
            ro, co, br, bc = z, z, r, c
        elif n == "block" or is_ctor:
            ro, co, br, bc = v
            st.pc += (ro >= 0, co >= 0, br >= 0, bc >= 0, ro + br <= r, co + bc <= c)
        elif n == "segment":
            ro, co, br, bc = v[0], z, v[1], one
            st.pc += (c == 1, ro >= 0, ro < r, br >= 0, ro + br <= r)
        elif n == "row":
            ro, co, br, bc = v[0], z, one, c
            st.pc += (ro >= 0, ro < r)
        else:
            ro, co, br, bc = z, v[0], r, one
            st.pc += (co >= 0, co < c)
        args = ([this] if is_ctor else []) + v
        want = (br, bc, lambda x: ro + x, lambda y: co + y)
        held(ro + k, co + l)
        held(ro, co)
    st.pc += (mr < 2 ** 31, mc < 2 ** 31, r < 2 ** 31, c < 2 ** 31)
    if is_ctor:
        outs = []
        for s, o in E.construct(st, f, args):
            outs.append((s, o))
    else:
        outs = E.run_fn(st, f, this, args)
    for s, v in outs:
        x = E.rv(s, v)
        ck.nonvacuous(n, list(s.pc))
        ok = isinstance(x, Obj) and x.cls in (VB, VC) and isinstance(x.f.get("m_mat"), Ptr) and same_lv(x.f["m_mat"].lv, lv)
        E.oblige(s, z3.BoolVal(ok), "a view of the same matrix", f["loc"], "post")
        if not ok:
            continue
        g = x.f
        ns, nt, ms, mt = g["m_row_slice"].f["start"], g["m_row_slice"].f["step"], g["m_col_slice"].f["start"], g["m_col_slice"].f["step"]
        if ks == [sl, sl]:
            # what the slices mean, as Python resolves them against the parent's shape
            cr, cc = g["m_row_slice_length"], g["m_col_slice_length"]
            pr = py_slice(S[0]["start"], S[0]["stop"], S[0]["step"], r)
            pc_ = py_slice(S[1]["start"], S[1]["stop"], S[1]["step"], c)
            E.oblige(s, count_is(cr, pr[0], pr[1], pr[2]), "number of rows selected", f["loc"], "post")
            E.oblige(s, count_is(cc, pc_[0], pc_[1], pc_[2]), "number of columns selected", f["loc"], "post")
            rm, cm = (lambda t: pr[0] + t * S[0]["step"]), (lambda t: pc_[0] + t * S[1]["step"])
            extra = []
            if parent != "mat":
                extra = [inside(rm(k), r, rs, rt, mr), inside(cm(l), c, cs, ct, mc)]
                extra += [z3.Implies(z3.And(k >= 0, k < cr), z3.And(rm(k) >= 0, rm(k) < r)), z3.Implies(z3.And(l >= 0, l < cc), z3.And(cm(l) >= 0, cm(l) < c))]
            s = s.assume(*extra)
        else:
            cr, cc, rm, cm = want
            E.oblige(s, z3.And(g["m_row_slice_length"] == cr, g["m_col_slice_length"] == cc), "shape of the view", f["loc"], "post")
        d = s.assume(k >= 0, k < cr)
        E.oblige(d, ns + k * nt == rs + rm(k) * rt, "row k of the view is the row it names", f["loc"], "post")
        E.oblige(d, z3.And(ns + k * nt >= 0, ns + k * nt < mr), "rows of the view stay inside the matrix", f["loc"], "invariant")
        d = s.assume(l >= 0, l < cc)
        E.oblige(d, ms + l * mt == cs + cm(l) * ct, "column l of the view is the column it names", f["loc"], "post")
        E.oblige(d, z3.And(ms + l * mt >= 0, ms + l * mt < mc), "columns of the view stay inside the matrix", f["loc"], "invariant")
        E.oblige(s, z3.And(nt != 0, mt != 0, g["m_row_slice_length"] >= 0, g["m_col_slice_length"] >= 0), "distinct positions name distinct elements (step is never zero)", f["loc"], "invariant")
        E.oblige(s, z3.BoolVal(same(s.mem[lv.root], st.mem[lv.root])), "taking a view changes nothing", f["loc"], "frame")
    ck.take(E, n)


def lemmas(ck):
    a, b, t, n, cnt, k, j = z3.Ints("a b t n cnt k j")
    pa, pb, _ = py_slice(a, b, t, n)
    pre = [n >= 0, t != 0, count_is(cnt, pa, pb, t), k >= 0, k < cnt]
    # products bounded by monotonicity: k * t lies between 0 and (cnt - 1) * t
    mono = z3.And(z3.Implies(t > 0, z3.And(k * t >= 0, k * t <= (cnt - 1) * t)), z3.Implies(t < 0, z3.And(k * t <= 0, k * t >= (cnt - 1) * t)))
    ck.ob("lemma: multiples of a step are monotone", [k >= 0, k <= cnt - 1, t != 0], mono, kind="lemma")
    ck.ob("lemma: adjusted slices stay inside", pre + [mono], z3.And(pa + k * t >= 0, pa + k * t < n), kind="lemma")
    ck.ob("lemma: distinct positions of a view are distinct indices", [t != 0, k != j], a + k * t != a + j * t, kind="lemma")
    p, q, c, r, p2, q2 = z3.Ints("p q c r p2 q2")
    ck.ob("lemma: row-major index", [p >= 0, q >= 0, q < c], z3.And((p * c + q) / c == p, (p * c + q) % c == q), kind="lemma")
    ck.ob("lemma: row-major index is inside", [p >= 0, p < r, q >= 0, q < c, (r - 1 - p) * c >= 0], p * c + q < r * c, kind="lemma")
    ck.ob("lemma: products of nonnegatives", [p >= 0, c >= 0], p * c >= 0, kind="lemma")
    ck.ob("lemma: row-major index is injective", [p >= 0, p2 >= 0, q >= 0, q < c, q2 >= 0, q2 < c, p * c + q == p2 * c + q2,
                                                  (p * c + q) / c == p, (p * c + q) % c == q, (p2 * c + q2) / c == p2, (p2 * c + q2) % c == q2], z3.And(p == p2, q == q2), kind="lemma")


# ---------------------------------------------------------------- constructors
FL = z3.Function("flat_index", I, I, I)
FR = z3.Function("flat_row", I, I)
FC = z3.Function("flat_col", I, I)


def ctor(ck, P, f, ks):
    W = Flat(ck, P, views_by_contract=True)
    E, st = W.E, W.st
    zero = z3.IntVal(0)
    spec = None
    if ks[:1] == ["int"] or len(ks) == 3 and "empty" in ks[0]:
        r = fresh("rows", I)
        c = fresh("cols", I) if len(ks) >= 2 else z3.IntVal(1)
        st.pc += (r >= 0, c >= 0)
        args = [r] + ([c] if len(ks) == 2 else []) if ks[0] == "int" else [Obj("slp::detail::empty_t", {}), r, c]
        spec = (lambda p, q: z3.RealVal(0)) if ks[0] == "int" else None
        if spec:
            spec = None     # the value of a default-constructed Variable is a P04 matter; only the shape here
    elif ks == ["var"]:
        xv = fresh("x", R)
        r = c = z3.IntVal(1)
        args, spec = [Obj(VT, {"v": xv})], lambda p, q: xv
    elif "span" in ks[0]:
        n = fresh("n", I)
        a = fresh("values", AR)
        GI.array(a, ["f"])
        st.pc += (n >= 0,)
        sp = Seq(n, Obj(VT, {"v": a}), "seq")
        if len(ks) == 1:
            r, c, args = n, z3.IntVal(1), [E.alloc(st, sp, "values")]
        else:
            r, c = fresh("rows", I), fresh("cols", I)
            st.pc += (r >= 0, c >= 0, n == r * c)
            args = [E.alloc(st, sp, "values"), r, c]
        spec = lambda p, q, a=a: sel(a, FL(p, q))
    elif ks[0] == "eig" and "Diagonal" in P.tstr(P.strip_ref(f["fn"]["pt"][0])):
        n = fresh("n", I)
        a = fresh("diag", AR)
        GI.array(a, ["x"])
        st.pc += (n >= 0,)
        r = c = n
        o = Obj("eig", {"rows": n, "cols": n, "diag": Obj("diag", {"n": n, "a": a})})
        args, spec = [E.alloc(st, o, "values")], lambda p, q, a=a: z3.If(p == q, sel(a, p), z3.RealVal(0))
    else:
        lv, r, c, g = W.make(ks[0], "values")
        args, spec = [lv], g
    st.pc += (r * c >= 0,)
    # row-major numbering: FL(p, q) = p * cols + q with inverse (FR, FC)
    GI.register(FL.name(), ["x", "x"], "f")
    GI.register(FR.name(), ["f"], "x")
    GI.register(FC.name(), ["f"], "x")
    GI.BINDER.update({"p!": "x", "q!": "x", "g!": "f"})
    p, q, m = fresh("p", I), fresh("q", I), fresh("g", I)
    st.pc += (FL(zero, zero) == 0,
              FA([p, q], z3.And(z3.Implies(z3.And(p >= 0, q >= 0, q < c), z3.And(FR(FL(p, q)) == p, FC(FL(p, q)) == q)), FL(p, q) == p * c + q,
                                FL(p, q + 1) == FL(p, q) + 1, FL(p, c) == FL(p + 1, zero))))
    k0_, k1_ = fresh("p", I), fresh("q", I)
    E.readonly = {x.root for x in args if isinstance(x, LV)} | {v[0].root for v in W.srcs.values()}

    def cand(cx):
        out = []
        k = [cx.sh.ghost.get("k:%d" % d) for d in range(2)]
        for root in {x[0] for x in cx.mod}:
            t = cx.sh.mem.get(root)
            sq = t.f.get("m_storage") if isinstance(t, Obj) else None
            if sq is None:
                continue
            a = sq.d.f["v"]
            GI.array(a, ["f"])
            out.append(("shape kept", z3.And(t.f["m_rows"] == r, t.f["m_cols"] == c)))
            if k[1] is None:
                out += [("elements so far", sq.n == k[0]), ("whole rows so far", sq.n == FL(k[0], zero))]
                out += [("numbering", z3.And(FL(k[0], zero) == k[0] * c, FL(k[0], c) == FL(k[0] + 1, zero), FL(k[0] + 1, zero) == (k[0] + 1) * c))]
            else:
                out += [("elements so far", sq.n == FL(k[0], k[1])), ("elements so far", sq.n == k[0] * c + k[1])]
                out += [("numbering", z3.And(FL(k[0], k[1] + 1) == FL(k[0], k[1]) + 1, FL(k[0], zero) == k[0] * c, FL(k[0], c) == FL(k[0] + 1, zero)))]
                out += [("inverse numbering", z3.Implies(z3.And(k[0] >= 0, k[1] >= 0, k[1] < c), z3.And(FR(sq.n) == k[0], FC(sq.n) == k[1])))]
            if spec is not None:
                g_ = fresh("g", I)
                out.append(("contents so far", FA([g_], z3.Implies(z3.And(g_ >= 0, g_ < sq.n), sel(a, g_) == spec(FR(g_), FC(g_))))))
        return out + W.counters(cx, r, c) + [("count", k[0] <= r * c)]
    W.cand_fn = cand
    for s, x in E.construct(st, f, args):
        g = x.f
        ck.nonvacuous("constructor", list(s.pc))
        E.oblige(s, z3.And(g["m_rows"] == r, g["m_cols"] == c), "shape", f["loc"], "post")
        E.oblige(s, g["m_storage"].n == r * c, "number of elements", f["loc"], "post")
        if spec is not None:
            p, q = fresh("qp", I), fresh("qq", I)
            GI.BIND_SK.update({p.decl().name(): "x", q.decl().name(): "x"})
            a = g["m_storage"].d.f["v"]
            GI.array(a, ["f"])
            d = s.assume(p >= 0, p < r, q >= 0, q < c, FL(p, q) == p * c + q, FL(p, q) < r * c, FL(p, q) >= 0)   # lemmas above
            E.oblige(d, sel(a, FL(p, q)) == spec(p, q), "element (p, q) is element p * cols + q of the storage", f["loc"], "post")
    ck.take(E, "VariableMatrix constructor")


# ---------------------------------------------------------------- assignment
def assign(ck, P, f, own, ks, selfassign=False):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    this, r, c, g = W.make(own, "t")
    if selfassign:
        x, r2, c2, h = this, r, c, g
    else:
        x, r2, c2, h = W.make(ks[0], "x")
    if r2 is None:
        st.pc += (r == 1, c == 1)
        hh = h
    else:
        st.pc += (r == r2, c == c2)
    spec = h
    if own == "mat":
        root, mr, mc, a0, view = this.root, r, c, W.arr_of(E.read(st, this)), None
    else:
        lv, mr, mc, a0, view = W.srcs[this.root]
        root = lv.root
    kd = "x" if own == "mat" else "m"
    ro = {this.root} if own != "mat" else set()
    if isinstance(x, LV) and not selfassign:
        ro |= {x.root} | ({W.srcs[x.root][0].root} if x.root in W.srcs else set())
    E.readonly = ro if "&&" not in P.tstr(f["fn"]["pt"][0]) else ({this.root} if own != "mat" else set())

    def cand(cx):
        out = []
        for rt in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(rt)
            if rt == root:
                a = W.arr_of(t)
                GI.array(a, [kd, kd])
                out += W.grid(cx, a, a0, r, c, spec, view)
        return out + W.counters(cx, r, c)
    W.cand_fn = cand
    for s, v in E.run_fn(st, f, this, [x]):
        ck.nonvacuous("assign", list(s.pc))
        m = E.rv(s, LV(root))
        E.oblige(s, z3.And(m.f["m_rows"] == mr, m.f["m_cols"] == mc), "shape kept", f["loc"], "post")
        a = W.arr_of(m)
        GI.array(a, [kd, kd])
        qi, qc = fresh("qi", I), fresh("qc", I)
        GI.BIND_SK.update({qi.decl().name(): kd, qc.decl().name(): kd})
        d = s.assume(qi >= 0, qi < mr, qc >= 0, qc < mc)
        if view is None:
            goal = sel(sel(a, qi), qc) == spec(qi, qc)
        else:
            rs, rt, cs, ct = view
            i, j = RINV(rs, rt, qi), RINV(cs, ct, qc)
            hit = z3.And(i >= 0, i < r, j >= 0, j < c, RMAP(rs, rt, i) == qi, RMAP(cs, ct, j) == qc)
            goal = sel(sel(a, qi), qc) == z3.If(hit, spec(i, j), sel(sel(a0, qi), qc))
        E.oblige(d, goal, "every named element, and nothing else, takes its new value", f["loc"], "post")
    ck.take(E, f["fn"]["n"])


def rebind(ck, P, f, own):
    """Assigning to a view that has no matrix makes it the same view."""
    W = Flat(ck, P)
    E, st = W.E, W.st
    src, lv, mr, mc, r, c, _ = W.fview(own, "src")
    z = z3.IntVal(0)
    o = E.read(st, src)
    sl = Obj("slp::Slice", {"start": z, "stop": z, "step": z3.IntVal(1)})
    this = E.alloc(st, Obj(VB, {"m_mat": Ptr(None), "m_row_slice": sl, "m_row_slice_length": z, "m_col_slice": sl, "m_col_slice_length": z}), "t")
    for s, v in E.run_fn(st, f, this, [src]):
        x = E.read(s, this).f
        ok = isinstance(x["m_mat"], Ptr) and same_lv(x["m_mat"].lv, lv)
        E.oblige(s, z3.BoolVal(ok), "the same matrix", f["loc"], "post")
        E.oblige(s, z3.And(x["m_row_slice_length"] == r, x["m_col_slice_length"] == c, *[x[a].f[b] == o.f[a].f[b] for a in ("m_row_slice", "m_col_slice") for b in ("start", "step")]), "the same positions", f["loc"], "post")
    ck.take(E, "operator=")


def toeigen(ck, P, f, own):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    this, r, c, g = W.make(own, "t")

    def cand(cx):
        out = []
        for root in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(root)
            if isinstance(t, Obj) and t.cls == "eig":
                a, a0 = W.arr_of(t), W.arr_of(cx.st0.mem[root])
                for x in (a, a0):
                    GI.array(x, ["x", "x"])
                out += W.grid(cx, a, a0, r, c, g)
        return out + W.counters(cx, r, c)
    W.cand_fn = cand
    E.readonly = {this.root} | {v[0].root for v in W.srcs.values()}
    for s, v in E.run_fn(st, f, this, []):
        m = E.rv(s, v)
        E.oblige(s, z3.And(m.f["rows"] == r, m.f["cols"] == c), "shape of the result", f["loc"], "post")
        a = W.arr_of(m)
        GI.array(a, ["x", "x"])
        qi, qc = fresh("qi", I), fresh("qc", I)
        GI.BIND_SK.update({qi.decl().name(): "x", qc.decl().name(): "x"})
        E.oblige(s.assume(qi >= 0, qi < r, qc >= 0, qc < c), sel(sel(a, qi), qc) == g(qi, qc), "every element's value", f["loc"], "post")
    ck.take(E, "value")
