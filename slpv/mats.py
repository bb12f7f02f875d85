"""Matrices of variables, element by element: the contracts of VariableMatrix, VariableBlock, Variable, Eigen
matrices and function_ref that P11 (and the loops of P10) reason with.

A matrix is its shape and a map (row, column) -> value; the value stands for the denotation of the element
under one arbitrary, fixed assignment of the variables.  Element (r, c) of a view is element (RMAP(r), RMAP(c))
of its matrix; RMAP is injective (a step is never zero) and stays inside (P10 proves both).
"""
import re
import z3
from .eng import *
from . import ginst as GI

VT = "slp::Variable<double>"
VM = "slp::VariableMatrix<double>"
VB = "slp::VariableBlock<slp::VariableMatrix<double>>"
VC = "slp::VariableBlock<const slp::VariableMatrix<double>>"
AR = z3.ArraySort(I, R)
AAR = z3.ArraySort(I, AR)
RMAP = z3.Function("view_index", I, I, I, I)     # start, step, position -> index in the matrix
RINV = z3.Function("view_position", I, I, I, I)  # start, step, index -> position
UN = z3.Function("unary_op", R, R)
BI = z3.Function("binary_op", R, R, R)
sel = z3.Select


def FA(vs, body):
    return z3.ForAll(vs, body)


class Mats:
    def __init__(self, ck, P, under=None):
        self.ck, self.P, self.under = ck, P, under
        E = self.E = ck.eng(P)
        E.ground_bounds = True
        self.st = State()
        GI.BINDER.update({"i!": "x", "c!": "x", "p!": "x", "q!": "x", "u!": "m", "w!": "m"})
        GI.register(RMAP.name(), [None, None, "x"], "m")
        GI.register(RINV.name(), [None, None, "m"], "x")
        a, b, i = fresh("a", I), fresh("b", I), fresh("i", I)
        self.facts = []
        self.srcs = {}
        C = E.contracts
        C.insert(0, (self.is_var, self.h_var))
        C.insert(0, (self.is_mat, self.h_mat))
        C.insert(0, (lambda fn: fn["qn"].startswith("Eigen::"), self.h_eig))
        C.insert(0, (lambda fn: fn["qn"].startswith("slp::function_ref<"), self.h_fref))
        E.__dict__.setdefault("fresh_hooks", []).insert(0, lambda E_, ty, name: Obj(VT, {"v": fresh(name, R)}) if ty["s"] == VT else None)
        E.__dict__.setdefault("default_hooks", []).insert(0, lambda E_, s, ty: Obj(VT, {"v": z3.RealVal(0)}) if ty["s"] == VT else None)
        E.__dict__.setdefault("make_hooks", []).insert(0, self.mk_var)
        self.cand_fn = None
        E.loop_cands = lambda c: self.cand_fn(c) if self.cand_fn else []



    # ---- values
    def el(self, a, rows, cols):
        return Seq(rows, Seq(z3.K(I, cols), Obj(VT, {"v": a}), "seq"), "seq")

    def arr(self, name, k="x"):
        """An element map; k "m" for the matrix under a view, whose indices are not positions."""
        a = fresh(name, AAR)
        GI.array(a, [k, k])
        return a

    def mat(self, rows, cols, a):
        return Obj(VM, {"m_rows": rows, "m_cols": cols, "el": self.el(a, rows, cols)})

    def eig(self, rows, cols, a):
        return Obj("eig", {"rows": rows, "cols": cols, "el": Seq(rows, Seq(z3.K(I, cols), a, "seq"), "seq")})

    def view(self, lv, rows, cols, cls, rs, rt, cs, ct):
        sl = lambda a, b: Obj("slp::Slice", {"start": a, "stop": fresh("stop", I), "step": b})
        return Obj(cls, {"m_mat": Ptr(lv), "m_row_slice": sl(rs, rt), "m_row_slice_length": rows, "m_col_slice": sl(cs, ct), "m_col_slice_length": cols})

    def arr_of(self, o):
        d = o.f["el"].d.d
        return d.f["v"] if isinstance(d, Obj) else d

    def make(self, kind, name):
        """A symbolic operand: (value or lvalue, rows, cols, element function)."""
        st = self.st
        if kind == "scalar":
            x = fresh(name, R)
            return x, None, None, lambda p, q: x
        if kind == "var":
            x = fresh(name, R)
            return Obj(VT, {"v": x}), None, None, lambda p, q: x
        r, c = fresh(name + ".rows", I), fresh(name + ".cols", I)
        st.pc += (r >= 0, c >= 0)
        a = self.arr(name, "x" if kind in ("mat", "eig") else "m")
        if kind == "mat":
            return E_alloc(self, self.mat(r, c, a), name), r, c, lambda p, q: sel(sel(a, p), q)
        if kind == "eig":
            return E_alloc(self, self.eig(r, c, a), name), r, c, lambda p, q: sel(sel(a, p), q)
        # a view of another matrix
        mr, mc = fresh(name + ".mrows", I), fresh(name + ".mcols", I)
        lv = E_alloc(self, self.mat(mr, mc, a), name + ".m")
        rs, rt, cs, ct = [fresh(name + "." + n, I) for n in ("rs", "rt", "cs", "ct")]
        st.pc += self.view_facts(rs, rt, r, mr) + self.view_facts(cs, ct, c, mc)
        v = self.view(lv, r, c, VB if kind == "blk" else VC, rs, rt, cs, ct)
        w = E_alloc(self, v, name)
        self.srcs[w.root] = (lv, mr, mc, a, (rs, rt, cs, ct))
        return w, r, c, lambda p, q: sel(sel(a, RMAP(rs, rt, p)), RMAP(cs, ct, q))

    def view_facts(self, s, t, n, size):
        i = fresh("i", I)
        x = RMAP(s, t, i)
        return (n >= 0, size >= 0, FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x >= 0, x < size, RINV(s, t, x) == i))))

    def unit(self, s):
        """Facts of a step-one view starting at s."""
        i = fresh("i", I)
        return FA([i], z3.And(RMAP(s, 1, i) == s + i, RINV(s, 1, i) == i - s))

    # ---- predicates
    def ptypes(self, fn):
        return [self.P.tstr(self.P.strip_ref(t)).replace("const ", "") for t in fn["pt"]]

    def is_var(self, fn):
        if fn["qn"].startswith(VT + "::"):
            return True
        return bool(re.match(r"^slp::operator[-+*/]$", fn["qn"])) and all(t in (VT, "double", "int") for t in self.ptypes(fn))

    def is_mat(self, fn):
        q = fn["qn"]
        if self.under is not None and fn["id"] == self.under["fn"]["id"]:
            return False
        if q.startswith(VM + "::iterator") or q.startswith(VM + "::const_iterator"):
            return False
        if any(q.startswith(c + "::") for c in (VM, VB, VC)):
            n = fn["n"]
            return n not in ("rows", "cols")
        return bool(re.match(r"^slp::operator[-+*/]$", q)) and not self.is_var(fn)

    # ---- handlers
    def num(self, s, v):
        x = self.E.rv(s, v)
        if isinstance(x, Obj) and x.cls == VT:
            return x.f["v"]
        if isinstance(x, Obj) and x.cls == VM:
            raise Unsupported("matrix used as a scalar")
        if is_leaf(x) and x.sort() == I:
            return z3.ToReal(x)
        if is_leaf(x):
            return x
        raise Unsupported("scalar operand %r" % (x,))

    def h_var(self, E, s, fn, o, v, e):
        n = fn["n"]
        V = lambda x: Obj(VT, {"v": x})
        if n == "Variable":
            if not v:
                return [(s, V(z3.RealVal(0)))]
            x = E.rv(s, v[0])
            if x is NULLV or isinstance(x, Ptr):
                return [(s, V(fresh("null", R)))]
            if isinstance(x, Obj) and x.cls in (VB, VC, VM):
                raise Unsupported("Variable from a matrix")
            return [(s, V(self.num(s, v[0])))]
        if n in ("operator=", "set_value"):
            E.write(s, o, V(self.num(s, v[0])))
            return [(s, o if n == "operator=" else VOID)]
        if n == "value":
            return [(s, self.num(s, o))]
        m = re.match(r"^operator([-+*/])=$", n)
        if m:
            E.write(s, o, V(self.ar(s, m.group(1), self.num(s, o), self.num(s, v[0]))))
            return [(s, o)]
        m = re.match(r"^operator([-+*/])$", n)
        if m:
            a = ([o] if o is not None else []) + list(v)
            x = [self.num(s, y) for y in a]
            if len(x) == 1:
                return [(s, V(-x[0] if m.group(1) == "-" else x[0]))]
            return [(s, V(self.ar(s, m.group(1), *x)))]
        if n == "~Variable":
            return [(s, VOID)]
        raise Unsupported(fn["qn"])

    def mk_var(self, E, st, ty, vals, exprs):
        """Construction of an element in place (emplace_back)."""
        if ty["s"] != VT:
            return None
        return [(st, Obj(VT, {"v": z3.RealVal(0)}))] if not vals else self.h_var(E, st, {"n": "Variable", "qn": VT + "::Variable"}, None, vals, None)

    def ar(self, s, op, a, b):
        if op in "*/":
            x, y = a, b if op == "*" else INVF(b)
            if Stats.scale == 1:
                s.pc += (TIMES(x, y) == TIMES(y, x),)
            return MUL(x, y)
        return a + b if op == "+" else a - b

    def lv(self, s, o):
        return o if isinstance(o, LV) else self.E.alloc(s, self.E.rv(s, o), "tmp")

    def elem(self, s, o, r, c, note="element within the matrix"):
        """lvalue of element (r, c) of a matrix or view."""
        E = self.E
        x = E.rv(s, o)
        if not isinstance(x, Obj):
            raise Unsupported("element of %r" % (x,))
        if x.cls == VM:
            E.oblige(s, z3.And(r >= 0, r < x.f["m_rows"], c >= 0, c < x.f["m_cols"]), note, kind="bounds")
            return self.lv(s, o).fld("el").at(r).at(c)
        if x.cls == "eig":
            E.oblige(s, z3.And(r >= 0, r < x.f["rows"], c >= 0, c < x.f["cols"]), note, kind="bounds")
            return self.lv(s, o).fld("el").at(r).at(c)
        if x.cls in (VB, VC):
            E.oblige(s, z3.And(r >= 0, r < x.f["m_row_slice_length"], c >= 0, c < x.f["m_col_slice_length"]), note, kind="bounds")
            p, q = RMAP(x.f["m_row_slice"].f["start"], x.f["m_row_slice"].f["step"], r), RMAP(x.f["m_col_slice"].f["start"], x.f["m_col_slice"].f["step"], c)
            return x.f["m_mat"].lv.fld("el").at(p).at(q)
        raise Unsupported("element of %s" % x.cls)

    def shape(self, s, o):
        x = self.E.rv(s, o)
        if x.cls == VM:
            return x.f["m_rows"], x.f["m_cols"]
        if x.cls == "eig":
            return x.f["rows"], x.f["cols"]
        return x.f["m_row_slice_length"], x.f["m_col_slice_length"]

    def reader(self, s, o):
        """(p, q) -> element value of a matrix operand in state s."""
        x = self.E.rv(s, o)
        if x.cls in (VM, "eig"):
            a = self.arr_of(x)
            return lambda p, q: sel(sel(a, p), q)
        a = self.arr_of(self.E.read(s, x.f["m_mat"].lv))
        rs, cs = x.f["m_row_slice"].f, x.f["m_col_slice"].f
        return lambda p, q: sel(sel(a, RMAP(rs["start"], rs["step"], p)), RMAP(cs["start"], cs["step"], q))

    def result(self, s, rows, cols, f, what="result"):
        a = self.arr(what)
        p, q = fresh("p", I), fresh("q", I)
        s = s.assume(FA([p, q], z3.Implies(z3.And(p >= 0, p < rows, q >= 0, q < cols), sel(sel(a, p), q) == f(p, q))))
        return s, self.mat(rows, cols, a)

    def is_m(self, s, v):
        x = self.E.rv(s, v)
        return isinstance(x, Obj) and x.cls in (VM, VB, VC, "eig")

    def h_mat(self, E, s, fn, o, v, e):
        n, q = fn["n"], fn["qn"]
        if n == "VariableMatrix" and q.startswith(VM):
            if not v:
                return [(s, self.mat(z3.IntVal(0), z3.IntVal(0), self.arr("none")))]
            pt = self.ptypes(fn)
            if "empty_t" in pt[0]:
                r, c = E.rv(s, v[1]), E.rv(s, v[2])
                return [(s, self.mat(r, c, self.arr("new")))]
            x = E.rv(s, v[0])
            if isinstance(x, Obj) and x.cls == VM:
                return [(s, x)]
            if isinstance(x, Obj) and x.cls in (VB, VC, "eig") and len(v) == 1:
                r, c = self.shape(s, v[0])
                s, m = self.result(s, r, c, self.reader(s, v[0]), "copy")
                return [(s, m)]
            if len(v) == 1 and pt[0] == VT:
                x = self.num(s, v[0])
                s, m = self.result(s, z3.IntVal(1), z3.IntVal(1), lambda p, q: x)
                return [(s, m)]
            raise Unsupported("VariableMatrix(%s)" % ", ".join(pt))
        if n == "VariableBlock":
            x = E.rv(s, v[0])
            if len(v) == 1 and isinstance(x, Obj) and x.cls in (VB, VC):
                return [(s, x)]
        if n == "operator[]" and len(v) == 2 and all(t == "int" for t in self.ptypes(fn)):
            r, c = E.rv(s, v[0]), E.rv(s, v[1])
            return [(s, self.elem(s, o, r, c))]
        if n == "operator[]" and len(v) == 1:
            i = E.rv(s, v[0])
            rows, cols = self.shape(s, o)
            d, m = fresh("div", I), fresh("mod", I)
            s = s.assume(z3.Implies(z3.And(i >= 0, i < cols), z3.And(d == 0, m == i)), z3.Implies(z3.And(cols == 1, i >= 0), z3.And(d == i, m == 0)),
                         z3.Implies(z3.And(i >= 0, cols > 0), z3.And(d * cols + m == i, m >= 0, m < cols, d >= 0)))
            return [(s, self.elem(s, o, d, m))]
        if n == "block" and o is not None and len(v) == 4:
            ro, co, r, c = [E.rv(s, x) for x in v]
            x = E.rv(s, o)
            rows, cols = self.shape(s, o)
            E.oblige(s, z3.And(ro >= 0, co >= 0, r >= 0, c >= 0, ro + r <= rows, co + c <= cols), "block within the matrix", kind="bounds")
            if x.cls == VM:
                s = s.assume(self.unit(ro), self.unit(co))
                one = z3.IntVal(1)
                return [(s, self.view(self.lv(s, o), r, c, VB, ro, one, co, one))]
        if n in ("row", "col") and len(v) == 1:
            i = E.rv(s, v[0])
            x = E.rv(s, o)
            if x.cls == VM:
                rows, cols = self.shape(s, o)
                E.oblige(s, z3.And(i >= 0, i < (rows if n == "row" else cols)), "row within the matrix", kind="bounds")
                z, one = z3.IntVal(0), z3.IntVal(1)
                s = s.assume(self.unit(i), self.unit(z))
                return [(s, self.view(self.lv(s, o), one, cols, VB, i, one, z, one) if n == "row" else self.view(self.lv(s, o), rows, one, VB, z, one, i, one))]
        if n == "operator=" and len(v) == 1:
            x, y = E.rv(s, o), E.rv(s, v[0])
            if isinstance(y, Obj) and y.cls == VM and x.cls == VM:
                E.write(s, o, y)
                return [(s, o)]
            if self.is_m(s, v[0]) and x.cls in (VB, VM):
                return self.assign(s, o, v[0])
        m = re.match(r"^operator([-+*/])$", n)
        if m and re.match(r"^slp::operator[-+*/]$", q):
            return self.binop(s, m.group(1), v)
        if n == "T" and o is not None:
            r, c = self.shape(s, o)
            f = self.reader(s, o)
            s, mm = self.result(s, c, r, lambda p, q: f(q, p))
            return [(s, mm)]
        if n == "value" and len(v) == 2:
            return [(s, self.num(s, self.elem(s, o, E.rv(s, v[0]), E.rv(s, v[1]))))]
        if n == "operator Variable" or fn.get("conv"):
            return [(s, Obj(VT, {"v": self.num(s, self.elem(s, o, z3.IntVal(0), z3.IntVal(0)))}))]
        if fn["id"] in self.P.funcs and (n.startswith("operator") or n in ("begin", "end", "size", "value")):
            return E.invoke(s, fn, o, v, e)
        if fn.get("copyassign") or fn.get("moveassign"):
            return E.invoke(s, fn, o, v, e)
        raise Unsupported("contract of %s(%s)" % (q, ", ".join(self.ptypes(fn))))

    def assign(self, s, o, src):
        """Element-wise assignment to a matrix or view (proved by P10)."""
        E = self.E
        x = E.rv(s, o)
        r, c = self.shape(s, o)
        r2, c2 = self.shape(s, src)
        E.oblige(s, z3.And(r == r2, c == c2), "assigned shapes agree", kind="pre")
        f = self.reader(s, src)
        if x.cls == VM:
            s, m = self.result(s, r, c, f)
            E.write(s, o, m)
            return [(s, o)]
        lv = x.f["m_mat"].lv
        m = E.read(s, lv)
        a0, a1 = self.arr_of(m), self.arr("assigned", "m")
        p, q = fresh("u", I), fresh("w", I)
        rs, cs = x.f["m_row_slice"].f, x.f["m_col_slice"].f
        i, j = RINV(rs["start"], rs["step"], p), RINV(cs["start"], cs["step"], q)
        hit = z3.And(i >= 0, i < r, j >= 0, j < c, RMAP(rs["start"], rs["step"], i) == p, RMAP(cs["start"], cs["step"], j) == q)
        s = s.assume(FA([p, q], sel(sel(a1, p), q) == z3.If(hit, f(i, j), sel(sel(a0, p), q))))
        E.write(s, lv, self.mat(m.f["m_rows"], m.f["m_cols"], a1))
        return [(s, o)]

    def binop(self, s, op, v):
        E = self.E
        if len(v) == 1:
            f = self.reader(s, v[0])
            s, m = self.result(s, *self.shape(s, v[0]), lambda p, q: -f(p, q))
            return [(s, m)]
        l, r = v
        lm, rm = self.is_m(s, l), self.is_m(s, r)
        if lm and rm:
            (lr, lc), (rr, rc) = self.shape(s, l), self.shape(s, r)
            f, g = self.reader(s, l), self.reader(s, r)
            if op in "+-":
                E.oblige(s, z3.And(lr == rr, lc == rc), "shapes agree", kind="pre")
                s, m = self.result(s, lr, lc, lambda p, q: f(p, q) + g(p, q) if op == "+" else f(p, q) - g(p, q))
                return [(s, m)]
            if op == "*":
                E.oblige(s, lc == rr, "inner dimensions agree", kind="pre")
                s, PS = self.psum(s, f, g, lr, lc, rc)
                s, m = self.result(s, lr, rc, lambda p, q: PS(p, q, lc))
                return [(s, m)]
            raise Unsupported("matrix / matrix")
        mv, x = (l, self.num(s, r)) if lm else (r, self.num(s, l))
        f = self.reader(s, mv)
        if op == "*":
            s, m = self.result(s, *self.shape(s, mv), lambda p, q: MUL(f(p, q), x))
            return [(s, m)]
        if op == "/" and lm:
            s, m = self.result(s, *self.shape(s, mv), lambda p, q: MUL(f(p, q), INVF(x)))
            return [(s, m)]
        raise Unsupported("operator%s" % op)

    def psum(self, s, f, g, rows, inner, cols):
        """Partial sums PS(i, j, k) = sum over the first k products of row i and column j (shared by equal operands)."""
        p, q, k = fresh("p", I), fresh("q", I), fresh("i", I)
        key = (f(p, q).sexpr(), g(p, q).sexpr())
        i0, j0, k0 = z3.Int("i!ps"), z3.Int("c!ps"), z3.Int("p!ps")
        key = (f(i0, k0).sexpr(), g(k0, j0).sexpr())
        memo = self.__dict__.setdefault("memo", {})
        if key not in memo:
            PS = z3.Function("partial_sum!%d" % len(memo), I, I, I, R)
            GI.register(PS.name(), ["x", "x", "x"])
            i, j = fresh("i", I), fresh("c", I)
            memo[key] = (PS, (FA([i, j], PS(i, j, 0) == 0), FA([i, j, k], z3.Implies(k >= 0, PS(i, j, k + 1) == PS(i, j, k) + MUL(f(i, k), g(k, j))))))
        PS, ax = memo[key]
        return s.assume(*ax), PS

    def h_eig(self, E, s, fn, o, v, e):
        n = fn["n"]
        if o is not None:
            x = E.rv(s, o)
            if isinstance(x, Obj) and x.cls == "eig":
                if n in ("rows", "cols"):
                    return [(s, x.f[n])]
                if n in ("operator[]", "operator()", "coeff", "coeffRef") and len(v) == 2:
                    return [(s, self.elem(s, o, E.rv(s, v[0]), E.rv(s, v[1])))]
                if n in ("derived", "const_cast_derived"):
                    return [(s, o)]
                if n == "diagonal" and "diag" in x.f:
                    return [(s, x.f["diag"])]
            if isinstance(x, Obj) and x.cls == "diag" and n in ("operator[]", "operator()", "coeff") and len(v) == 1:
                i = E.rv(s, v[0])
                E.oblige(s, z3.And(i >= 0, i < x.f["n"]), "element within the diagonal", kind="bounds")
                return [(s, sel(x.f["a"], i))]
        if n == "Matrix" and len(v) == 2:
            r, c = E.rv(s, v[0]), E.rv(s, v[1])
            ty = self.P.tstr(fn["cls"])
            if "Variable" in ty:
                return [(s, Obj("eig", {"rows": r, "cols": c, "el": self.el(self.arr("enew"), r, c)}))]
            return [(s, self.eig(r, c, self.arr("enew")))]
        if n == "Matrix" and len(v) == 1:
            return [(s, E.rv(s, v[0]))]
        raise Unsupported(fn["qn"])

    def h_fref(self, E, s, fn, o, v, e):
        if fn["n"] == "operator()":
            x = [self.num(s, y) for y in v]
            return [(s, Obj(VT, {"v": UN(*x) if len(x) == 1 else BI(*x)}))]
        if fn["n"] == "function_ref":
            return [(s, E.rv(s, v[0]))]
        raise Unsupported(fn["qn"])

    # ---- loop invariants of an element-wise loop nest writing array a (entry value a0)
    def done(self, cx, i, j, m, n):
        """Alternative descriptions of the elements finished when the counters stand at k:0, k:1."""
        k0, k1 = cx.sh.ghost.get("k:0"), cx.sh.ghost.get("k:1")
        if k1 is None:
            return [("rows so far", i < k0), ("columns so far", j < k0)]
        return [("rows so far", z3.Or(i < k0, z3.And(i == k0, j < k1))), ("columns so far", z3.Or(j < k0, z3.And(j == k0, i < k1)))]

    def grid(self, cx, a, a0, rows, cols, spec, view=None):
        p, q = (fresh("p", I), fresh("q", I)) if view is None else (fresh("u", I), fresh("w", I))
        if view is None:
            i, j, hit = p, q, z3.And(p >= 0, p < rows, q >= 0, q < cols)
        else:
            rs, rt, cs, ct = view
            i, j = RINV(rs, rt, p), RINV(cs, ct, q)
            hit = z3.And(i >= 0, i < rows, j >= 0, j < cols, RMAP(rs, rt, i) == p, RMAP(cs, ct, j) == q)
        out = []
        for nm, d in self.done(cx, i, j, rows, cols):
            x = sel(sel(a, p), q)
            out.append((nm, FA([p, q], z3.Implies(z3.And(hit, d), x == spec(i, j)))))
            out.append((nm + " only", FA([p, q], z3.Implies(z3.Not(z3.And(hit, d)), x == sel(sel(a0, p), q)))))
        return out

    def counters(self, cx, rows, cols, inner=None):
        k = [cx.sh.ghost.get("k:%d" % d) for d in range(3)]
        out = []
        for d, n in ((0, rows), (0, cols), (1, cols), (1, rows)) + (((2, inner),) if inner is not None else ()):
            if k[d] is not None:
                out += [("count", k[d] <= n), ("count", k[d] < n)]
        return out


TIMES = z3.Function("times", R, R, R)


def MUL(a, b):
    """A product; on the first attempt an uninterpreted (symmetric) operation, exact when a proof needs more."""
    if Stats.scale > 1 or not (is_leaf(a) and is_leaf(b)):
        return a * b
    return TIMES(a, b)
INVF = INV
NULLV = object()


def E_alloc(w, v, n):
    return w.E.alloc(w.st, v, n)
