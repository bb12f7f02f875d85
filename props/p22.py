"""P22: solver exit statuses (newton.hpp, sqp.hpp, interior_point.hpp, feasibility_restoration.hpp, kkt_error.hpp).

Vectors and matrices are values of an uninterpreted sort: copies and assignments are exact,
every numerical operation is an uninterpreted function of its operands.  Whatever the linear
algebra computes, the obligations below must hold.
"""
import re
import z3
from slpv.eng import *
from slpv import models as MD

HARNESS = "p22.cpp"
HSRC = ["optimization/solver/%s.cpp" % n for n in ("newton", "sqp", "interior_point")]
MIN_OBLIGATIONS = 300
V = z3.DeclareSort("V")
CBS = "f g H H_c c_e A_e c_i A_i".split()
INC = """
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>
#include <sleipnir/optimization/solver/interior_point.hpp>
"""
ARGS = "(const %sMatrixCallbacks<double>&, std::span<std::function<bool(const slp::IterationInfo<double>&)>>, const slp::Options&%s)"
D = "Eigen::VectorXd&"
SRC = INC + """
bool p22_probe(slp::KKTErrorType t) { return t == slp::KKTErrorType::ONE_NORM; }
template slp::ExitStatus slp::newton(const slp::NewtonMatrixCallbacks<double>&, std::span<std::function<bool(const slp::IterationInfo<double>&)>>, const slp::Options&, Eigen::VectorXd&);
template slp::ExitStatus slp::sqp(const slp::SQPMatrixCallbacks<double>&, std::span<std::function<bool(const slp::IterationInfo<double>&)>>, const slp::Options&, Eigen::VectorXd&);
template slp::ExitStatus slp::sqp(const slp::SQPMatrixCallbacks<double>&, std::span<std::function<bool(const slp::IterationInfo<double>&)>>, const slp::Options&, Eigen::VectorXd&, Eigen::VectorXd&);
template slp::ExitStatus slp::interior_point(const slp::InteriorPointMatrixCallbacks<double>&, std::span<std::function<bool(const slp::IterationInfo<double>&)>>, const slp::Options&, Eigen::VectorXd&);
"""
OPAQUE = re.compile(r"^(Eigen::|slp::(SolveProfiler|ScopedProfiler|Filter|FilterEntry|RegularizedLDLT)<?.*::|slp::(print_\w+|append_as_triplets|append_diagonal_as_triplets|"
                    r"is_equality_locally_infeasible|is_inequality_locally_infeasible|fraction_to_the_boundary_rule|kkt_error|unscaled_kkt_error|all_finite|"
                    r"lagrange_multiplier_estimate|compute_p_n)$|(gch::small_vector|std::vector)<(Eigen::Triplet|slp::SolveProfiler)|std::chrono::|std::operator[<>=]|std::__cmp_cat)")
ORECS = re.compile(r"^(const )?(Eigen::|slp::(SolveProfiler|ScopedProfiler|Filter|FilterEntry|RegularizedLDLT|SetupProfiler)\b|(gch::small_vector|std::vector)<(Eigen::Triplet|slp::SolveProfiler)|std::chrono::|std::(strong|weak|partial)_ordering|std::__cmp_cat)")
MUT = {"operator=", "operator+=", "operator-=", "operator*=", "operator/=", "setFromSortedTriplets", "setFromTriplets", "setOnes", "setZero", "setConstant", "resize", "operator<<", "operator,",
       "clear", "reserve", "emplace_back", "push_back", "reset", "try_add", "compute", "start", "stop"}
KEEP = re.compile(r"^cb_|kkt_error")
VIEWS = {"segment", "head", "tail", "topRows", "bottomRows", "operator[]", "operator()", "coeffRef", "block", "array", "noalias"}
MATH = {"log", "exp", "sqrt", "pow"}


MEMO = {}


def uf(name, args, sort):
    """Result of an uninterpreted operation.

    Evaluations of the user's functions and of the documented error stay function applications;
    every other result is a constant, the same one for the same operation on the same operands."""
    args = [a for a in args]
    if not KEEP.search(name):
        key = (name, tuple(a.get_id() for a in args), str(sort))
        if key not in MEMO:
            MEMO[key] = (fresh(name.split("::")[-1], sort), args)
        return MEMO[key][0]
    nm = name + "!" + ",".join(str(a.sort()) for a in args) + "!" + str(sort)
    return z3.Function(nm, *([a.sort() for a in args] + [sort]))(*args) if args else z3.Const(nm, sort)


def ext_uf(E, name, args):
    k = uf(name + ".k", args, I)
    return E.dom.mk(z3.If(z3.And(k >= 0, k <= 3), k, z3.IntVal(NAN)), uf(name + ".v", args, R))


def ext_of(E, st, name, args):
    """Extended-real result of an operation."""
    return st, ext_uf(E, name, args)


class Opaque:
    def __init__(self, ck, P):
        self.ck, self.P = ck, P
        E = self.E = ck.eng(P, ExtDom())
        self.closures = []
        self.inner = 0
        E.contracts.insert(0, (lambda fn: OPAQUE.search(fn["qn"]) is not None, self.op))
        E.contracts.insert(0, (lambda fn: re.search(r"^slp::(unscaled_)?kkt_error$", fn["qn"]) is not None, self.kkt))
        E.contracts.insert(0, (lambda fn: re.search(r"^std::function<.*>::operator\(\)$", fn["qn"]) is not None, self.fcall))
        E.contracts.insert(0, (lambda fn: re.search(r"^(gch::small_vector|std::vector)<std::function<", fn["qn"]) is not None, self.cblist))
        E.contracts.insert(0, (lambda fn: re.search(r"^std::span<std::function<bool", fn["qn"]) is not None and fn["n"] == "span", self.span))
        E.__dict__.setdefault("fresh_hooks", []).insert(0, lambda E_, ty, nm: fresh(nm, V) if ORECS.search(ty["s"]) else None)
        E.__dict__.setdefault("default_hooks", []).insert(0, lambda E_, st, ty: fresh("dflt", V) if ORECS.search(ty["s"]) else None)
        E.__dict__.setdefault("member_hooks", []).insert(0, self.member)
        E.loop_cands = self.cands
        E.dtor_classes = ()
        E.join = True
        self.spec = None

    # -------------------------------------------------------- values
    def flat(self, st, v):
        v = self.E.rv(st, v)
        if is_leaf(v):
            return [v]
        if isinstance(v, Obj):
            return [x for k in v.f for x in self.flat(st, v.f[k])]
        if isinstance(v, Seq):
            return [v.n] + ([x for _, x in leaves(v.d)] if v.d is not None else [])
        return []

    def result(self, st, name, args, t):
        P = self.P
        ty = P.ty(P.strip_ref(t))
        k = ty["k"]
        if k == "float":
            return ext_of(self.E, st, name, args)
        if k == "bool":
            return st, uf(name, args, B)
        if k in ("int", "enum"):
            r = uf(name, args, I)
            if name.endswith(("rows", "size", "cols", "nonZeros")):
                st = st.assume(r >= 0)
            return st, r
        if k == "void":
            return st, VOID
        if k == "rec" and re.search(r"^std::tuple<", ty["s"]):
            return st, Obj("tuple", {str(i): uf("%s#%d" % (name, i), args, V) for i in range(len(ty["targs"][0].get("pack", [])) or 2)})
        if k == "ptr":
            return st, Pure("ptr")
        if k == "rec" and ty["s"].startswith("slp::") and not ORECS.search(ty["s"]):
            fs = self.P.rec_of(P.strip_ref(t))["fields"]
            return st, Obj(ty["s"], {f["n"]: uf("%s.%s" % (name, f["n"]), args, V) for f in fs})
        return st, uf(name, args, V)

    def member(self, E, st, lv, e):
        """Data member of an opaque value."""
        v = E.rv(st, lv)
        if not (is_leaf(v) and v.sort() == V):
            return None
        ty = self.P.ty(self.P.strip_ref(e["t"]))
        nm = "member " + e["m"]

        def rd(s):
            o = E.rv(s, lv)
            return ext_uf(E, nm, [o]) if ty["k"] == "float" else uf(nm, [o], {"int": I, "bool": B}.get(ty["k"], V))

        def wr(s, x):
            o = E.rv(s, lv)
            E.write(s, lv, uf(nm + ":=", [o] + self.flat(s, x), V))
        return View(rd, wr) if isinstance(lv, (LV, View)) else rd(st)

    def name(self, fn):
        q = fn["qn"]
        q = re.sub(r"<.*>", "", q) if q.startswith("Eigen::") and "::operator" not in q else q.split("::")[-1] if "operator" in q else q
        q = q.split("::")[-1] if q.startswith("Eigen::") else q
        return q + ":" + ",".join(str(t.get("i")) for t in fn.get("targs", []) if "i" in t)

    def op(self, E, st, fn, obj, vals, e):
        n, P = fn["n"], self.P
        st = st.copy()
        cls = P.tstr(fn["cls"]) if fn.get("cls") is not None else ""
        ctor = obj is None and fn.get("cls") is not None and not fn.get("static") and n == re.sub(r"<.*", "", cls.split("<")[0].split("::")[-1])
        nm = self.name(fn)
        if e is None or "t" not in e:
            raise Unsupported("untyped call of " + fn["qn"])
        if ctor:
            args = [x for v in vals for x in self.flat(st, v)]
            if len(vals) == 1 and len(args) == 1 and args[0].sort() == V and cls.startswith("Eigen::"):
                return [(st, args[0])]          # conversion between representations of one value
            if not args:
                return [(st, fresh("new", V))]
            return [(st, uf("new " + cls.split("<")[0], args, V))]
        if n == "now":
            return [(st, fresh("now", V))]
        if obj is not None and n in MUT:
            old = E.rv(st, obj)
            if old is UNINIT:
                old = fresh("uninit", V)
            args = [x for v in vals for x in self.flat(st, v)]
            if n == "operator=":
                if len(args) != 1:
                    raise Unsupported("assignment " + fn["qn"])
                E.write(st, obj, args[0])
                return [(st, obj)]
            if n == "operator<<" or n == "operator,":
                if is_leaf(old) and old.sort() == V and isinstance(obj, (LV, View)):
                    E.write(st, obj, uf("comma", [old] + args, V))
                return [(st, obj)]
            ret = None
            if n in ("try_add", "emplace_back", "push_back"):
                st, ret = self.result(st, nm, [old] + args, e["t"])
            if not is_leaf(old):
                raise Unsupported("mutation of %r" % (old,))
            E.write(st, obj, uf(nm + "'", [old] + args, old.sort()))
            ty = P.ty(P.strip_ref(e["t"]))
            if ret is None:
                ret = VOID if ty["k"] == "void" else obj
            return [(st, ret)]
        if obj is not None and n in VIEWS:
            base = obj
            old = E.rv(st, base)
            args = [x for v in vals for x in self.flat(st, v)]
            if n in ("array", "noalias"):
                return [(st, obj)]
            isf = P.ty(P.strip_ref(e["t"]))["k"] == "float"

            def rd(s):
                o = E.rv(s, base)
                if isf:
                    return ext_uf(E, nm, [o] + args)
                return uf(nm, [o] + args, V)

            def wr(s, v):
                o = E.rv(s, base)
                E.write(s, base, uf(nm + ":=", [o] + args + self.flat(s, v), V))
            if isinstance(base, (LV, View)):
                return [(st, View(rd, wr))]
            return [(st, rd(st))]
        args = ([] if obj is None else self.flat(st, obj)) + [x for v in vals for x in self.flat(st, v)]
        st, r = self.result(st, nm, args, e["t"])
        if n == "lpNorm":
            # IEEE: the norm of a vector of finite numbers is finite or overflows, never NaN; norms are not negative
            i = [str(t["i"]) for t in fn.get("targs", []) if "i" in t]
            fin = uf("allFinite:", args, B)
            st = st.assume(z3.Implies(fin, r.f["k"] == FIN if i == ["-1"] else z3.Or(r.f["k"] == FIN, r.f["k"] == PINF)),
                           z3.Implies(r.f["k"] == FIN, r.f["v"] >= 0), r.f["k"] != NINF)
        if n.startswith("is_") and n.endswith("locally_infeasible"):
            st.ghost["infeasible"] = z3.Or(st.ghost["infeasible"], r)
        if n == "info":
            st.ghost["info"] = r
        if n in ("operator>", "operator<", "operator<=", "operator>=") and is_leaf(r) and r.sort() == B:
            st.ghost["clock"] = r
        return [(st, r)]

    def kkt(self, E, st, fn, obj, vals, e):
        """Contract of kkt_error / unscaled_kkt_error (proved below): never NaN, never negative."""
        args = [x for v in vals for x in self.flat(st, v)]
        st, r = ext_of(E, st, self.name(fn), args)
        if not self.one_norm(fn):
            st = st.assume(r.f["k"] != NAN)
        return [(st, r)]

    def one_norm(self, fn):
        one = [v for n, v in self.P.enums.items() if n.endswith("KKTErrorType")]
        i = [str(t["i"]) for t in fn.get("targs", []) if "i" in t]
        return str(int(one[0]["ONE_NORM"])) in i

    # -------------------------------------------------------- callbacks
    def fcall(self, E, st, fn, obj, vals, e):
        f = E.rv(st, obj)
        if isinstance(f, Clo):
            return E.call_clo(st, f, vals, e)
        if isinstance(f, Pure) and f.tag == "cb":
            args = [x for v in vals for x in self.flat(st, v)]
            if f.data == "f":
                st, r = ext_of(E, st, "cb_f", args)
                return [(st, r)]
            return [(st, uf("cb_" + f.data, args, V))]
        if is_leaf(f) and f.sort() == I:
            return self.user(E, st, vals)
        raise Unsupported("call of %r" % (f,))

    def user(self, E, st, vals):
        """A user iteration callback: any answer, never asked again after requesting a stop."""
        st = st.copy()
        info = E.rv(st, vals[0])
        E.oblige(st, z3.Not(st.ghost["stop"]), "no iteration callback runs after a requested stop", kind="call")
        if not self.inner:
            self.spec_info(E, st, info)
        r = fresh("stop", B)
        st.ghost["stop"] = r
        return [(st, r)]

    def spec_info(self, E, st, info):
        F = self.F
        it = E.rv(st, info.f["iteration"])
        E.oblige(st, z3.And(it >= 0, z3.Or(it < self.max_it, it == self.it0)), "callbacks see fewer iterations than the limit", kind="call")
        x = E.rv(st, self.roots["x"])
        for nm in ("x", "s", "y", "z"):
            if nm in self.roots:
                E.oblige(st, E.rv(st, info.f[nm]) == E.rv(st, self.roots[nm]), "callback receives the current %s" % nm, kind="call")
        for nm in ("g", "A_e", "A_i"):
            if nm in self.have:
                E.oblige(st, E.rv(st, info.f[nm]) == F(nm, x), "callback receives %s at the current point" % nm, kind="call")

    def cblist(self, E, st, fn, obj, vals, e):
        n = fn["n"]
        if n in ("emplace_back", "push_back"):
            v = E.rv(st, vals[0])
            if isinstance(v, Clo):
                if not any(isinstance(c, Clo) and c.fns == v.fns for c in self.closures):
                    self.closures.append(v)
                else:
                    self.closures = [v if isinstance(c, Clo) and c.fns == v.fns else c for c in self.closures]
            elif is_leaf(v):
                if not any(is_leaf(c) for c in self.closures):
                    self.closures.append(v)
            return [(st, VOID)]
        if obj is None:
            return [(st, Pure("cblist"))]
        if n in ("reserve", "clear"):
            return [(st, VOID)]
        raise Unsupported(fn["qn"])

    def span(self, E, st, fn, obj, vals, e):
        return [(st, E.rv(st, vals[0]))]

    def restoration(self, E, st, fn, obj, vals, e):
        """Contract of feasibility_restoration (its body is checked against it below).

        Runs any number of iterations (at least one, at most the limit), asking the given callbacks in
        order; SUCCESS exactly when one of them requested a stop."""
        ps = [v for v in vals]
        s0 = st.copy()
        new = it0 = lim = z3.IntVal(0)
        opt = [E.rv(s0, v) for v in ps if isinstance(E.rv(s0, v), Obj) and "max_iterations" in E.rv(s0, v).f][0]
        for v in ps:
            x = E.rv(s0, v)
            if isinstance(v, LV) and is_leaf(x) and v.root in self.inout:
                if x.sort() == V:
                    E.write(s0, v, fresh("restored", V))
                elif x.sort() == I:
                    new, it0, lim = fresh("it", I), x, opt.f["max_iterations"]
                    s0 = s0.assume(new >= x, z3.Or(new == x, new <= lim, new == x + 1))
                    E.write(s0, v, new)
        info = Obj("IterationInfo", {})
        rec = self.P.rec_named(r"^slp::IterationInfo<double>$")
        for f in rec[0]["fields"]:
            info.f[f["n"]] = fresh("info", I) if f["n"] == "iteration" else fresh("info", V)
        li = E.alloc(s0, info, "info")

        def ask(s, c):
            self.inner += 1
            try:
                return self.user(E, s, [li]) if is_leaf(c) else E.call_clo(s, c, [li])
            finally:
                self.inner -= 1
        outs = []
        cs = list(self.closures)
        # earlier iterations: nobody requests a stop
        pre = [s0]
        for c in cs:
            nxt = []
            for s in pre:
                nxt.append(s)
                for s2, r in ask(s, c):
                    s2 = s2.assume(z3.Not(E.as_bool(E.rv(s2, r))))
                    if E.feasible(s2):
                        nxt.append(s2)
            pre = nxt
        res = fresh("status", I)
        S = self.status
        for s in pre:
            outs.append((s.assume(z3.Or(res == S["LOCALLY_INFEASIBLE"], res == S["FEASIBILITY_RESTORATION_FAILED"])), res))
            for c in cs:
                for s2, r in ask(s, c):
                    # the callbacks are asked at the start of an iteration
                    s2 = s2.assume(E.as_bool(E.rv(s2, r)), res == S["SUCCESS"], z3.Or(new == it0, new < lim))
                    if E.feasible(s2):
                        outs.append((s2, res))
        for s, _ in outs:
            s.ghost["restoration"] = res
        return outs

    # -------------------------------------------------------- problem set-up
    def F(self, nm, *a):
        return uf("cb_" + nm, list(a), V)

    def callbacks(self, st, t):
        """The matrix callbacks argument."""
        P = self.P
        rec = P.rec_of(P.strip_ref(t))
        o = {}
        self.have = set()
        for f in rec["fields"]:
            n = f["n"]
            if P.ty(f["t"])["k"] == "int":
                o[n] = fresh(n, I)
                st.pc += (o[n] >= 0, o[n] < 2 ** 31)
            elif n == "scaling":
                o[n] = self.E.fresh_of(f["t"], n)
                st.pc += tuple(z3.And(v.f["k"] == FIN) for v in [o[n].f["f"]])
            else:
                o[n] = Pure("cb", n)
                self.have.add(n)
        return Obj(P.tstr(rec["t"]), o)

    def start(self, f, it=None):
        """Initial state and arguments of a solver function."""
        E, P = self.E, self.P
        st = State()
        for g in ("infeasible", "stop", "clock"):
            st.ghost[g] = z3.BoolVal(False)
        st.ghost["info"] = z3.IntVal(0)
        S = None
        for n, vals in P.enums.items():
            if n.endswith("ExitStatus"):
                S = {k: int(v) for k, v in vals.items()}
        self.status = S
        st.ghost["restoration"] = z3.IntVal(S["SUCCESS"])
        args = []
        self.roots = {}
        self.inout = set()
        vecs = 0
        for p in f["params"]:
            ty = P.ty(P.strip_ref(p["t"]))
            s = ty["s"]
            isref = P.ty(p["t"])["k"] == "lref"
            if "MatrixCallbacks" in s:
                self.mc = self.callbacks(st, p["t"])
                a = E.alloc(st, self.mc, "callbacks")
                self.mcl = a
            elif "std::span" in s:
                n = fresh("ncb", I)
                seq = E.alloc(st, Seq(n, fresh("cbs", z3.ArraySort(I, I)), "seq"), "usercbs")
                st.pc += (n >= 0, n < 2 ** 31)
                a = MD.mk_span(Iter(seq, z3.IntVal(0)), n)
            elif s.endswith("Options"):
                o = E.fresh_of(p["t"], "options")
                a = E.alloc(st, o, "options")
                self.max_it, self.tol = o.f["max_iterations"], o.f["tolerance"]
                st.pc += (self.tol.f["k"] >= 0, self.tol.f["k"] < NAN)
                self.opts = o
            elif ty["k"] == "bool":
                a = fresh(p["n"], B)
                self.in_fr = a
            elif ty["k"] == "int":
                v = fresh("iterations", I)
                st.pc += (v >= 0, v < 2 ** 31)
                a = E.alloc(st, v, "iterations")
                self.it0, self.itl = v, a
                self.inout.add(a.root)
            elif ty["k"] == "float":
                v = E.dom.leaf("mu")
                st.pc += (v.f["k"] == FIN,)
                a = E.alloc(st, v, "mu") if isref else v
            elif ORECS.search(s) and isref:
                nm = ["x", "s", "y", "z"][vecs] if sum(1 for q in f["params"] if ORECS.search(P.tstr(P.strip_ref(q["t"])))) > 2 else ["x", "y"][vecs]
                vecs += 1
                v = fresh(nm, V)
                a = E.alloc(st, v, nm)
                self.roots[nm] = a
                self.inout.add(a.root)
            else:
                raise Unsupported("parameter " + s)
            args.append(a)
        return st, args

    def error_at(self, E, st, ukkt):
        """The documented optimality error at the current point, from freshly evaluated quantities."""
        x = E.rv(st, self.roots["x"])
        g = lambda n: E.rv(st, self.roots[n])
        sc = self.flat(st, self.mc.f["scaling"])
        args = sc + [self.F("g", x)]
        if "A_e" in self.have:
            args += [self.F("A_e", x), self.F("c_e", x)]
        if "A_i" in self.have:
            args += [self.F("A_i", x), self.F("c_i", x), g("s")]
        if "y" in self.roots:
            args.append(g("y"))
        if "z" in self.roots:
            zero = E.dom.const("0")
            args += [g("z"), zero.f["k"], zero.f["v"]]
        nm = self.name(ukkt)
        return ext_uf(E, nm, args)

    def cands(self, c):
        """Which locals hold which evaluation of the current point; nothing refers to source names."""
        out = []
        E = self.E
        if not self.roots:
            return out
        xs = []
        seen = set()
        for root, v in c.sh.mem.items():
            if is_leaf(v) and v.sort() == V and root not in seen:
                seen.add(root)
                xs.append((root, v))
        ent = lambda root: c.st0.mem.get(root)
        for root, v in xs:
            if not c.modified_root(root):
                continue
            for cb in ("g", "c_e", "A_e", "c_i", "A_i"):
                if cb not in self.have:
                    continue
                for r2, w in xs:
                    e1, e2 = ent(root), ent(r2)
                    if e1 is None or e2 is None or not is_leaf(e1) or not is_leaf(e2):
                        continue
                    if not self.depends(e1, "cb_" + cb):
                        continue
                    out.append(("%s at a point" % cb, v == self.F(cb, w)))
        for root, v in c.sh.mem.items():
            if isinstance(v, Obj) and v.cls == "ext" and c.modified_root(root):
                e1 = c.st0.mem.get(root)
                if isinstance(e1, Obj):
                    if self.depends(e1.f["k"], "slp::unscaled_kkt_error"):
                        w = self.error_at(E, c.sh, self.ukkt)
                        out.append(("optimality error of the current point", z3.And(v.f["k"] == w.f["k"], v.f["v"] == w.f["v"])))
                    out.append(("kind", z3.And(v.f["k"] >= 0, v.f["k"] <= NAN)))
                    out.append(("not NaN", v.f["k"] != NAN))
        for v, e0 in c.scalars(I):
            if getattr(self, "it0", None) is not None:
                out.append(("iterations below the limit", z3.And(v >= self.it0, z3.Or(v == self.it0, v < self.max_it))))
        for m in c.mod:
            if m[0] == "#ghost" and m[1][0] in ("stop", "infeasible"):
                out.append(("nothing reported so far", z3.Not(c.leaf(c.sh, m))))
            elif m[0] != "#ghost" and c.leaf(c.sh, m).sort() == B:
                out.append(("flag clear", z3.Not(c.leaf(c.sh, m))))
        return out

    def depends(self, t, name):
        """Does an application of a function whose name starts so occur in t?"""
        memo = self.__dict__.setdefault("memo", {})
        todo = [t]
        while todo:
            x = todo[-1]
            k = (x.get_id(), name)
            if k in memo:
                todo.pop()
                continue
            if x.decl().name().startswith(name):
                memo[k] = (x, True)
                continue
            cs = x.children()
            rest = [c for c in cs if (c.get_id(), name) not in memo]
            if rest:
                todo += rest
            else:
                memo[k] = (x, any(memo[(c.get_id(), name)][1] for c in cs))
        return memo[(t.get_id(), name)][1]


def ukkt_of(P, f):
    """The unscaled_kkt_error overload used as the exit criterion of solver f."""
    n = {"newton": 2, "sqp": 5, "interior_point": 10}[f["fn"]["n"]]
    fs = [g for g in P.find(r"^slp::unscaled_kkt_error$", nparams=n) if g["fn"].get("targs")]
    one = [v for k, v in P.enums.items() if k.endswith("KKTErrorType")][0]
    inf = str(int(one["INF_NORM_SCALED"]))
    fs = [g for g in fs if any(str(t.get("i")) == inf for t in g["fn"]["targs"])]
    return fs[0]["fn"]


def solver(ck, P, f, nm):
    W = Opaque(ck, P)
    E = W.E
    W.it0 = None
    st, args = W.start(f)
    W.ukkt = ukkt_of(P, f)
    if W.it0 is None:
        W.it0 = z3.IntVal(0)
    E.contracts.insert(0, (lambda fn: re.search(r"^slp::feasibility_restoration$", fn["qn"]) is not None, W.restoration))
    S = W.status
    mc = W.mc.f
    x0 = {k: E.rv(st, v) for k, v in W.roots.items()}
    nv, ne = mc["num_decision_variables"], mc.get("num_equality_constraints", z3.IntVal(0))
    fin = []
    st, f0 = ext_of(E, st, "cb_f", [x0["x"]])
    finite_f = f0.f["k"] == FIN
    n = 0
    for s, r in E.run_fn(st, f, None, args):
        n += 1
        r = E.rv(s, r)
        loc = f["loc"]
        err = W.error_at(E, s, W.ukkt)
        ob = lambda g, t: E.oblige(s, g, nm + ": " + t, loc, "post")
        ob(z3.Implies(r == S["SUCCESS"], E.dom.cmp("<=", err, W.tol)), "success only when the optimality error at the returned point is within the tolerance")
        ob((r == S["CALLBACK_REQUESTED_STOP"]) == s.ghost["stop"], "a callback's stop, and only that, is reported as a requested stop")
        ob((r == S["TOO_FEW_DOFS"]) == (ne > nv), "more equality constraints than variables, and only that, is reported as too few degrees of freedom")
        ob(z3.Implies(z3.And(ne <= nv, z3.Not(finite_f)), r == S["NONFINITE_INITIAL_GUESS"]), "a starting point with non-finite cost is refused")
        ob(z3.Implies(r == S["LOCALLY_INFEASIBLE"], z3.Or(s.ghost["infeasible"], s.ghost["restoration"] == r)), "local infeasibility is reported only when established")
        ob(z3.Implies(s.ghost["infeasible"], r == S["LOCALLY_INFEASIBLE"]), "established local infeasibility is reported")
        ob(z3.Implies(r == S["FACTORIZATION_FAILED"], s.ghost["info"] != 0), "factorization failure is reported only when the factorization failed")
        ob(z3.Implies(r == S["TIMEOUT"], s.ghost["clock"]), "timeout is reported only when the clock says so")
        known = [S[k] for k in S if k not in ("GLOBALLY_INFEASIBLE",)]
        ob(z3.Or(*[r == k for k in known]), "the status is one the solver may report")
        if getattr(W, "itl", None) is not None:
            it = E.rv(s, W.itl)
            ob(z3.And(it >= W.it0, z3.Or(it <= W.max_it, it <= W.it0 + 1)), "no more than the requested number of iterations")
            ob(z3.Implies(r == S["MAX_ITERATIONS_EXCEEDED"], it >= W.max_it), "the iteration limit is reported only when reached")
        ck.nonvacuous(nm, [q for q in s.pc if not z3.is_quantifier(q)])
    ck.take(E, nm)


def inner_of(W, rec):
    """Contract of interior_point (proved above) as far as its callers rely on it: any status; records the call."""
    def h(E, st, fn, obj, vals, e):
        st = st.copy()
        r = fresh("inner", I)
        st = st.assume(z3.Or(*[r == v for k, v in W.status.items() if k != "GLOBALLY_INFEASIBLE"]))
        rec.append((len(rec), vals, r))
        st.ghost["inner"] = r
        st.ghost["calls"] = st.ghost["calls"] + 1
        for v in vals:
            if isinstance(v, LV):
                x = E.rv(st, v)
                if is_leaf(x) and x.sort() == V and v.root not in W.fixed:
                    E.write(st, v, fresh("inner", V))
        for t, ok in W.expect(st, vals):
            E.oblige(st, ok, t, kind="call")
        return [(st, r)]
    return h


def passes(W, args, st0):
    """The user's callbacks, options and iteration counter reach the inner solver unchanged."""
    E = W.E

    def expect(st, vals):
        out = []
        o0 = W.opts
        os_ = [E.rv(st, v) for v in vals if isinstance(E.rv(st, v), Obj) and "max_iterations" in E.rv(st, v).f]
        out.append(("the options reach the inner solver", z3.BoolVal(len(os_) == 1) if not os_ else z3.And(*[a == b for (_, a), (_, b) in zip(leaves(os_[0]), leaves(o0)) if not a.eq(b)] or [z3.BoolVal(True)])))
        sp = [a for a in args if isinstance(a, Obj) and not isinstance(a, LV)][0]
        got = [E.rv(st, v) for v in vals if isinstance(E.rv(st, v), Obj) and E.rv(st, v).f.keys() == sp.f.keys()]
        out.append(("the callbacks reach the inner solver", z3.BoolVal(len(got) == 1 and repr(got[0]) == repr(sp))))
        if W.itl is not None:
            its = [v for v in vals if isinstance(v, LV) and v.root == W.itl.root]
            out.append(("the iteration counter reaches the inner solver", z3.BoolVal(len(its) == 1)))
        return out
    return expect


def restored(ck, P, f, nm):
    W = Opaque(ck, P)
    E = W.E
    E.loop_cands = None
    W.itl = None
    st, args = W.start(f)
    st.ghost["inner"], st.ghost["calls"] = z3.IntVal(0), z3.IntVal(0)
    W.fixed = set()
    rec = []
    base = passes(W, args, st)

    def expect(s, vals):
        flags = [v for v in vals if is_leaf(v) and v.sort() == B]
        return base(s, vals) + [("the inner solver knows it is restoring feasibility", z3.And(*flags) if len(flags) == 1 else z3.BoolVal(False))]
    W.expect = expect
    E.contracts.insert(0, (lambda fn: re.search(r"^slp::interior_point$", fn["qn"]) is not None, inner_of(W, rec)))
    S = W.status
    it0 = E.rv(st, W.itl)
    for s, r in E.run_fn(st, f, None, args):
        r, i = E.rv(s, r), s.ghost["inner"]
        ob = lambda g, t: E.oblige(s, g, nm + ": " + t, f["loc"], "post")
        ob(s.ghost["calls"] == 1, "one inner solve")
        ob((r == S["SUCCESS"]) == (i == S["CALLBACK_REQUESTED_STOP"]), "succeeds exactly when a callback stopped the inner solve")
        ob((r == S["LOCALLY_INFEASIBLE"]) == (i == S["SUCCESS"]), "a minimiser of the violation that no callback accepted means local infeasibility")
        ob(z3.Or(*[r == S[k] for k in ("SUCCESS", "LOCALLY_INFEASIBLE", "FEASIBILITY_RESTORATION_FAILED")]), "no other status")
        ob(E.rv(s, W.itl) == it0, "the iteration counter is changed by the inner solver only")
        ck.nonvacuous(nm, [q for q in s.pc if not z3.is_quantifier(q)])
    ck.take(E, nm)


def wrapper(ck, P, f, nm):
    W = Opaque(ck, P)
    E = W.E
    E.loop_cands = None
    W.itl = None
    st, args = W.start(f)
    st.ghost["inner"], st.ghost["calls"] = z3.IntVal(0), z3.IntVal(0)
    W.fixed = set()
    rec = []
    base = passes(W, args, st)

    def expect(s, vals):
        out = base(s, vals)
        flags = [v for v in vals if is_leaf(v) and v.sort() == B]
        if flags:
            out.append(("not restoring feasibility", z3.Not(flags[0])))
        out.append(("the caller's x is solved for", z3.BoolVal(any(isinstance(v, LV) and v.root == W.roots["x"].root for v in vals))))
        out.append(("the caller's functions are used", z3.BoolVal(any(isinstance(v, LV) and v.root == W.mcl.root for v in vals))))
        for v in vals:
            if isinstance(v, LV) and is_leaf(E.rv(s, v)) and E.rv(s, v).sort() == I:
                out.append(("the iteration counter starts at zero", E.rv(s, v) == 0))
        return out
    W.expect = expect
    E.contracts.insert(0, (lambda fn: fn["qn"] == f["fn"]["qn"], inner_of(W, rec)))
    for s, r in E.run_fn(st, f, None, args):
        r = E.rv(s, r)
        E.oblige(s, z3.And(r == s.ghost["inner"], s.ghost["calls"] == 1), nm + ": reports the status of the one solve it starts", f["loc"], "post")
        ck.nonvacuous(nm, [q for q in s.pc if not z3.is_quantifier(q)])
    ck.take(E, nm)


def never_nan(ck, P, f, nm):
    """The contract of kkt_error / unscaled_kkt_error the solvers rely on."""
    W = Opaque(ck, P)
    E = W.E
    E.loop_cands = None
    E.join = False
    st = State()
    for g in ("infeasible", "stop", "clock"):
        st.ghost[g] = z3.BoolVal(False)
    st.ghost["info"] = z3.IntVal(0)
    args = []
    for p in f["params"]:
        ty = P.ty(P.strip_ref(p["t"]))
        v = fresh(p["n"], V) if ORECS.search(ty["s"]) else E.fresh_of(p["t"], p["n"])
        args.append(E.alloc(st, v, p["n"]) if P.ty(p["t"])["k"] == "lref" else v)
    for s, r in E.run_fn(st, f, None, args):
        r = E.rv(s, r)
        E.oblige(s, r.f["k"] != NAN, nm + ": never NaN", f["loc"], "post")
        ck.nonvacuous(nm, [q for q in s.pc if not z3.is_quantifier(q)])
    ck.take(E, nm)


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    one = [str(int(v["ONE_NORM"])) for k, v in P.enums.items() if k.endswith("KKTErrorType")][0]
    for f in P.find(r"^slp::(unscaled_)?kkt_error$"):
        if f["fn"].get("targs") and not any(str(t.get("i")) == one for t in f["fn"]["targs"]):
            nm = "%s(%d)" % (f["fn"]["n"], len(f["params"]))
            jobs.append((nm, never_nan, P, f, nm))
    for f in P.find(r"^slp::feasibility_restoration$"):
        nm = "feasibility_restoration(%s)" % P.tstr(P.strip_ref(f["params"][0]["t"])).replace("const ", "").split("::")[-1].split("Matrix")[0]
        jobs.append((nm, restored, P, f, nm))
    for n in ("sqp", "interior_point"):
        f = P.one(r"^slp::%s$" % n, nparams=4)
        jobs.append((n + "(x)", wrapper, P, f, n + "(x)"))
    for n, k in (("newton", 4), ("sqp", 5), ("interior_point", 10)):
        f = P.one(r"^slp::%s$" % n, nparams=k)
        jobs.append((n, solver, P, f, n))
    ck.par(jobs)
