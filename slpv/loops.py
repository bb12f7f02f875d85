"""Loops: cut by inductive invariants found among candidate templates (Houdini).

Nothing here is bounded: the loop body is executed once from an arbitrary state
satisfying the invariants.  Which locations a loop modifies is found semantically
(by executing the body), so renaming, helper extraction or a different loop form
does not matter.
"""
import os
import z3
from .eng import *


DBG = os.environ.get("SLPV_INV")


def _explain(eng, what, pc, goal):
    s = z3.Solver()
    s.set("timeout", 8000)
    s.add(*pc, *eng.axioms, z3.Not(goal))
    r = s.check()
    print("INV %s: %s %s" % (what, r, s.reason_unknown() if r == z3.unknown else ""))
    if os.environ.get("SLPV_INVD"):
        open(os.environ["SLPV_INVD"] + what.replace(" ", "_").replace("?", "") + ".%d.smt2" % len(os.listdir("/tmp/inv")), "w").write(s.to_smt2())
    if os.environ.get("SLPV_INVX"):
        print(z3.simplify(goal))
        if r == z3.sat:
            print(s.model())


class Ctx:
    """What candidate generators see."""

    def __init__(self, eng, st0, sh, k, mod, node):
        self.eng, self.st0, self.sh, self.k, self.mod, self.node = eng, st0, sh, k, mod, node
        self.depth = 0

    def leaf(self, st, rp):
        return get_leaf(st.mem[rp[0]], rp[1]) if rp[0] != "#ghost" else get_leaf(st.ghost[rp[1][0]], rp[1][1:])

    def scalars(self, sort):
        """[(sh value, entry value)] of modified non-array leaves of this sort."""
        return [(self.leaf(self.sh, m), self.leaf(self.st0, m)) for m in self.mod if self.leaf(self.sh, m).sort() == sort]

    def modified_root(self, root):
        return any(m[0] == root for m in self.mod)

    def fn(self):
        return self.eng.fnstack[-1]["fn"]["qn"] if self.eng.fnstack else ""


def _set(st, rp, v):
    if rp[0] == "#ghost":
        g = rp[1][0]
        st.ghost[g] = set_leaf(st.ghost[g], rp[1][1:], lambda _: v)
    else:
        st.mem[rp[0]] = set_leaf(st.mem[rp[0]], rp[1], lambda _: v)


def _normalize(a, b):
    """Give entry value a the shape of back value b where a is uninitialised/shapeless."""
    if a is UNINIT:
        return havoc_like(b, "uninit") if b is not UNINIT else a
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.d is None and b.d is not None:
            return Seq(a.n, havoc_like(b.d, "shape"), a.cls)
        if a.d is not None and b.d is not None:
            nd = _normalize(a.d, b.d)
            return a if nd is a.d else Seq(a.n, nd, a.cls)
        return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
        d = {}
        ch = False
        for k in a.f:
            d[k] = _normalize(a.f[k], b.f[k])
            ch |= d[k] is not a.f[k]
        return Obj(a.cls, d) if ch else a
    return a


def _diff(a, b, pre, out):
    """Leaf paths at which b differs from a."""
    if a is b:
        return
    if is_leaf(a) and is_leaf(b):
        if not a.eq(b):
            out.add(pre)
        return
    if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
        for k in a.f:
            _diff(a.f[k], b.f[k], pre + (k,), out)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        _diff(a.n, b.n, pre + ("#n",), out)
        if a.d is not None and b.d is not None:
            _diff(a.d, b.d, pre + ("#d",), out)
        return
    if isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.lv, b.lv):
        _diff(a.idx, b.idx, pre + ("#idx",), out)
        return
    if same(a, b) or b is UNINIT:
        return
    raise Unsupported("loop changes the shape of a value: %r -> %r" % (a, b))


def run_loop(eng, st, node, cond, inc, body, condpre):
    st = st.copy()
    mod = []
    seen = set()
    # ---- which leaves does the loop modify?
    eng.mute += 1
    disc0 = getattr(eng, "disc", 0)
    eng.disc = disc0 + 1
    try:
        for _ in range(40):
            sh = st.copy()
            for m in mod:
                old = get_leaf(sh.mem[m[0]], m[1]) if m[0] != "#ghost" else get_leaf(sh.ghost[m[1][0]], m[1][1:])
                _set(sh, m, fresh("hv", old.sort()))
            exits, backs, others = eng.iterate(sh, cond, inc, body, condpre)
            new = set()
            reshape = set()
            for b in backs:
                for r in st.mem:
                    if r not in b.mem:
                        continue
                    if b.mem[r] is sh.mem[r]:
                        continue
                    nv = _normalize(st.mem[r], b.mem[r])
                    if nv is not st.mem[r]:
                        st.mem[r] = nv
                        reshape.add(r)
                    if r in reshape:
                        continue
                    ps = set()
                    _diff(sh.mem[r], b.mem[r], (), ps)
                    new |= {(r, p) for p in ps}
                for g in st.ghost:
                    if g in b.ghost and b.ghost[g] is not sh.ghost[g]:
                        ps = set()
                        _diff(sh.ghost[g], b.ghost[g], (), ps)
                        new |= {("#ghost", (g,) + p) for p in ps}
            new -= seen
            if not new and not reshape:
                break
            for m in sorted(new, key=str):
                mod.append(m)
                seen.add(m)
        else:
            raise Unsupported("modified set did not stabilise")
    finally:
        eng.mute -= 1
        eng.disc = disc0
    # ---- generic havoc state; constant-step leaves become affine in the iteration counter
    k = fresh("k", I)
    sh0 = sh
    affine = []
    sh = st.copy()
    hv = []
    for m in mod:
        old = get_leaf(sh0.mem[m[0]], m[1]) if m[0] != "#ghost" else get_leaf(sh0.ghost[m[1][0]], m[1][1:])
        step = None
        if old.sort() == I:
            deltas = set()
            for b in backs:
                bl = get_leaf(b.mem[m[0]], m[1]) if m[0] != "#ghost" else get_leaf(b.ghost[m[1][0]], m[1][1:])
                d = z3.simplify(bl - old)
                deltas.add(d.as_long() if z3.is_int_value(d) else None)
            if len(deltas) == 1 and None not in deltas:
                step = deltas.pop()
        if step is not None:
            ent = get_leaf(st.mem[m[0]], m[1]) if m[0] != "#ghost" else get_leaf(st.ghost[m[1][0]], m[1][1:])
            _set(sh, m, ent + step * k)
            affine.append(m)
        else:
            v = fresh("hv", old.sort())
            _set(sh, m, v)
            hv.append((m, v))
    depth = sum(1 for g in st.ghost if str(g).startswith("k:"))
    sh.ghost["k:%d" % depth] = k
    base = (k >= 0,)
    sh.pc = st.pc + base
    if disc0:
        # inside another loop's discovery: havoc only
        eng.mute += 1
        try:
            exits, backs, others = eng.iterate(sh, cond, inc, body, condpre)
        finally:
            eng.mute -= 1
        return _finish(eng, exits, others, depth, len(st.pc))
    ctx = Ctx(eng, st, sh, k, mod, node)
    ctx.depth = depth
    cands = []
    # candidates from the loop condition
    if cond is not None:
        eng.mute += 1
        try:
            starts = [sh]
            for x in condpre:
                starts = [b for a in starts for _, b, _ in eng.ex(a, x)]
            for s1 in starts:
                for _, c in eng.ev_r(s1, cond):
                    cands += _from_cond(eng.as_bool(c))
        except Unsupported:
            pass
        finally:
            eng.mute -= 1
    if eng.loop_cands:
        cands += [(n, f) for n, f in eng.loop_cands(ctx)]
    eng_pairs = [(v, m) for m, v in hv]

    def at(f, state, kk):
        sub = [(k, kk)]
        for m, v in hv:
            sub.append((v, get_leaf(state.mem[m[0]], m[1]) if m[0] != "#ghost" else get_leaf(state.ghost[m[1][0]], m[1][1:])))
        return z3.substitute(f, *sub)

    def hyps(n, pc):
        """Bounds taken from the loop condition may be decided from the quantifier-free hypotheses alone."""
        return [h for h in pc if not has_quant(h)] if n in ("bound", "count") and getattr(eng, "ground_bounds", False) else pc

    alive = []
    for (n, f), ok in zip(cands, eng.prove_many([(hyps(n, st.pc), at(f, st, z3.IntVal(0)), 4000) for n, f in cands])):
        if ok:
            alive.append((n, f))
        elif DBG and DBG in n:
            _explain(eng, "%s initially? mute=%d disc=%d %s" % (n, eng.mute, disc0, node.get("l")), st.pc, at(f, st, z3.IntVal(0)))
    rounds = 0
    while True:
        rounds += 1
        s = sh.copy()
        s.pc = sh.pc + tuple(f for _, f in alive)
        eng.mute += 1
        try:
            exits, backs, others = eng.iterate(s, cond, inc, body, condpre)
        finally:
            eng.mute -= 1
        keep = []
        res = iter(eng.prove_many([(hyps(n, b.pc), at(f, b, k + 1), 4000) for n, f in alive for b in backs]))
        for n, f in alive:
            ok = True
            got = [next(res) for _ in backs]
            for b, good in zip(backs, got):
                if not good:
                    ok = False
                    if DBG and DBG in n:
                        _explain(eng, "%s preserved? mute=%d disc=%d %s" % (n, eng.mute, disc0, node.get("l")), b.pc, at(f, b, k + 1))
                    break
            if ok:
                keep.append((n, f))
        if len(keep) == len(alive):
            break
        alive = keep
        if rounds > 30:
            raise Unsupported("invariant inference did not converge")
    if not eng.mute:
        eng.inv_report.append((eng.where(), node.get("l"), [n for n, _ in alive], len(cands)))
        s = sh.copy()
        s.pc = sh.pc + tuple(f for _, f in alive)
        exits, backs, others = eng.iterate(s, cond, inc, body, condpre)
        if getattr(eng, "loop_step", None):
            for b in backs:
                eng.loop_step(ctx, s, b)
        # the surviving invariants' obligations: discharged in the last round above (and, initially, before it)
        for n, f in alive:
            for o in [Ob("invariant %s (initially)" % n, st.pc, at(f, st, z3.IntVal(0)), eng.where(), None, "inv")] + [
                    Ob("invariant %s (preserved)" % n, b.pc, at(f, b, k + 1), eng.where(), None, "inv") for b in backs]:
                o.status = "proved"
                eng.obs.append(o)
    return _finish(eng, exits, others, depth, len(st.pc))


def _finish(eng, exits, others, depth, n=0):
    if eng.__dict__.get("join") and n:
        norm = [(s, None) for s in exits] + [(s, None) for kd, s, v in others if kd == "n"]
        exits = [s for s, _ in eng.join_states(n, norm)]
        others = [o for o in others if o[0] != "n"]
    outs = []
    for s in exits:
        s = s.copy()
        s.ghost.pop("k:%d" % depth, None)
        outs.append(("n", s, None))
    for kd, s, v in others:
        s = s.copy()
        s.ghost.pop("k:%d" % depth, None)
        outs.append((kd, s, v))
    return outs


def _from_cond(c):
    out = []
    c = z3.simplify(c, arith_lhs=False) if False else c
    if z3.is_and(c):
        for x in c.children():
            out += _from_cond(x)
        return out
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == I:
        a, b = c.arg(0), c.arg(1)
        k = c.decl().kind()
        op = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}.get(k)
        if op is None:
            return out
        if neg:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op == "<": out.append(("bound", a <= b))
        elif op == "<=": out.append(("bound", a <= b + 1))
        elif op == ">": out.append(("bound", a >= b))
        elif op == ">=": out.append(("bound", a >= b - 1))
        elif op == "!=": out += [("bound", a <= b), ("bound", a >= b)]
    return out
