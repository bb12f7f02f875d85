"""Quantifier instantiation by kinds: every hypothesis quantifier is instantiated at the ground terms of
the matching kind (node, edge, position, ...) that occur in the obligation; the rest is quantifier free.
Only 'unsat' is meaningful.  A property registers the kinds of its arrays and functions.
"""
import itertools
import time
import z3

SIG = {}       # declaration name -> (argument kinds, value kind)
BINDER = {}    # prefix of a bound variable's name -> kind
ON = [False]
LIM = {"rounds": 4, "max": 9000, "depth": 14, "cost": (9, 2, 3, 4)}


def reset():
    SIG.clear()
    BINDER.clear()
    ON[0] = False


def register(name, args, val=None):
    SIG[name] = (tuple(args), val)
    ON[0] = True


def array(t, args, val=None):
    """Registers the array term's base constants."""
    for b in bases(t):
        register(b, args, val)


def bases(t):
    """Names of the array constants a store/ite chain is built on."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE:
            todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            out.append(x.decl().name())
    return out


def sig_of(a):
    for b in bases(a):
        if b in SIG:
            return SIG[b]
    return None


def curry(t):
    """Select(Select(A, i), j) -> (A, [i, j])."""
    idx = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
        idx.insert(0, t.arg(1))
        t = t.arg(0)
        # a row taken from a store: Store(row...) inside; keep peeling
    return t, idx


def rows(a, idx):
    """The selections a nested read can reach through stored rows."""
    out, todo, seen = [], [a], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE:
            t = x.arg(2)
            for i in idx:
                t = z3.Select(t, i)
            out.append(t)
            todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
    return out


_depth = {}


def depth(t):
    i = t.get_id()
    if i in _depth:
        return _depth[i][0]
    d = 1 + max([depth(c) for c in t.children()] or [0])
    _depth[i] = (d, t)
    return d


_cost = {}


def cost(t):
    """Nesting of selections and applications in an index term (arrays themselves are free)."""
    i = t.get_id()
    if i in _cost:
        return _cost[i][0]
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SELECT:
        a, idx = curry(t)
        c = 1 + max(cost(x) for x in idx)
    elif k == z3.Z3_OP_UNINTERPRETED and t.num_args():
        c = 1 + max(cost(x) for x in t.children())
    else:
        c = max([cost(x) for x in t.children()] or [0])
    _cost[i] = (c, t)
    return c


class Pool:
    def __init__(self):
        self.by, self.pairs, self.seen, self.keep = {}, {}, set(), []

    def add(self, kind, t):
        if kind is None or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            return
        t = z3.simplify(t) if depth(t) < 6 else t
        if depth(t) > LIM["depth"]:
            return
        self.by.setdefault(kind, {}).setdefault(t.get_id(), t)

    def pair(self, kinds, ts):
        ts = [z3.simplify(t) if depth(t) < 6 else t for t in ts]
        if any(depth(t) > LIM["depth"] for t in ts):
            return
        self.pairs.setdefault(kinds, {}).setdefault(tuple(t.get_id() for t in ts), ts)

    def scan(self, f):
        todo = [f]
        while todo:
            t = todo.pop()
            if t.get_id() in self.seen:
                continue
            self.seen.add(t.get_id())
            self.keep.append(t)
            if z3.is_quantifier(t) or z3.is_var(t):
                continue
            todo += t.children()
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_SELECT:
                a, idx = curry(t)
                s = sig_of(a)
                if s:
                    self.note(s, idx, t)
                if len(idx) > 1:
                    todo += rows(a, idx[1:])
            elif k == z3.Z3_OP_STORE:
                s = sig_of(t)
                if s:
                    a, idx = t, [t.arg(1)]
                    self.note(s, idx, None)
                    if len(s[0]) == 1:
                        self.add(s[1], t.arg(2))
            elif k == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() in SIG:
                s = SIG[t.decl().name()]
                self.note(s, t.children(), t)

    def note(self, s, idx, t):
        for kd, i in zip(s[0], idx):
            self.add(kd, i)
        if len(idx) == len(s[0]):
            if len(idx) > 1:
                self.pair(s[0], idx)
            if len(idx) > 2:
                self.pair(s[0][:2], idx[:2])
            if t is not None:
                self.add(s[1], t)


def nnf(f, pos, out):
    """Conjuncts of f (or of its negation), with outermost existentials replaced by constants."""
    if z3.is_not(f):
        return nnf(f.arg(0), not pos, out)
    if pos and z3.is_and(f) or (not pos and z3.is_or(f)):
        for c in f.children():
            nnf(c, pos, out)
        return
    if not pos and z3.is_implies(f):
        nnf(f.arg(0), True, out)
        nnf(f.arg(1), False, out)
        return
    if z3.is_quantifier(f) and not f.is_lambda() and f.is_forall() != pos:
        vs = [z3.FreshConst(f.var_sort(i), "sk") for i in range(f.num_vars())]
        for i, v in enumerate(vs):
            BIND_SK[v.decl().name()] = kind_of(f.var_name(i))
        nnf(z3.substitute_vars(f.body(), *reversed(vs)), pos, out)
        return
    if has_q(f):
        out.append(skol(f, pos, out))
        return
    out.append(f if pos else z3.Not(f))


_hq = {}


def has_q(f):
    i = f.get_id()
    if i not in _hq:
        _hq[i] = (z3.is_quantifier(f) and not f.is_lambda() or any(has_q(c) for c in f.children()), f)
    return _hq[i][0]


def skol(f, pos, out):
    """f (or its negation) with the existentials below conjunctions and disjunctions replaced by constants."""
    if not has_q(f):
        return f if pos else z3.Not(f)
    if z3.is_not(f):
        return skol(f.arg(0), not pos, out)
    if z3.is_and(f) or z3.is_or(f):
        cs = [skol(c, pos, out) for c in f.children()]
        return z3.And(*cs) if z3.is_and(f) == pos else z3.Or(*cs)
    if z3.is_implies(f):
        a, b = skol(f.arg(0), not pos, out), skol(f.arg(1), pos, out)
        return z3.Or(a, b) if pos else z3.And(a, b)
    if z3.is_quantifier(f) and not f.is_lambda() and f.is_forall() != pos:
        vs = [z3.FreshConst(f.var_sort(i), "sk") for i in range(f.num_vars())]
        for i, v in enumerate(vs):
            BIND_SK[v.decl().name()] = kind_of(f.var_name(i))
        return skol(z3.substitute_vars(f.body(), *reversed(vs)), pos, out)
    if z3.is_quantifier(f) and not f.is_lambda():
        # a universal below a disjunction: named, and instantiated like the others
        b = z3.FreshConst(z3.BoolSort(), "univ")
        vs = [z3.Const("%s" % f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        out.append(z3.ForAll(vs, z3.Implies(b, body if pos else z3.Not(body))))
        return b
    return f if pos else z3.Not(f)


BIND_SK = {}
DBG = False


def kind_of(name):
    for p, k in BINDER.items():
        if name.startswith(p):
            return k
    return None


def solve(fs, timeout):
    t0 = time.time()
    out = []
    for f in fs:
        nnf(f, True, out)
    ground, quants = [], []
    for f in out:
        if z3.is_quantifier(f) and f.is_forall():
            quants.append(f)
        else:
            ground.append(f)
    pool = Pool()
    for f in ground:
        pool.scan(f)
    for f in ground:
        for x in consts(f):
            if x.decl().name() in BIND_SK:
                pool.add(BIND_SK[x.decl().name()], x)
    done = set()
    inst = []
    for rnd in range(LIM["rounds"]):
        new = []
        lim = LIM["cost"][min(rnd, len(LIM["cost"]) - 1)]
        pb = {k: [t for t in v.values() if cost(t) <= lim] for k, v in pool.by.items()}
        for qi, q in enumerate(quants):
            n = q.num_vars()
            ks = tuple(kind_of(q.var_name(i)) for i in range(n))
            if any(k is None for k in ks):
                continue
            if n == 1:
                tups = [[t] for t in pb.get(ks[0], [])]
            elif ks in pool.pairs or any(v[0] == ks for v in SIG.values()):
                tups = [ts for ts in pool.pairs.get(ks, {}).values() if max(map(cost, ts)) <= lim]
            else:
                tups = [list(x) for x in itertools.product(*[pb.get(k, []) for k in ks])]
            for ts in tups:
                key = (qi, tuple(t.get_id() for t in ts))
                if key in done:
                    continue
                done.add(key)
                new.append(z3.substitute_vars(q.body(), *reversed(ts)))
                if len(done) > LIM["max"]:
                    break
        inst += new
        if not new and rnd:
            break
        for f in new:
            pool.scan(f)
        if DBG:
            print("round", rnd, {k: len(v) for k, v in pb.items()}, {k: len(v) for k, v in pool.pairs.items()}, "quants", len(quants), "inst", len(inst), "%.2f" % (time.time() - t0), flush=True)
            if rnd == 0:
                print({k: [str(x).replace("\n", " ")[:200] for x in v] for k, v in pb.items()})
        left = int(timeout - (time.time() - t0) * 1000)
        if left < 20:
            break
        s = z3.SimpleSolver()
        s.set("timeout", left)
        s.set("mbqi", False)
        s.set("array.extensional", False)
        flat = []
        for f in inst:
            nnf(f, True, flat)
        s.add(*ground)
        s.add(*[f for f in flat if not z3.is_quantifier(f)])
        try:
            if s.check() == z3.unsat:
                return z3.unsat
        except z3.Z3Exception:
            pass
    return z3.unknown


def consts(f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield t
        todo += t.children()
