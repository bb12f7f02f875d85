"""P03: the pool never hands out a block that is still in use (pool.hpp)."""
import re
import z3
from slpv.eng import *
from slpv import models as MD

HARNESS = "p03.cpp"
SAN = ("-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined")
MIN_OBLIGATIONS = 20
SRC = """
#include <sleipnir/util/pool.hpp>
template class slp::PoolAllocator<double>;
unsigned long use(slp::PoolResource& p, void* q, unsigned long n) {
  void* r = p.allocate(n); p.deallocate(q, n); return p.blocks_in_use() + (r != nullptr) + p.is_equal(p);
}
"""
S = z3.Select
AB = z3.ArraySort(I, B)


def prove(ck):
    P = ck.dump(SRC)
    ck.part("allocate", allocate, ck, P)
    ck.part("deallocate", deallocate, ck, P)
    ck.part("blocks_in_use", in_use, ck, P)
    ck.part("lemmas", mul_lemmas, ck)
    ck.part("PoolAllocator", allocator, ck, P)
    ck.assume += ["all requests to one pool use the same block size (blocks of mixed size are the recorded known finding)",
                  "operator new returns storage disjoint from all storage in use", "blocks per chunk in [1, 2^31), block size in [1, 2^32)",
                  "a caller releases only blocks it holds", "move of a PoolResource moves both containers (library semantics)"]


class W:
    pass


def setup(ck, P):
    E = ck.eng(P, check_bounds=True)
    E.heap_classes = {"void": "mem", "std::byte": "mem", "double": "mem"}
    st = State()
    w = W()
    w.E, w.st = E, st
    w.b, w.bpc = fresh("block", I), fresh("bpc", I)
    F = Seq(fresh("nfree", I), fresh("free", z3.ArraySort(I, I)), "seq")
    C = Seq(fresh("nchunk", I), Obj("uptr", {"p": fresh("chunk", z3.ArraySort(I, I))}), "seq")
    w.pool = E.alloc(st, Obj("PoolResource", {"m_buffer": C, "m_free_list": F, "blocks_per_chunk": w.bpc}), "pool")
    w.F0, w.C0 = F, C
    st.ghost["blocks"], st.ghost["used"] = fresh("blocks", AB), fresh("used", AB)
    st.ghost["total"], st.ghost["nused"] = fresh("total", I), fresh("nused", I)
    st.pc = (w.b >= 1, w.b < 2 ** 32, w.bpc >= 1, w.bpc < 2 ** 31, F.n >= 0, C.n >= 0, C.n < 2 ** 20)
    # products of the block size by an index are kept symbolic; the facts used about them are the
    # lemmas proved in mul_lemmas()
    MUL = z3.Function("mul", I, I, I)
    E.mul = lambda a, c: MUL(w.b, a) if z3.eq(z3.simplify(c), w.b) else MUL(w.b, c) if z3.eq(z3.simplify(a), w.b) else a * c
    w.mul = E.mul
    i, j = fresh("i", I), fresh("j", I)
    st.pc += (z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j), MUL(w.b, i) + w.b <= MUL(w.b, j)), patterns=[z3.MultiPattern(MUL(w.b, i), MUL(w.b, j))]),
             MUL(w.b, 0) == 0)
    st.pc += tuple(t for _, t in inv(w, st))

    def new(s, e):
        outs = []
        for s2, n in E.ev_r(s, e["size"]):
            base = fresh("new", I)
            x, k = fresh("x", I), fresh("k", I)
            s2 = s2.assume(base > 0, z3.ForAll([x], z3.Implies(S(s2.ghost["blocks"], x), z3.Or(x + w.b <= base, base + n <= x))))
            # ghost: the chunk consists of blocks_per_chunk consecutive blocks
            E.oblige(s2, n == w.mul(w.b, w.bpc), "a chunk holds exactly blocks_per_chunk blocks of the requested size", kind="post")
            nb = fresh("blocks", AB)
            y = fresh("y", I)
            ix = z3.Function("ix!%d" % next(MD._cnt), I, I)
            isnew = lambda x: z3.And(ix(x) >= 0, ix(x) < w.bpc, x == base + w.mul(w.b, ix(x)))
            s2 = s2.assume(z3.ForAll([x], S(nb, x) == z3.Or(S(s2.ghost["blocks"], x), isnew(x))),
                           z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w.bpc), z3.And(S(nb, base + w.mul(w.b, k)), ix(base + w.mul(w.b, k)) == k)), patterns=[w.mul(w.b, k)]))
            s2.ghost["blocks"] = nb
            s2.ghost["base"] = base
            s2.ghost["total"] = s2.ghost["total"] + w.bpc
            outs.append((s2, base))
        return outs
    E.e_New = new

    def uptr(E_, s, fn, obj, vals, e):
        n = fn["n"]
        if n in ("get",):
            return [(s, E_.rv(s, obj).f["p"])]
        if n == "unique_ptr":
            v = E_.rv(s, vals[0])
            return [(s, v if isinstance(v, Obj) else Obj("uptr", {"p": v}))]
        if n == "operator[]":
            raise Unsupported("element access of the chunk")
        raise Unsupported(fn["qn"])
    E.models.insert(0, (re.compile(r"^std::unique_ptr<.*>::[^:]*$"), uptr))

    def mk(E_, s, ty, vals, exprs):
        if ty["s"].startswith("std::unique_ptr"):
            v = E_.rv(s, vals[0])
            return [(s, v if isinstance(v, Obj) else Obj("uptr", {"p": v}))]
        return None
    E.make_hooks = [mk]

    def cands(c):
        out = []
        F = c.eng.read(c.sh, w.pool).f["m_free_list"]
        F1 = c.eng.read(c.st0, w.pool).f["m_free_list"]
        base = c.sh.ghost.get("base")
        if base is None or F.d is None:
            return out
        q = fresh("q", I)
        kk = F.n - F1.n
        out.append(("free list grows by one block per step", z3.And(kk >= 0, kk <= w.bpc)))
        out.append(("free list grows in step with the iterations", F.n == F1.n + c.k))
        out.append(("earlier free entries unchanged", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < F1.n), S(F.d, q) == S(F1.d, q)))))
        out.append(("new entries are the chunk's blocks (descending)", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.k), S(F.d, F1.n + q) == base + w.mul(w.b, w.bpc - 1 - q)))))
        out.append(("new entries are the chunk's blocks (ascending)", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.k), S(F.d, F1.n + q) == base + w.mul(w.b, q)))))
        for v, v0 in c.scalars(I):
            out += [("counter range", z3.And(v >= -1, v < w.bpc)), ("counter range", z3.And(v >= 0, v <= w.bpc))]
        out.append(("iterations bounded", c.k <= w.bpc))
        return out
    E.loop_cands = cands
    return w


def mul_lemmas(ck):
    b, i, j, k = z3.Ints("b i j k")
    ck.ob("lemma: multiples of the block size are at least a block apart", [b >= 1, i >= 0, i < j, j == i + 1 + k, k >= 0], b * (i + 1 + k) >= b * i + b, kind="lemma")
    ck.ob("lemma: an index is determined by its multiple", [b >= 1, i + 1 + k == j, k >= 0], b * (i + 1 + k) != b * i, kind="lemma")
    ck.ob("lemma: zero multiple", [], b * 0 == 0, kind="lemma")


def inv(w, s):
    po = w.E.read(s, w.pool)
    F, C = po.f["m_free_list"], po.f["m_buffer"]
    bl, us = s.ghost["blocks"], s.ghost["used"]
    x, y, i, j = (fresh(n, I) for n in "xyij")
    return [("every free entry is a block of the pool that nobody holds", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < F.n), z3.And(S(bl, S(F.d, i)), z3.Not(S(us, S(F.d, i))))))),
            ("no block is listed free twice", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < F.n, j < F.n, i != j), S(F.d, i) != S(F.d, j)))),
            ("blocks in use belong to the pool", z3.ForAll([x], z3.Implies(S(us, x), S(bl, x)))),
            ("distinct blocks do not overlap", z3.ForAll([x, y], z3.Implies(z3.And(S(bl, x), S(bl, y), x < y), x + w.b <= y))),
            ("free + in use == total", z3.And(F.n + s.ghost["nused"] == s.ghost["total"], s.ghost["nused"] >= 0)),
            ("total == chunks * blocks per chunk", s.ghost["total"] == C.n * po.f["blocks_per_chunk"]),
            ("blocks_per_chunk unchanged", po.f["blocks_per_chunk"] == w.bpc)]


def check_inv(w, s, f, what):
    for n, t in inv(w, s):
        w.E.oblige(s, t, what + ": " + n, f["loc"], "post")


def allocate(ck, P):
    w = setup(ck, P)
    f = P.one(r"^slp::PoolResource::allocate$")
    al = fresh("align", I)
    for s, p in w.E.run_fn(w.st, f, w.pool, [w.b, al]):
        us = s.ghost["used"]
        x = fresh("x", I)
        w.E.oblige(s, S(s.ghost["blocks"], p), "allocate: the block lies inside a buffer owned by the pool", f["loc"], "post")
        w.E.oblige(s, z3.Not(S(us, p)), "allocate: the block is not in use", f["loc"], "post")
        w.E.oblige(s.assume(S(us, x)), z3.Or(x + w.b <= p, p + w.b <= x), "allocate: the block overlaps no block in use", f["loc"], "post")
        s2 = s.copy()
        s2.ghost["used"] = z3.Store(us, p, z3.BoolVal(True))
        s2.ghost["nused"] = s2.ghost["nused"] + 1
        check_inv(w, s2, f, "allocate")
        w.E.oblige(s, z3.ForAll([x], z3.Implies(S(w.st.ghost["blocks"], x), S(s.ghost["blocks"], x))), "allocate: no existing block is given up", f["loc"], "post")
    ck.take(w.E, "allocate")


def deallocate(ck, P):
    w = setup(ck, P)
    f = P.one(r"^slp::PoolResource::deallocate$")
    p = fresh("p", I)
    us = w.st.ghost["used"]
    w.st.pc += (S(us, p), w.st.ghost["nused"] >= 1)
    for s, _ in w.E.run_fn(w.st, f, w.pool, [p, w.b, fresh("align", I)]):
        s2 = s.copy()
        s2.ghost["used"] = z3.Store(us, p, z3.BoolVal(False))
        s2.ghost["nused"] = s2.ghost["nused"] - 1
        check_inv(w, s2, f, "deallocate")
        F = w.E.read(s, w.pool).f["m_free_list"]
        i = fresh("i", I)
        w.E.oblige(s, z3.Exists([i], z3.And(i >= 0, i < F.n, S(F.d, i) == p)), "deallocate: the block becomes available again", f["loc"], "post")
    ck.take(w.E, "deallocate")


def in_use(ck, P):
    w = setup(ck, P)
    f = P.one(r"^slp::PoolResource::blocks_in_use$")
    for s, r in w.E.run_fn(w.st, f, w.pool, []):
        w.E.oblige(s, r == w.st.ghost["nused"], "blocks_in_use equals the outstanding allocations", f["loc"], "post")
    ck.take(w.E, "blocks_in_use")


def allocator(ck, P):
    """PoolAllocator forwards to its resource."""
    for n in ("allocate", "deallocate"):
        w = setup(ck, P)
        E, st = w.E, w.st
        log = []

        def h(E_, s, fn, obj, vals, e):
            log.append((fn["n"], obj, [E_.rv(s, v) for v in vals]))
            return [(s, fresh("ret", I) if fn["n"] == "allocate" else VOID)]
        E.contracts.append((lambda fn: fn["qn"].startswith("slp::PoolResource::"), h))
        a = E.alloc(st, Obj("PoolAllocator", {"m_memory_resource": Ptr(w.pool)}), "alloc")
        p = fresh("p", I)
        f = P.one(r"^slp::PoolAllocator<double>::%s$" % n)
        for s, r in E.run_fn(st, f, a, [w.b] if n == "allocate" else [p, w.b]):
            ok = len(log) == 1 and log[0][0] == n and isinstance(log[0][1], LV) and log[0][1].root == w.pool.root
            E.oblige(s, z3.BoolVal(ok), "PoolAllocator::%s performs exactly one %s on its pool" % (n, n), f["loc"], "post")
            if ok:
                v = log[0][2]
                E.oblige(s, v[0] == w.b if n == "allocate" else z3.And(v[0] == p, v[1] == w.b), "PoolAllocator::%s passes the block through" % n, f["loc"], "post")
        ck.take(E, "PoolAllocator::" + n)
