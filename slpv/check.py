"""Runs one property: proof obligations, vacuity, replay on the real code, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, shlex, subprocess, sys, tempfile, time, traceback
import z3
from . import prog as PR
from . import eng as EN
from .eng import Eng, Ob, Unsupported, Stats, has_quant, ematch, fork_map

VERIF = PR.HERE
JOBS = 8


class OB2:
    """One obligation in solver-neutral form."""

    def __init__(self, name, hyps, goal, loc="", kind="post", where="", abstracted=False, status=None, backend="z3", detail=""):
        self.name, self.hyps, self.goal, self.loc, self.kind, self.where = name, hyps, goal, loc, kind, where
        self.abstracted, self.status, self.backend, self.detail, self.t = abstracted, status, backend, detail, 0.0
        self.witness = {}


_work = []
_par = None


def _par_run(i):
    ck0, jobs = _par
    ck = Ck(ck0.pid)
    name, fn, args = jobs[i][0], jobs[i][1], jobs[i][2:]
    t0, w0 = Stats.time, time.time()
    ck.part(name, fn, ck, *args)
    ts = time.time() - w0
    global _work
    _work = ck.obs
    todo = [j for j, o in enumerate(ck.obs) if o.status is None]

    def one(k):
        try:
            return _solve(todo[k])
        except z3.Z3Exception as ex:
            return todo[k], "unknown", "z3", str(ex), {}, 0.0
    w = min(Stats.workers, len(todo) // 3)
    for j, st, be, det, wit, t in (fork_map(one, len(todo), w) if w > 1 else [one(k) for k in range(len(todo))]):
        o = ck.obs[j]
        o.status, o.backend, o.detail, o.witness, o.t = st, be, det, wit, t
    if os.environ.get("SLPV_TIMES"):
        with open(os.environ["SLPV_TIMES"], "a") as fh:
            fh.write("%.1f %.1f %s %d\n" % (time.time() - w0, ts, name, len(ck.obs)))
    for v in ck.vacuity():
        ck.incomplete.append("vacuous: %s" % v)
    return {"obs": [{"name": o.name, "goal": str(o.goal)[:1500], "loc": str(o.loc), "kind": o.kind, "where": o.where, "abstracted": o.abstracted,
                     "status": o.status, "backend": o.backend, "detail": o.detail, "witness": o.witness, "t": o.t} for o in ck.obs],
            "fns": ck.fns, "invs": ck.invs, "incomplete": ck.incomplete, "reach": len(ck.reach), "stime": Stats.time - t0}


def _solve(i):
    ob = _work[i]
    t0 = time.time()
    st, be, det, wit = "unknown", "z3", "", {}
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        return i, "proved", "z3-simplify", "", {}, time.time() - t0
    quant = any(has_quant(h) for h in ob.hyps) or has_quant(ob.goal)
    if quant:
        if ematch(list(ob.hyps) + [z3.Not(ob.goal)], 500, 1) == z3.unsat:
            return i, "proved", "z3", "", {}, time.time() - t0
    for tmo, tac in (((700, None),) if quant else ()) + ((4000, None), (25000, None)):
        if tmo == 4000 and quant and ematch(list(ob.hyps) + [z3.Not(ob.goal)], 4000) == z3.unsat:
            return i, "proved", "z3", "", {}, time.time() - t0
        s = z3.Solver()
        tmo *= Stats.scale
        s.set("timeout", tmo)
        s.add(*ob.hyps)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            return i, "proved", "z3", "", {}, time.time() - t0
        if r == z3.sat:
            m = s.model()
            for n, t in (ob.inputs or {}).items():
                try:
                    wit[n] = str(m.eval(t, model_completion=True))
                except Exception:
                    pass
            return i, "refuted", "z3", str(m)[:3000], wit, time.time() - t0
        # second opinion: cvc5 on the SMT-LIB text
        if tmo < 4000:
            continue
        if "lambda" in s.sexpr():
            continue
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            txt = txt.replace("(set-info :status unknown)", "")
            fd, p = tempfile.mkstemp(suffix=".smt2")
            os.write(fd, txt.encode())
            os.close(fd)
            out = subprocess.run(["cvc5", "--tlimit=%d" % (tmo * 2), p], capture_output=True, text=True).stdout.split()
            os.unlink(p)
            if out and out[0] == "unsat":
                return i, "proved", "cvc5", "", {}, time.time() - t0
        except Exception:
            pass
    return i, st, be, det, wit, time.time() - t0


class Ck:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs, self.reach, self.fns, self.invs = [], [], {}, []
        self.trusted, self.assume = [], []
        self.incomplete = []
        self.bounded = []
        self.samples = []
        self.notes = []
        self.nreach = 0

    # ---- programs
    def dump(self, src, extra=()):
        return PR.dump_src(src, extra)

    def eng(self, P, dom=None, **kw):
        return Eng(P, dom, **kw)

    def take(self, e, label="", inputs=None):
        """Collect the obligations an engine generated."""
        for o in e.obs:
            ob = OB2(o.name, list(o.pc) + list(e.axioms), o.goal, o.loc, o.kind, label, o.abstracted)
            ob.inputs = inputs or {}
            if o.status:
                ob.status, ob.backend = o.status, "z3"
            self.obs.append(ob)
        e.obs = []
        self.fns.update(e.used_fns)
        for w, l, alive, tried in e.inv_report:
            self.invs.append({"function": w, "line": l, "invariants": alive, "candidates_tried": tried})
        e.inv_report = []

    def ob(self, name, hyps, goal, loc="", inputs=None, kind="post", abstracted=False):
        ob = OB2(name, list(hyps), goal, loc, kind, "", abstracted)
        ob.inputs = inputs or {}
        self.obs.append(ob)

    def decided(self, name, ok, backend, detail="", loc="", t=0.0):
        """An obligation decided outside SMT (sympy normal forms, structural comparison)."""
        ob = OB2(name, [], z3.BoolVal(True), loc, "lemma", "", False, "proved" if ok else "refuted", backend, detail)
        ob.t = t
        self.obs.append(ob)

    def nonvacuous(self, name, fs):
        self.reach.append((name, list(fs)))

    def part(self, name, fn, *a, **kw):
        """Run one piece of the proof; an extraction/engine gap is recorded, never fatal."""
        try:
            return fn(*a, **kw)
        except (Unsupported, PR.ToolError, z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, NotImplementedError, AssertionError, StopIteration, RecursionError) as ex:
            self.incomplete.append("%s: %s: %s" % (name, type(ex).__name__, str(ex)[:300]))
            if os.environ.get("SLPV_DEBUG"):
                print("".join(traceback.format_exc(limit=-int(os.environ["SLPV_DEBUG"]) * 4)))

    def par(self, jobs):
        """Run independent pieces (name, fn, args...) in parallel processes, each discharging its own obligations."""
        global _par
        _par = (self, jobs)
        Stats.workers = max(2, JOBS // max(1, len(jobs)))
        with mp.get_context("fork").Pool(JOBS) as p:
            for r in p.imap(_par_run, range(len(jobs)), chunksize=1):
                for d in r["obs"]:
                    ob = OB2(d["name"], [], d["goal"], d["loc"], d["kind"], d["where"], d["abstracted"], d["status"], d["backend"], d["detail"])
                    ob.witness, ob.t = d["witness"], d["t"]
                    self.obs.append(ob)
                self.fns.update(r["fns"])
                self.invs += r["invs"]
                self.incomplete += r["incomplete"]
                self.nreach += r["reach"]
                Stats.time += r["stime"]

    # ---- discharge
    def discharge(self):
        global _work
        todo = [i for i, o in enumerate(self.obs) if o.status is None]
        _work = self.obs
        if not todo:
            return
        if len(todo) < 4:
            res = [_solve(i) for i in todo]
        else:
            with mp.get_context("fork").Pool(JOBS) as p:
                res = p.map(_solve, todo, chunksize=1)
        for i, st, be, det, wit, t in res:
            o = self.obs[i]
            o.status, o.backend, o.detail, o.witness, o.t = st, be, det, wit, t

    def vacuity(self):
        bad = []
        for n, fs in self.reach:
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*fs)
            if s.check() == z3.unsat:
                bad.append(n)
        return bad


# ---------------------------------------------------------------- real-code harness
class Harness:
    """A harness program compiled (in the background) together with /repo's current sources."""

    def __init__(self, name, mod):
        san, opt, extra = list(getattr(mod, "SAN", ())), getattr(mod, "OPT", "-O1"), list(getattr(mod, "HFLAGS", ()))
        self.name, self.dir = name, tempfile.mkdtemp(prefix="slpvh")
        self.exe = os.path.join(self.dir, "h")
        base = ["g++-14"] + PR.cxxflags() + [opt, "-w", "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(PR.REPO, "src")] + san + extra
        srcs = [os.path.join(VERIF, "harness", name)] + [os.path.join(PR.REPO, "src", x) for x in ["util/pool.cpp"] + list(getattr(mod, "HSRC", ()))]
        objs = [os.path.join(self.dir, "%d.o" % i) for i in range(len(srcs))]
        q = lambda xs: " ".join(shlex.quote(x) for x in xs)
        lines = ["%s -c %s -o %s & P%d=$!" % (q(base), shlex.quote(x), o, i) for i, (x, o) in enumerate(zip(srcs, objs))]
        lines += ["wait $P%d || exit 1" % i for i in range(len(srcs))]
        lines.append("%s %s -o %s -lpthread" % (q(base), q(objs), self.exe))
        self.cmd = q(base) + " " + q(srcs) + " -o h"
        self.log = open(os.path.join(self.dir, "log"), "w+")
        self.p = subprocess.Popen(["bash", "-c", "\n".join(lines)], stdout=self.log, stderr=self.log)

    def ready(self):
        self.p.wait()
        self.log.seek(0)
        return self.p.returncode == 0 and os.path.exists(self.exe), self.log.read()[-3000:]

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.log.close()
        subprocess.run(["rm", "-rf", self.dir])


def start_harness(mod):
    hs = getattr(mod, "HARNESS", None)
    return [Harness(h, mod) for h in ([hs] if isinstance(hs, str) else hs or [])]


def run_harness(built, ck, cex=None, timeout=300):
    """Returns (status, text): ok / fail / nobuild."""
    if not built:
        return "none", "", 0
    total = 0
    texts = []
    for h in built:
        ok, msg = h.ready()
        if not ok:
            return "nobuild", msg, total
        env = dict(os.environ)
        env["VERIF_SEED"] = str(ck.seed)
        env["VERIF_TIER"] = ck.tier
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        env["SLPV_SCRATCH"] = h.dir
        if cex:
            env["SLPV_CEX"] = cex
        try:
            r = subprocess.run([h.exe], capture_output=True, text=True, errors="replace", timeout=timeout, env=env, cwd=h.dir)
        except subprocess.TimeoutExpired as te:
            return "fail", "harness %s did not terminate within %d s (real code does not return)\n%s" % (h.name, timeout, (te.stdout or b"")[-2000:]), total
        for l in r.stdout.splitlines():
            if l.startswith("CASES "):
                total += int(l.split()[1])
        texts.append(r.stdout[-3000:])
        if r.returncode != 0:
            return "fail", "harness: %s\ncompile: %s\nexit %d\n%s\n%s" % (h.name, h.cmd, r.returncode, r.stdout[-6000:], r.stderr[-4000:]), total
    return "ok", "\n".join(texts), total


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN ") and "property=%s " % pid in l:
                out.append(l[6:].strip())
    return out


def main(pid):
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("props.%s" % pid.lower())
    built = start_harness(mod)
    try:
        return run(pid, mod, built)
    finally:
        for h in built:
            h.close()


def run(pid, mod, built):
    ck = Ck(pid)
    try:
        PR.plugin()
        ck.part("proof", mod.prove, ck)
    except PR.ToolError as ex:
        ck.incomplete.append(str(ex))
    ck.discharge()
    early = None
    if any(o.status != "proved" for o in ck.obs):
        wit = next((o.witness for o in ck.obs if o.status == "refuted" and o.witness), None)
        early = run_harness(built, ck, ";".join("%s=%s" % kv for kv in sorted(wit.items())) if wit else None)
    if early and early[0] != "fail" and time.time() - ck.t0 < 150:
        if os.environ.get("SLPV_DEBUG"):
            print("second attempt because of", [(o.name, o.status) for o in ck.obs if o.status != "proved"])
        # a lost invariant or a timeout can make a provable obligation look refuted: one more attempt, with longer timeouts
        Stats.scale = 3
        ck2 = Ck(pid)
        ck2.t0 = ck.t0
        ck2.part("proof", mod.prove, ck2)
        ck2.discharge()
        badness = lambda c: (sum(o.status == "refuted" for o in c.obs), sum(o.status != "proved" for o in c.obs), len(c.incomplete))
        if badness(ck2) <= badness(ck):
            ck = ck2
        Stats.scale = 1
    bad = [o for o in ck.obs if o.status != "proved"]
    refuted = [o for o in bad if o.status == "refuted"]
    unknown = [o for o in bad if o.status == "unknown"]
    vac = ck.vacuity()
    if not ck.obs and not ck.incomplete:
        ck.incomplete.append("no obligations were generated")
    for v in vac:
        ck.incomplete.append("vacuous: %s" % v)
    expected = getattr(mod, "MIN_OBLIGATIONS", 1)
    if len(ck.obs) < expected and not bad:
        ck.incomplete.append("only %d obligations generated (expected at least %d)" % (len(ck.obs), expected))
    need = bool(bad or ck.incomplete)
    always = getattr(mod, "ALWAYS", True) or ck.tier == "thorough"
    hs, htext, hcases = "none", "", 0
    cex = None
    for o in refuted:
        if o.witness:
            cex = ";".join("%s=%s" % kv for kv in sorted(o.witness.items()))
            break
    if early:
        hs, htext, hcases = early
    elif need or always:
        hs, htext, hcases = run_harness(built, ck, cex)
    verdict, nfi = "ok", False
    if hs == "fail":
        verdict = "violation"
    elif refuted:
        verdict, nfi = "violation", True
    for l in known_findings(pid):
        print("KNOWN-FINDING: " + l)
    # ---- evidence
    be = {}
    for o in ck.obs:
        if o.status == "proved":
            be[o.backend] = be.get(o.backend, 0) + 1
    full = not need
    ev = {
        "property": pid, "tier": ck.tier, "seed": ck.seed,
        "level": "proof" if (full or refuted) else "other",
        "coverage": {
            "obligations": len(ck.obs), "discharged": len(ck.obs) - len(bad),
            "backends": be, "solver_time_s": round(sum(o.t for o in ck.obs) + Stats.time, 2),
            "functions_under_contract": [{"function": k, "at": v} for k, v in sorted(ck.fns.items())],
            "loop_invariants": ck.invs,
            "undischarged": [{"name": o.name, "at": str(o.loc), "status": o.status} for o in bad],
            "vacuity_checks": len(ck.reach) + ck.nreach,
            "checker_cmd": "python3-vt /verif/check.py %s" % pid,
            "trusted_base": ck.trusted or ["clang 18 front end (AST of /repo's instantiated templates)", "slpv verification-condition generator", "z3", "library models in slpv/models.py"],
            "bounded_standins": ck.bounded + (["bounded: harness executed %d cases on the compiled real code" % hcases] if hs == "ok" else []),
            "samples": (ck.samples or [{"obligation": o.name, "at": str(o.loc), "goal": str(o.goal)[:300], "backend": o.backend} for o in ck.obs[:3]]),
            "evaluations": hcases,
            "incomplete": ck.incomplete,
            "explanation": ("every obligation discharged" if full else
                            "DEGRADED: the verifier did not accept every obligation on this tree (see undischarged/incomplete); the bounded harness on the real code stood in, and nothing is counted as proved beyond the discharged obligations"),
        },
        "assumptions": ck.assume + ck.notes,
        "wall_s": round(time.time() - ck.t0, 2),
        "violations": 1 if verdict == "violation" else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged (%s), %d refuted, %d unknown, %d gaps; harness %s (%d cases); %.1fs" % (
        pid, len(ck.obs), len(ck.obs) - len(bad), be, len(refuted), len(unknown), len(ck.incomplete), hs, hcases, time.time() - ck.t0))
    for x in ck.incomplete:
        print("  gap: " + x)
    for o in bad[:20]:
        print("  %s: %s [%s] at %s %s" % (o.status, o.name, o.where, o.loc, o.witness or ""))
        if os.environ.get("SLPV_DEBUG"):
            print("     goal:", str(o.goal)[:800])
            print("     model:", o.detail[:1500])
    if verdict == "violation":
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = ["property %s" % pid, "repository %s" % PR.REPO, ""]
        if bad or ck.incomplete:
            body.append("Failed obligations:")
            for o in bad:
                body += ["* %s (%s) at %s: %s by %s" % (o.name, o.where, o.loc, o.status, o.backend),
                         "  goal: %s" % str(o.goal)[:1500], "  counterexample inputs: %s" % (o.witness,), "  verifier output: %s" % o.detail[:2500]]
            for x in ck.incomplete:
                body.append("* gap: " + x)
        if hs == "fail":
            body += ["", "Replayed on the compiled real code:", htext]
        elif hs != "none":
            body += ["", "Harness (%s): %s" % (hs, htext[-2000:])]
        txt = "\n".join(body) + "\n"
        path = os.path.join(VERIF, "replays", "%s-%s.txt" % (pid, hashlib.sha256(txt.encode()).hexdigest()[:10]))
        open(path, "w").write(txt)
        if hs == "fail":
            print(htext[-1500:])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, " no-failing-input-found" if nfi else ""))
        return 1
    return 0
