"""Loads the AST dump produced by tools/slpdump.cpp from /repo's current sources."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLPV_REPO", "/repo")
SHIM = os.path.join(HERE, "shim")


class ToolError(Exception):
    pass


def cxxflags(extra=()):
    return ["-std=c++23", "-I" + SHIM, "-I" + REPO + "/include", "-I/usr/include/eigen3",
            "-include", "slp_compat.hpp",
            '-DEIGEN_MATRIXBASE_PLUGIN="eigen_matrixbase_plugin.inc"',
            '-DEIGEN_SPARSEMATRIX_PLUGIN="eigen_sparsematrix_plugin.inc"'] + list(extra)


def build_dir():
    d = os.environ.get("SLPV_BUILD") or os.path.join(HERE, "build")
    os.makedirs(d, exist_ok=True)
    return d


def plugin():
    src = os.path.join(HERE, "tools", "slpdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(build_dir(), "slpdump-%s.so" % h)
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++-18", "-std=c++17", "-fno-rtti", "-O0", "-shared", "-fPIC",
                            "-I/usr/lib/llvm-18/include", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("plugin build failed: " + r.stderr[-2000:])
        os.replace(tmp, so)
    return so


def dump(tu_path, extra=()):
    """Parse a TU against /repo's current headers; returns Program."""
    so = plugin()
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        cmd = ["clang++-18"] + cxxflags(extra) + [
            "-fplugin=" + so, "-fplugin-arg-slpdump-out=" + out,
            "-fplugin-arg-slpdump-prefix=" + REPO + "/", "-fplugin-arg-slpdump-prefix=" + HERE + "/",
            "-fplugin-arg-slpdump-prefix=" + tu_path,
            "-fsyntax-only", "-w", tu_path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode or os.path.getsize(out) == 0:
            raise ToolError("clang failed on %s: %s" % (tu_path, r.stderr[-3000:]))
        return Program(json.load(open(out)))
    finally:
        os.unlink(out)


def dump_src(src, extra=()):
    fd, p = tempfile.mkstemp(suffix=".cpp")
    os.write(fd, src.encode())
    os.close(fd)
    try:
        return dump(p, extra)
    finally:
        os.unlink(p)


class Program:
    def __init__(self, d):
        self.types = d["types"]
        self.funcs = {}
        for f in d["functions"]:
            if f:
                self.funcs[f["fn"]["id"]] = f
        self.records = {r["id"]: r for r in d["records"] if r}
        self.enums = {e["n"]: e["vals"] for e in d["enums"] if e}
        self.globals = {g["id"]: g for g in d["globals"] if g}

    # types are index*2+const
    def ty(self, t):
        return self.types[t // 2]

    def tstr(self, t):
        return self.ty(t)["s"]

    def strip_ref(self, t):
        while self.ty(t)["k"] in ("lref", "rref"):
            t = self.ty(t)["p"]
        return t

    def rec_of(self, t):
        ty = self.ty(t)
        return self.records.get(ty.get("id")) if ty["k"] == "rec" else None

    def rec_named(self, regex):
        return [r for r in self.records.values() if re.search(regex, self.tstr(r["t"]))]

    def cls_str(self, f):
        c = f["fn"].get("cls")
        return self.tstr(c) if c is not None else None

    def find(self, qn, nparams=None, cls=None, pred=None, kind=None):
        """Functions whose qualified name matches the regex."""
        out = []
        for f in self.funcs.values():
            if not re.search(qn, f["fn"]["qn"]):
                continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if cls is not None and not (f["fn"].get("cls") is not None and re.search(cls, self.tstr(f["fn"]["cls"]))):
                continue
            if kind is not None and f["kind"] != kind:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def one(self, qn, **kw):
        r = self.find(qn, **kw)
        if len(r) != 1:
            raise ToolError("expected one function %s %s, found %d: %s" % (
                qn, kw, len(r), [(x["fn"]["qn"], x["loc"], [self.tstr(p["t"]) for p in x["params"]]) for x in r][:8]))
        return r[0]

    def params(self, f):
        return [self.tstr(p["t"]) for p in f["params"]]
