"""Builds the AST extractor when missing, extracts /repo's C++ sources (current
working tree) and offers the result as a queryable program database."""
import hashlib, json, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYM = os.path.join(REPO, "symbolics")
CACHE = os.path.join(VERIF, ".cache")
GROUPS = {
    "core": ".", "functions": "functions", "graph": "graph",
    "printer": "printer", "writer": "writer", "wrapper": "wrapper",
}


class Broken(Exception):
    """The analysis itself cannot answer (missing anchor, unparsable source...)."""


def _sha(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, "tools", "astdump.cpp")
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "astdump-" + _sha([src]))
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d" % os.getpid()
    so1 = glob.glob("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1") or glob.glob("/usr/lib/llvm-18/lib/libclang-cpp.so*")
    so2 = glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1") or glob.glob("/usr/lib/llvm-18/lib/libLLVM.so*")
    if not so1 or not so2:
        raise Broken("libclang-cpp 18 not found")
    r = subprocess.run(["clang++", "-std=c++17", "-O0", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, so1[0], so2[0]],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build astdump:\n" + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def _pyinc():
    for v in ("3.12", "3.11", "3.10", "3.13"):
        p = "/usr/include/python" + v
        if os.path.exists(p + "/Python.h"):
            return p
    raise Broken("no Python headers")


def cflags():
    inc = [SYM] + [os.path.join(SYM, d, "include") for d in (".", "functions", "graph", "printer", "writer", "wrapper")]
    return ["-std=gnu++17", "-w", "-fpermissive", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + ["-I" + i for i in inc] + ["-isystem", _pyinc()]


def sources(groups):
    out = []
    for g in groups:
        d = os.path.join(SYM, GROUPS[g])
        for f in sorted(glob.glob(os.path.join(d, "*.cpp"))):
            f = os.path.normpath(f)
            # /repo/symbolics/Neg.cpp is a stale duplicate that no CMakeLists.txt builds
            if f == os.path.join(SYM, "Neg.cpp"):
                continue
            out.append(f)
    return out


class DB:
    def __init__(self, groups):
        self.groups = list(groups)
        self.funcs = {}      # usr -> function
        self.byname = {}     # qualified name -> [function]
        self.records = {}    # qualified name -> record
        self.enums = {}
        self.globals = {}
        self.units = []
        exe = tool()
        srcs = sources(groups)
        if not srcs:
            raise Broken("no sources found under " + SYM)
        allsrc = sorted(glob.glob(SYM + "/**/*.h", recursive=True) + glob.glob(SYM + "/**/*.cpp", recursive=True))
        key = _sha(allsrc, open(exe, "rb").read(64) + os.path.basename(exe).encode() + SYM.encode())
        cdir = os.path.join(CACHE, "ast-" + key)
        # only the latest extraction is kept
        for old in glob.glob(os.path.join(CACHE, "ast-*")):
            if old != cdir and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(cdir, exist_ok=True)
        flags = cflags()

        def one(src):
            out = os.path.join(cdir, os.path.relpath(src, SYM).replace("/", "__") + ".jl")
            if not os.path.exists(out):
                tmp = out + ".%d" % os.getpid()
                with open(tmp, "wb") as f:
                    r = subprocess.run([exe, SYM, src, "--"] + flags, stdout=f, stderr=subprocess.PIPE)
                if r.returncode:
                    os.unlink(tmp)
                    raise Broken("cannot parse %s:\n%s" % (src, r.stderr.decode()[-2000:]))
                os.replace(tmp, out)
            return out
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            outs = list(ex.map(one, srcs))
        seen = set()
        for src, out in zip(srcs, outs):
            self.units.append(os.path.relpath(src, REPO))
            with open(out) as f:
                for line in f:
                    # header declarations recur in every unit: skip cheaply
                    h = hash(line)
                    if h in seen:
                        continue
                    seen.add(h)
                    self._add(json.loads(line))
        self._hier()

    def _add(self, d):
        k = d["k"]
        if k == "function":
            u = d["u"]
            if d.get("static") and not d.get("cls"):
                u = u + "@" + d["file"]
            elif u in self.funcs:
                return
            if u in self.funcs:
                return
            self.funcs[u] = d
            self.byname.setdefault(d["f"], []).append(d)
        elif k == "record":
            self.records.setdefault(d["f"], d)
        elif k == "enum":
            self.enums.setdefault(d["f"], d)
        elif k == "global":
            self.globals.setdefault(d["f"] + "@" + d["file"], d)

    def _hier(self):
        self.subs = {}
        for n, r in self.records.items():
            for b in r["bases"]:
                self.subs.setdefault(b, set()).add(n)

    def bases(self, cls):
        """cls and its bases, nearest first"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo += r["bases"]
        return out

    def derived(self, cls):
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            todo += self.subs.get(c, ())
        return out

    def func(self, qname, nparams=None, pred=None):
        c = [f for f in self.byname.get(qname, ()) if (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
        return c

    def one(self, qname, nparams=None, pred=None):
        c = self.func(qname, nparams, pred)
        if len(c) != 1:
            raise Broken("anchor %s/%s: %d definitions" % (qname, nparams, len(c)))
        return c[0]

    def resolve_virtual(self, cls, usr, name, nparams=None):
        """final overrider of the method `usr` for dynamic class `cls` (or None)"""
        want = usr.split("@F@", 1)[-1] if "@F@" in usr else None
        for c in self.bases(cls):
            for f in self.byname.get(c + "::" + name, ()):
                sig = f["u"].split("@F@", 1)[-1]
                if want is None or sig == want:
                    return f
        return None


def rel(path):
    return os.path.relpath(path, REPO)


def walk(n, f):
    """pre-order visit of every dict node"""
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                walk(v, f)


def nodes(n, kind=None):
    out = []
    walk(n, lambda x: out.append(x) if (kind is None or x.get("k") == kind) else None)
    return out


if __name__ == "__main__":
    try:
        tool()
        print("extractor ready")
    except Broken as b:
        print(b)
        sys.exit(2)
