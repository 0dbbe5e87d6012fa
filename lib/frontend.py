"""Builds the resolved program model of /repo's current working tree.

cmake is run in a scratch directory (real flags, generated headers), every
translation unit is type-checked by the libTooling exporter `promx`, and the
per-unit JSON is merged into one Program.  Nothing of the repository is run."""
import atexit, json, os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class AnalysisError(Exception):
    """The analysis cannot give an answer (exit 2): build failure, vanished
    anchor, unsupported construct."""


class Ty:
    __slots__ = ("s", "k", "pt", "const", "qn", "ta", "proj", "w", "sg", "char", "lam", "n",
                 "trivdtor", "trivcopy")

    def __init__(self):
        self.pt = self.qn = self.lam = None
        self.ta = ()
        self.const = self.proj = self.char = 0
        self.w = self.sg = self.n = 0
        self.trivdtor = self.trivcopy = 1

    def __repr__(self):
        return self.s

    def isref(self):
        return self.k in ("ref", "rref")

    def strip(self):
        return self.pt if self.isref() else self


class Fn:
    """One function definition."""
    __slots__ = ("key", "qn", "file", "line", "ret", "const", "kind", "cls", "clst", "static", "virtual",
                 "acc", "implicit", "nothrow", "params", "inits", "body", "lam", "ta", "internal", "tu", "d")

    def __repr__(self):
        return "<%s %s:%s>" % (self.qn, self.file, self.line)

    @property
    def name(self):
        return self.qn.split("::")[-1]


class Program:
    def __init__(self, name):
        self.name = name
        self.fns = {}
        self.byqn = {}
        self.classes = {}
        self.globals = {}
        self.enums = {}
        self.units = []
        self.overriders = {}

    def fn(self, qn, nparams=None, cls=None, pred=None):
        r = self.fns_named(qn, nparams, cls, pred)
        if len(r) != 1:
            raise AnalysisError("anchor %s%s: expected one definition, found %d"
                                % (cls + " " if cls else "", qn, len(r)))
        return r[0]

    def fns_named(self, qn, nparams=None, cls=None, pred=None):
        r = []
        for f in self.byqn.get(qn, []):
            if nparams is not None and len(f.params) != nparams:
                continue
            if cls is not None and f.cls != cls:
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        return r

    def methods_of(self, clskey):
        return [f for f in self.fns.values() if f.cls == clskey and f.kind in ("method", "ctor", "dtor")]

    def cls(self, key):
        c = self.classes.get(key)
        if c is None:
            raise AnalysisError("anchor class %s not found" % key)
        return c


_TMP = None


def scratch():
    global _TMP
    if _TMP is None:
        _TMP = tempfile.mkdtemp(prefix="promcheck.")
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP


def tool():
    out = os.path.join(HERE, "build", "promx")
    src = os.path.join(HERE, "tool", "promx.cc")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        odir = os.path.join(HERE, "build")
        if not os.access(HERE, os.W_OK):
            odir = scratch()
            out = os.path.join(odir, "promx")
        r = subprocess.run(["make", "-s", "-B", "-C", os.path.join(HERE, "tool"), "OUT=" + odir],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build the exporter:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    return out


def configure():
    d = os.path.join(scratch(), "cfg")
    if os.path.exists(os.path.join(d, "compile_commands.json")):
        return d
    env = dict(os.environ, CC="gcc", CXX="g++", LANG="C.UTF-8")
    r = subprocess.run(
        ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
         "-DENABLE_TESTING=OFF", "-DUSE_THIRDPARTY_LIBRARIES=OFF", "-DENABLE_PULL=ON",
         "-DENABLE_PUSH=ON", "-DENABLE_COMPRESSION=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"],
        capture_output=True, text=True, env=env)
    if r.returncode or not os.path.exists(os.path.join(d, "compile_commands.json")):
        raise AnalysisError("cmake failed:\n" + r.stderr[-3000:])
    return d


def commands():
    out = []
    for c in json.load(open(os.path.join(configure(), "compile_commands.json"))):
        f = os.path.realpath(os.path.join(c["directory"], c["file"]))
        if not f.endswith((".cc", ".cpp", ".cxx")):
            continue
        rel = os.path.relpath(f, REPO)
        if rel.startswith(("..", "3rdparty")):
            continue
        a = shlex.split(c["command"])[1:]
        fl, i = [], 0
        while i < len(a):
            if a[i] == "-o":
                i += 2
                continue
            if a[i] == "-c" or os.path.realpath(os.path.join(c["directory"], a[i])) == f:
                i += 1
                continue
            fl.append(a[i])
            i += 1
        out.append((rel, f, [x for x in fl if not x.startswith(("-O", "-g"))] + ["-DNDEBUG"]))
    if not out:
        raise AnalysisError("no translation units found")
    return out


def roots():
    r = []
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d)
        if os.path.isdir(p) and not d.startswith(("_", ".")) and d not in ("3rdparty", "cmake", "bazel", "doc"):
            r.append(p + "/")
    return r + [os.path.join(HERE, "lib") + "/"]


def export(jobs):
    """jobs: [(tag, file, flags)] -> {tag: json}"""
    t, rs = tool(), roots()
    od = tempfile.mkdtemp(dir=scratch())

    def go(j):
        n, (tag, f, fl) = j
        o = os.path.join(od, "%d.json" % n)
        cmd = [t]
        for r in rs:
            cmd += ["--root", r]
        cmd += ["--out", o, f, "--"] + fl
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode or not os.path.exists(o):
            raise AnalysisError("cannot type-check %s:\n%s" % (f, p.stderr[-3000:]))
        return tag, json.load(open(o))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(go, enumerate(jobs)))


def _types(doc, tu):
    tys = [Ty() for _ in doc["types"]]
    for o, t in zip(doc["types"], tys):
        t.s, t.k = o["s"], o["k"]
        if o.get("pt", -1) >= 0:
            t.pt = tys[o["pt"]]
        t.const = o.get("const", 0)
        t.qn = o.get("qn")
        t.proj = o.get("proj", 0)
        t.w, t.sg, t.char = o.get("w", 0), o.get("sg", 0), o.get("char", 0)
        t.n = o.get("n", 0)
        t.trivdtor = o.get("trivdtor", 1)
        t.trivcopy = o.get("trivcopy", 1)
        if "lambda" in o:
            t.lam = "lambda#%s@%d" % (o["lambda"], tu)
        t.ta = tuple(tys[a] if isinstance(a, int) else (a["v"] if a else None) for a in o.get("ta", ()))
    return tys


TKEYS = ("t", "of", "cls", "ret", "et", "ct", "clst", "base")


def _fix(x, tys, files, tu):
    """Resolves type indices, file indices and unit-local keys in place."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in TKEYS and isinstance(v, int) and not isinstance(v, bool):
                x[k] = tys[v] if v >= 0 else None
            elif k in ("params", "ta", "bases") and isinstance(v, list) and (not v or not isinstance(v[0], dict) or "v" in v[0]):
                x[k] = [tys[a] if isinstance(a, int) and a >= 0 else a for a in v]
            elif k in ("l", "loc", "end") and isinstance(v, list) and len(v) == 3 and isinstance(v[0], int):
                x[k] = (files[v[0]], v[1], v[2])
            elif k == "key" and isinstance(v, str) and (v.startswith("lambda#") or "#" in v and _local(v)):
                x[k] = "%s@%d" % (v, tu)
            elif isinstance(v, (dict, list)):
                _fix(v, tys, files, tu)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                _fix(v, tys, files, tu)


def _local(v):
    return v.startswith("anon#")


def load(jobs, name="default"):
    P = Program(name)
    for tu, (tag, doc) in enumerate(export(jobs)):
        P.units.append(tag)
        tys = _types(doc, tu)
        files = [os.path.relpath(f, REPO) if f.startswith(REPO + "/") else f for f in doc["files"]]
        for sect in ("functions", "classes", "globals"):
            _fix(doc[sect], tys, files, tu)
        for d in doc["functions"]:
            f = Fn()
            f.d, f.tu = d, tu
            f.key, f.qn, f.ret = d["key"], d["qn"], d["ret"]
            f.file, f.line = (d["loc"] or ("?", 0, 0))[:2]
            f.const, f.kind, f.cls, f.clst = d["const"], d["kind"], d.get("cls"), d.get("clst")
            f.static, f.virtual, f.acc = d.get("static", 0), d.get("virtual", 0), d.get("acc", "none")
            f.implicit, f.nothrow, f.internal = d["implicit"], d.get("nothrow", 0), d["internal"]
            f.params, f.inits, f.body = d["params"], d.get("inits", ()), d["body"]
            f.lam = d.get("lambda")
            f.ta = tuple(d.get("ta", ()))
            if f.key in P.fns:
                continue
            P.fns[f.key] = f
            P.byqn.setdefault(f.qn, []).append(f)
        for c in doc["classes"]:
            if c["key"] not in P.classes and "lambda" not in c:
                P.classes[c["key"]] = c
            elif "lambda" in c:
                P.classes["lambda#%s@%d" % (c["lambda"], tu)] = c
        P.enums.update(doc["enums"])
        for g in doc["globals"]:
            P.globals.setdefault(g["qn"], g)
            P.globals[(tu, g["id"])] = g
    for c in P.classes.values():
        for m in c["methods"]:
            for o in m["overrides"]:
                P.overriders.setdefault(o, []).append(m["key"])
    return P


_CACHE = {}
STD = None      # language version to analyse instead of the build's own (thorough runs)


def program(name="default"):
    if STD:
        name = name + "@" + STD
    if name in _CACHE:
        return _CACHE[name]
    full, name = name, name.split("@")[0]
    cmds = commands()
    cfg = configure()
    if name == "default":
        jobs = [(r, f, fl) for r, f, fl in cmds]
        inc = []
        for _, _, fl in cmds:
            for x in fl:
                if x.startswith("-I") and x not in inc:
                    inc.append(x)
        inst = os.path.join(HERE, "lib", "instantiate.cc")
        jobs.append(("instantiate.cc", inst, inc + ["-std=c++11", "-DNDEBUG"]))
    elif name == "cxx20":
        jobs = [(r, f, [x for x in fl if not x.startswith("-std=")] + ["-std=c++20"])
                for r, f, fl in cmds if r.startswith("core/")]
    elif name == "nozlib":
        jobs = [(r, f, [x for x in fl if x != "-DHAVE_ZLIB"]) for r, f, fl in cmds]
    else:
        raise AnalysisError("unknown configuration " + name)
    if not jobs:
        raise AnalysisError("no translation units for configuration " + name)
    if STD:
        jobs = [(r, f, [x for x in fl if not x.startswith("-std=")] + ["-std=" + STD]) for r, f, fl in jobs]
    _CACHE[full] = load(jobs, full)
    return _CACHE[full]
