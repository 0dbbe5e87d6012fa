"""Framework of the checks: runs the abstract interpreter on entry functions and
counts obligations.  An obligation that cannot be discharged is a violation; an
anchor that has vanished or a construct that cannot be analysed is an error."""
import json, os, time
import frontend
from frontend import AnalysisError, HERE, REPO
from engine import LoopSum, showev
from stdmodel import *

NOJOIN = False


class Res:
    """the outcomes of one analysed entry function"""

    def __init__(self, fn, E, outs):
        self.fn, self.E, self.outs, self.loops, self.accesses = fn, E, outs, E.loops, E.accesses
        self.nat = dict(NAT)

    @property
    def rets(self):
        return [o for o in self.outs if o.kind == "ret"]

    @property
    def throws(self):
        return [o for o in self.outs if o.kind != "ret"]


_RUNS = {}


class fresh_ranges:
    """the ranges that types give to terms belong to one run: another function's arg0 has another type"""

    def __enter__(self):
        self.old = dict(NAT)
        NAT.clear()

    def __exit__(self, *a):
        NAT.clear()
        NAT.update(self.old)


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.n = self.ok = 0
        self.rules = {}
        self.viol = []
        self.functions, self.configs = set(), set()
        self.paths = self.loops = self.accesses = 0
        self.notes = []
        self.samples = []
        self.assumptions = []
        self.counts = {}
        self.config = "default"
        self.merged = set()
        NAT.clear()

    # -- program ------------------------------------------------------------
    @property
    def P(self):
        self.configs.add(self.config + ("@" + frontend.STD if frontend.STD else ""))
        return frontend.program(self.config)

    def fn(self, qn, nparams=None, cls=None, pred=None):
        return self.P.fn(qn, nparams, cls, pred)

    def fns(self, qn, nparams=None, cls=None, pred=None):
        r = self.P.fns_named(qn, nparams, cls, pred)
        if not r:
            raise AnalysisError("anchor %s not found" % qn)
        return r

    def run(self, fn, mode="none", opaque=(), facts=None, nojoin=False, setup=None, tag=None, sizes=None, watch=(), **kw):
        """facts: list of (op, a, b) integer facts assumed on entry"""
        key = (self.config, frontend.STD, fn.key, mode, frozenset(opaque), tuple(facts or ()), nojoin, tag, tuple(watch), tuple(sorted((sizes or {}).items(), key=repr)), tuple(sorted(kw)))
        r = _RUNS.get(key)
        if r is None:
            E = Interp(self.P, throws=mode, opaque=opaque)
            E.watch = tuple(watch)
            if setup:
                setup(E)
            st = State()
            st.facts = st.facts.copy()
            for op, a, b in facts or ():
                s2 = assume_int(st, op, a, b)
                if s2 is None:
                    raise AnalysisError("contradictory entry facts")
                st = s2
            set_nojoin(nojoin)
            SIZES.update(sizes or {})
            with fresh_ranges():
                try:
                    outs = E.entry(fn, st=st, **kw)
                finally:
                    set_nojoin(False)
                    SIZES.clear()
                r = _RUNS[key] = Res(fn, E, outs)
        self.seen(r)
        return r

    def destroy(self, clskey, mode="none", watch=()):
        """destruction of an object of the class (destructor body, then its fields in reverse order)"""
        import engine
        key = (self.config, frontend.STD, "destroy", clskey, mode, tuple(watch))
        r = _RUNS.get(key)
        if r is None:
            fs = [f for f in self.P.fns.values() if f.cls == clskey and f.clst is not None]
            if not fs:
                raise AnalysisError("class %s has no analysable functions" % clskey)
            E = Interp(self.P, throws=mode)
            E.watch = tuple(watch)
            E.sink = []
            E.frames = [engine.Frame(fs[0], 0, ("sym", "this"), {}, None, "entry")]
            with fresh_ranges():
                try:
                    outs = [engine.Outcome("ret", s, None) for s in E.destroy(State(), (THISROOT, ()), fs[0].clst)]
                    outs += [engine.Outcome("throw", s, None, x) for s, x in E.sink]
                finally:
                    E.frames, E.sink = [], []
                r = _RUNS[key] = Res(fs[0], E, outs)
        self.seen(r)
        return r

    def seen(self, r):
        if id(r) not in self.merged:
            self.merged.add(id(r))
            for t, v in r.nat.items():
                NAT[t] = v.union(NAT[t]) if t in NAT and NAT[t] != v else v
        self.functions.add(r.fn.qn + ("<%s>" % ",".join(str(t) for t in r.fn.ta) if r.fn.ta else ""))
        self.functions |= {f.qn for f in r.E.visited}
        self.paths += len(r.outs)
        self.loops += len(r.loops)
        self.accesses += len(r.accesses)

    # -- obligations ----------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def req(self, cond, rule, site, msg=""):
        self.n += 1
        c = self.counts.setdefault(rule, [0, 0])
        c[0] += 1
        if cond:
            self.ok += 1
            c[1] += 1
            return True
        v = (rule, str(site), msg() if callable(msg) else msg)
        if v not in self.viol:
            self.viol.append(v)
        return False

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def where(self, fn):
        return "%s:%s (%s)" % (fn.file, fn.line, sig(fn))


def sig(fn):
    return "%s(%s)" % (fn.qn, ", ".join(str(p["t"]) for p in fn.params))


def set_nojoin(v):
    import engine, state
    state.NOJOIN[0] = v


# ---- terms ----------------------------------------------------------------------

def arg(n):
    """value of parameter n"""
    return ("deref", ("sym", "arg%d" % n))


THISROOT = ("p", ("sym", "this"))


def fld(*names):
    t = THIS
    for n in names:
        t = ("fld", t, n)
    return t


def thisloc(*steps):
    return (THISROOT, tuple(s if isinstance(s, tuple) else ("f", s) for s in steps))


def summands(t):
    """a floating (or integer) sum as a sorted list of its summands"""
    if t[0] == "fop" and t[1] == "+":
        return sorted(summands(t[2]) + summands(t[3]), key=repr)
    if t[0] == "fneg" and t[1][0] == "fop" and t[1][1] == "+":
        return sorted([fneg(x) for x in summands(t[1])], key=repr)
    if t == ("f", 0.0) or t == ("f", -0.0) or t == ("i", 0):
        return []
    if t[0] == "lin":
        out = []
        if t[1]:
            out.append(("i", t[1]))
        for x, c in t[2]:
            out += [x if c == 1 else scale(x, c)]
        return sorted(out, key=repr)
    if t[0] == "i2f" and t[1][0] == "i":
        return summands(("f", float(t[1][1])))
    return [t]


def minus(total, part):
    """summands of total - part, or None when part is not one of them"""
    if part == ZEROV:
        part = ("f", 0.0)
    l = summands(total)
    for p in summands(part):
        if p not in l:
            return None
        l.remove(p)
    return l


# ---- effects ----------------------------------------------------------------------

class Mod:
    """one modification of an atomic object"""

    def __init__(self, kind, loc, val, ev):
        self.kind, self.loc, self.val, self.ev = kind, loc, val, ev
        self.site = evsite(ev)

    def __repr__(self):
        return "%s %s %s" % (self.kind, showloc(self.loc), self.val if self.kind == "bad" else
                             [show(x) for x in self.val] if isinstance(self.val, list) else show(self.val))


class LoopMods:
    kind = "loop"

    def __init__(self, S, mode, trans):
        self.S, self.mode, self.trans = S, mode, trans
        self.site = S.site

    def __repr__(self):
        return "loop %s %s %s" % (self.S.site, self.mode, [m for t, m in self.trans])


def evsite(ev):
    for x in reversed(ev):
        if isinstance(x, str) and ":" in x and x.rsplit(":", 1)[1].isdigit():
            return x
    return "?"


def mods(events, sel=None):
    """the modifications of atomics in an event list, nested like the loops"""
    out = []
    for e in events:
        k = e[0]
        if k == "loop":
            ts = [(t, mods(t.events, sel)) for t in e[1].trans]
            if any(m for t, m in ts):
                out.append(LoopMods(e[1], e[2], ts))
            continue
        if k not in ("astore", "armw", "cas"):
            continue
        if sel and not sel(e[1]):
            continue
        if k == "astore":
            out.append(Mod("set", e[1], e[2], e))
        elif k == "armw":
            if e[2] == "=":
                out.append(Mod("set", e[1], e[3], e))
            elif e[2] == "+":
                out.append(Mod("add", e[1], summands(e[3]), e))
            elif e[2] == "-":
                out.append(Mod("add", e[1], summands(fneg(e[3])), e))
            else:
                out.append(Mod("bad", e[1], "read-modify-write with operator %s" % e[2], e))
        else:
            d = minus(e[3], e[2])
            if d is None:
                out.append(Mod("bad", e[1], "compare-and-exchange of %s by %s is not an addition to the expected value"
                               % (show(e[2]), show(e[3])), e))
            else:
                out.append(Mod("add", e[1], d, e))
    return out


def walk(events, loops=()):
    """(event, enclosing loops) of all events, nested ones included"""
    for e in events:
        if e[0] == "loop":
            yield e, loops
            for t in e[1].trans:
                yield from walk(t.events, loops + ((e[1], e[2], t),))
        else:
            yield e, loops


def fields_after(o, loc=None):
    """final value of *this (or of a location)"""
    return o.st.get(loc or (THISROOT, ()))


def classes_of(fa, t):
    return fcls(t, fa)


def relation(fa, a, b):
    r = getrel(fa, a, b, REL_F)
    return r


def describe(o, n=40):
    out = ["%s %s" % (o.kind, o.exc or "")]
    for e in o.events[:n]:
        out.append("    " + showev(e)[:600])
    out.append("    if " + repr(o.facts)[:600])
    return "\n".join(out)


# ---- results ------------------------------------------------------------------------

def known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split(" ", 3)[1:3])
                out.setdefault(f["property"], []).append((f["rule"], l.split(" ", 3)[3]))
    return out


def finish(c, t0, technique, level, explanation):
    """writes evidence and report; returns the exit status"""
    kf = known().get(c.pid, [])
    fresh, listed = [], []
    for v in c.viol:
        h = [k for k in kf if k[0] == v[0] and k[1] in v[1] + " " + v[2]]
        (listed if h else fresh).append(v)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": c.pid, "tier": c.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": c.n, "discharged": c.ok,
            "obligations_by_rule": {k: {"checked": v[0], "discharged": v[1], "rule": c.rules.get(k, "")}
                                    for k, v in sorted(c.counts.items())},
            "functions": sorted(c.functions), "functions_analysed": len(c.functions),
            "paths": c.paths, "loops_summarised": c.loops, "accesses": c.accesses,
            "configurations": sorted(c.configs), "samples": c.samples, "notes": c.notes,
            "exhaustive": True,
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    json.dump(ev, open(os.path.join(d, c.pid + ".json"), "w"), indent=1, default=str)
    rep = os.path.join(d, c.pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s\nsource tree %s\n%d obligations, %d discharged\n" % (c.pid, REPO, c.n, c.ok))
        for r, s, m in c.viol:
            f.write("\n[%s] %s\n  rule: %s\n  %s\n" % (r, s, c.rules.get(r, ""), m))
    for r, s, m in listed:
        print("KNOWN-FINDING: property=%s [%s] %s %s" % (c.pid, r, s, m.split("\n")[0]))
    for r, s, m in fresh:
        print("%s [%s] %s: %s" % (c.pid, r, s, m))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (c.pid, rep))
        return 1
    print("%s ok: %d obligations over %d functions, %d paths, %d loops (%.1f s)" % (
        c.pid, c.n, len(c.functions), c.paths, c.loops, time.time() - t0))
    return 0


def retval(o):
    """value of the result"""
    if o.val is None:
        return ("void",)
    return o.st.get(o.val[1]) if o.val[0] == "L" else o.val[1]


def path(v, *steps):
    for s in steps:
        v = proj(v, s if isinstance(s, tuple) else ("f", s))
    return v


def iszero(v):
    if v == ZEROV or v in (("i", 0), ("f", 0.0), ("f", -0.0), NULL):
        return True
    if v[0] == "obj":
        return all(iszero(x) for f, x in v[2])
    if v[0] == "upd":
        return iszero(v[1]) and all(iszero(x) for s, x in v[2])
    return False


def public_methods(c, clskey, const=None):
    """definitions of the public methods of a class, without special members"""
    cl = c.P.cls(clskey)
    out = []
    for m in cl["methods"]:
        if m["kind"] != "method" or m["acc"] != "public" or m["deleted"] or m["implicit"] or m["static"]:
            continue
        if m["name"].startswith("operator="):
            continue
        f = c.P.fns.get(m["key"])
        if f is None or f.body is None:
            continue
        if const is None or bool(f.const) == const:
            out.append(f)
    if not out:
        raise AnalysisError("class %s has no analysable public methods" % clskey)
    return out


def store_mods(o, root=THISROOT):
    """plain (non atomic) modifications of *this on a path"""
    out = []

    def go(new, loc):
        if new[0] == "upd":
            for s, x in new[2]:
                go(x, (loc[0], loc[1] + (s,)))
            return
        old = State().get(loc)
        if new == old:
            return
        d = None
        if new[0] in ("lin", "fop", "i", "f"):
            d = minus(new, old) if new[0] in ("lin", "fop") else None
            if d is None and new[0] == "lin":
                x = sub(new, old)
                d = summands(x) if not occurs(x, lambda y: y == old) else None
        out.append(Mod("add", loc, d, ()) if d is not None else Mod("set", loc, new, ()))
    v = o.st.store.get(root)
    if v is not None:
        go(v, (root, ()))
    return out


def effects(o):
    """every modification of the object on a path: atomics, then plain fields"""
    def mine(l):
        return l[0] == THISROOT
    return mods(o.events, mine) + store_mods(o)


def noidx(loc):
    """location with every index generalised"""
    return (loc[0], tuple(s if s[0] == "f" else ("x",) for s in loc[1]))


def showpath(p):
    return "".join("[]" if s == ("x",) else "." + s[1] for s in p).lstrip(".")


def scalar_load(v):
    """location whose value v is (an atomic load or a plain read)"""
    if v[0] == "ald":
        return v[1]

    def go(t):
        if t == THIS:
            return ()
        if t[0] == "fld":
            p = go(t[1])
            return None if p is None else p + (("f", t[2]),)
        if t[0] == "elem":
            p = go(t[1])
            return None if p is None else p + (("x", t[2]),)
        return None
    p = go(v)
    return None if p is None else (THISROOT, p)


WIDE = 64


def plain(t):
    """sum without value preserving conversions; None when one of them may lose"""
    if t[0] in ("f2i", "cvt"):
        if t[1] and t[1] < WIDE:
            return None
        return plain(t[3])
    if t[0] == "i2f":
        return plain(t[1])
    if t[0] == "fop" and t[1] == "+":
        a, b = plain(t[2]), plain(t[3])
        return None if a is None or b is None else sorted(a + b, key=repr)
    if t[0] == "lin":
        out = [("i", t[1])] if t[1] else []
        for x, c in t[2]:
            p = plain(x)
            if p is None or c != 1:
                return None
            out += p
        return sorted(out, key=repr)
    if t in (("i", 0), ("f", 0.0), ZEROV):
        return []
    return [t]


def same(a, b, fa):
    """integer terms that are equal under the facts"""
    d = sub(a, b)
    if d == ("i", 0):
        return True
    return rng(d, fa) == ZERO
