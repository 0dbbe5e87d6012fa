"""C01 and C25: shared state and locks."""
from chk import *

NS = "prometheus::"
PLAIN = ("Counter", "Gauge", "Histogram", "Summary", "Info", "Registry", "Exposer", "Gateway", "BasicAuthHandler",
         "detail::MetricsHandler", "detail::CurlWrapper")
TYPES = ("Counter", "Gauge", "Histogram", "Info", "Summary")
# classes whose objects are used by several threads at once; others belong to the object that contains them
SHARED = [NS + n for n in PLAIN] + [NS + "Family<%s%s>" % (NS, t) for t in TYPES]
COLLECTFN = NS + "Collectable::Collect"


def publics(c, cls):
    return sorted((f for f in c.P.fns.values() if f.cls == cls and f.kind == "method" and f.acc == "public" and not f.implicit
                   and f.body is not None and not f.qn.endswith("operator=")), key=lambda f: (f.file, f.line, f.key))


def entries(c):
    """(function, its class if shared): the public operations of shared objects, and other public code given shared objects"""
    out = []
    for cls in SHARED:
        fs = publics(c, cls)
        if not fs:
            raise AnalysisError("class %s has no public operations" % cls)
        out += [(f, cls) for f in fs]
    known = {f.key for f, _ in out}
    for f in sorted(c.P.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.key in known or f.body is None or f.implicit or f.cls in SHARED or f.kind not in ("method", "function"):
            continue
        if f.kind == "method" and f.acc != "public" or not f.qn.startswith(NS) or f.qn == SERIALIZE:
            continue
        if any(shared_type(p["t"]) for p in f.params):
            out.append((f, None))
    return out


def shared_type(t):
    """the shared class a parameter refers to"""
    x = t.pt if t.k in ("lref", "rref", "ptr", "ref") and t.pt is not None else t.strip() if t.isref() else None
    if x is None:
        return None
    s = x.s[6:] if x.s.startswith("const ") else x.s
    return s if s in SHARED else None


def runs(c):
    """(function, its class if shared, result) for the entries and for what they do not reach"""
    seen = set()
    for f, cls in entries(c):
        r = c.run(f, opaque=opaque_for(c, f, cls), tag="threads")
        seen |= {g.key for g in r.E.visited}
        yield f, cls, r
    # code that is reached by no operation of a shared object may still use global state
    for kinds in (("method", "function"), ("ctor",)):
        for f in sorted(c.P.fns.values(), key=lambda f: (f.file, f.line, f.key)):
            if f.key in seen or f.body is None or f.implicit or f.kind not in kinds or not f.qn.startswith(NS):
                continue
            if f.kind != "function" and f.acc != "public":
                continue
            r = c.run(f, opaque=opaque_for(c, f, f.cls), tag="threads")
            seen |= {g.key for g in r.E.visited}
            yield f, f.cls, r


class Paths:
    """names of the objects and fields a run refers to, independent of indices and instances"""

    def __init__(self, fn, cls):
        self.fn, self.cls = fn, cls

    def root(self, r):
        if r[0] == "p":
            return self.pointer(r[1])
        if r[0] == "g":
            return ("::" + r[1],)
        return None

    def loc(self, loc):
        b = self.root(loc[0])
        if b is None:
            return None
        return b + tuple(s[1] if s[0] == "f" else "[]" for s in loc[1])

    def pointer(self, t):
        """the object a pointer value points to"""
        if t[0] == "sym":
            if t[1] == "this":
                return (self.fn.cls,) if self.fn.cls in SHARED else None
            if t[1].startswith("arg") and t[1][3:].isdigit() and int(t[1][3:]) < len(self.fn.params):
                s = shared_type(self.fn.params[int(t[1][3:])]["t"])
                return (s,) if s else None
            return None
        if t[0] == "ptr":
            return self.loc(t[1])
        if t[0] == "glob":
            return ("::" + t[1],)
        if t[0] in ("moved", "cvt"):
            return self.pointer(t[-1])
        p = self.value(t)
        return p + ("->",) if p else None

    def value(self, t):
        """the place a value has been read from"""
        if t[0] == "deref":
            return self.pointer(t[1])
        if t[0] == "fld":
            p = self.value(t[1])
            return p + (t[2],) if p else None
        if t[0] == "elem" and len(t) > 2:
            p = self.value(t[1])
            return p + ("[]",) if p else None
        if t[0] == "moved":
            return self.value(t[1])
        return None


SERIALIZE = NS + "TextSerializer::Serialize"      # analysed on its own


def opaque_for(c, f, cls):
    """the public operations of every other shared class"""
    return tuple(sorted({SERIALIZE} - {f.qn} | {g.qn for k in SHARED if k != cls for g in publics(c, k) if g.key != f.key
                         and not (cls and g.qn.rsplit("::", 1)[0] == f.qn.rsplit("::", 1)[0])}))


HANDLES = ("curl_",)
READONLY = ("curl_easy_strerror", "curl_version")


def outside(paths, events):
    """accesses made by the HTTP library to what the library's objects keep for it: (path, rw, locks, site)"""
    for e, l in walk(events):
        if e[0] != "ext" or not e[1].startswith(HANDLES) or e[1] in READONLY:
            continue
        for i, v in enumerate(e[2]):
            if not isinstance(v, tuple) or not v or not isinstance(v[0], str):
                continue
            p = paths.pointer(v)
            if p is not None and len(p) > 1:
                rw = "r" if e[1] == "curl_easy_setopt" and i == 2 else "w"
                yield p, rw, e[4], evsite(e)


def overlap(a, b):
    """do the paths name overlapping memory? What a field points to is not part of the field"""
    n = min(len(a), len(b))
    return a[:n] == b[:n] and "->" not in a[n:] and "->" not in b[n:]


def typed(c, p):
    """the type of the object a path names"""
    cl = c.P.classes.get(p[0])
    t = None
    for s in p[1:]:
        if s == "->":
            t = t.strip() if t is not None else None
            if t is not None and t.k == "ptr":
                t = t.pt
            elif t is not None and t.ta:
                t = t.ta[0] if not isinstance(t.ta[0], int) else None
            else:
                t = None
        elif s == "[]":
            t = t.ta[0] if t is not None and t.ta else None
        else:
            if t is not None:
                cl = c.P.classes.get(t.strip().s)
            f = [x for x in (cl["fields"] if cl else ()) if x["name"] == s]
            t = f[0]["t"] if f else None
        if t is None:
            return None
    return t


def guards(l, p):
    """is there one such lock for one such place? A lock kept by some other object or element may be a different one each time"""
    if l[0].startswith("::"):
        return True
    n = max((i + 1 for i, s in enumerate(l) if s == "[]"), default=1)
    return l[:n] == p[:n]


TRUSTED = ("CivetServer",)     # documented to be thread safe


def c01(c):
    c.rule("shared", "two operations that may reach the same non-atomic state, one of them writing it, hold a common lock there")
    c.rule("escape", "no operation hands out a reference into state that operations change")
    c.rule("tasks", "a background task uses no variable of the function that started it, and nothing it shares with it is changed later")
    acc = {}
    refs = []
    for f, cls, r in runs(c):
        ps = Paths(f, cls)
        for a in r.accesses:
            if a.loc[0][0] == "v":
                c.req(not a.is_async, "tasks", a.site, lambda: "%s: the task uses a variable of the function that started it: %s"
                      % (f.qn, showloc(a.loc)))
                continue
            p = ps.loc(a.loc)
            if a.loc[0][0] == "g" and (c.P.globals.get(a.loc[0][1]) or {}).get("tls"):
                continue        # each thread has its own
            if p is None or f.kind in ("ctor", "dtor") and not p[0].startswith("::"):
                continue
            if p[-1] == "->" and getattr(typed(c, p), "qn", None) in TRUSTED:
                continue
            ls = frozenset(x for x in map(ps.loc, a.locks) if x is not None)
            acc.setdefault(p, {}).setdefault((a.rw, ls, a.atomic), (f, a.site, a.stack))
        for o in r.outs:
            for p, rw, locks, site in outside(ps, o.events) if f.kind != "ctor" else ():
                ls = frozenset(x for x in map(ps.loc, locks) if x is not None)
                acc.setdefault(p, {}).setdefault((rw, ls, False), (f, site, ()))
            if o.kind == "ret" and o.val and f.ret is not None and (f.ret.isref() or f.ret.k == "ptr"):
                loc = o.val[1] if o.val[0] == "L" else o.val[1][1] if o.val[1][0] == "ptr" else None
                p = ps.loc(loc) if loc is not None else None
                if p is not None and len(p) > 1:
                    refs.append((p, f))
        shared_heap(c, f, r)
    items = [(p, k, w) for p, d in acc.items() for k, w in d.items()]
    bywrite = [x for x in items if x[1][0] == "w"]
    fields = {p[:2] for p in acc}
    guarded = {}
    for p, (rw, ls, at), (f, site, stack) in bywrite:
        for p2, (rw2, ls2, at2), (f2, site2, stack2) in items:
            if p[0] != p2[0] or not overlap(p, p2) or at and at2:
                continue
            common = {l for l in ls & ls2 if guards(l, p)}
            c.req(bool(common), "shared", site if len(ls) <= len(ls2) else site2,
                  lambda: "%s: written by %s at %s holding %s, %s by %s at %s holding %s, no common lock" % (
                      ".".join(p), f.qn, site, names(ls), "written" if rw2 == "w" else "read", f2.qn, site2, names(ls2)))
            if common:
                guarded.setdefault(p[:2], set()).update(common)
    writes = {p for p, k, w in bywrite if not k[2]}
    for p, f in refs:
        hit = [q for q in writes if q[0] == p[0] and overlap(p, q)]
        c.req(not hit, "escape", c.where(f), lambda: "%s returns a reference to %s, which %s changes" % (f.qn, ".".join(p), ".".join(hit[0])))
    for p in sorted(fields):
        w = [k for q, k, _ in items if q[:2] == p and k[0] == "w"]
        how = "unchanged" if not w else "atomic" if all(k[2] for k in w) else "under " + names(guarded.get(p, ()))
        c.sample("%s: %s" % (".".join(p), how))
    c.req(len(guarded) > 0, "shared", "", "no guarded state was found")
    c.assumptions += ["CivetServer, the C++ library's shared_ptr counts and the C library are thread safe as documented",
                      "construction and destruction of an object do not overlap with other operations on it",
                      "user supplied callbacks and collectables guard their own state"]


def names(ls):
    return ", ".join(".".join(l) for l in sorted(ls)) or "nothing"


def shared_heap(c, f, r):
    seen = {}
    for a in r.accesses:
        if a.loc[0][0] != "h":
            continue
        if a.is_async:
            seen.setdefault(a.loc[0], a)
        elif a.loc[0] in seen and a.rw == "w" and not a.atomic:
            c.req(False, "tasks", a.site, lambda: "%s changes what a running task reads at %s" % (f.qn, seen[a.loc[0]].site))
    for S in r.loops:
        for loc in S.phis:
            c.req(loc[0] not in seen, "tasks", S.site, lambda: "%s: a later round changes what the task of an earlier one reads" % f.qn)


# ---- locks -------------------------------------------------------------------------------------

# waits for the requests that are being handled
WAITING = ("CivetServer::addHandler", "CivetServer::removeHandler", "CivetServer::addAuthHandler", "CivetServer::removeAuthHandler",
           "CivetServer::close", "CivetServer::~CivetServer", "mg_set_request_handler", "mg_set_auth_handler", "mg_stop")


def lockruns(c):
    """(function, class, outcomes): every operation, construction and destruction, with exceptions at every call that may throw"""
    for f, cls in entries(c):
        yield f, cls, c.run(f, mode="all", opaque=opaque_for(c, f, cls), tag="threads")
    for cls in SHARED:
        for f in sorted(c.P.fns.values(), key=lambda f: (f.file, f.line, f.key)):
            if f.cls == cls and f.kind == "ctor" and not f.implicit and (f.body is not None or f.inits):
                yield f, cls, c.run(f, mode="all", opaque=opaque_for(c, f, cls), tag="threads")
    for cls in SHARED:
        r = c.destroy(cls, "all")
        yield r.fn, cls, r


class Locks:
    """what one operation does with locks"""

    def __init__(self):
        self.takes = {}       # lock -> site
        self.edges = {}       # (held, taken) -> (site, how)
        self.calls = {}       # function -> (site, {locks held around it})


def lock_effects(c, f, cls, r, eff):
    ps = Paths(f, cls)
    A = lambda ls: frozenset(x for x in map(ps.loc, ls) if x is not None)
    alltasks, waits = set(), []
    for o in r.outs:
        tasks = []
        for e, l in walk(whole_events(o)):
            k = e[0]
            under = frozenset().union(*[h for _, h in tasks]) if tasks else frozenset()
            if k == "async":
                tasks.append((e[3], A(e[5]) | under))
            elif k == "asyncend":
                tasks = [t for t in tasks if t[0] != e[1]]
            elif k == "lock":
                m = ps.loc(e[1])
                if m is None:
                    continue
                eff.takes.setdefault(m, evsite(e))
                if tasks:
                    alltasks.add(m)
                for h in A(e[2]):
                    if h == m and e[1] in e[2]:
                        c.req(recursive(c, m), "relock", evsite(e), lambda: "%s takes %s, which it holds\n%s" % (f.qn, ".".join(m), describe(o)))
                    eff.edges.setdefault((h, m), (evsite(e), f.qn))
                for h in under:
                    eff.edges.setdefault((h, m), (evsite(e), f.qn + " waits for its task"))
            elif k in ("opaque", "vcall", "ext"):
                if k == "ext" and e[1] not in WAITING:
                    continue
                held = A(e[4] if k != "vcall" else e[5]) | under
                q = "handlers" if k == "ext" else e[1]
                site, hs = eff.calls.get(q, (evsite(e), set()))
                eff.calls[q] = (site, hs | held)
                if tasks:
                    alltasks.add(("call", q))
            elif k == "fwait":
                waits.append((evsite(e), A(e[2])))
    for site, held in waits:
        for m in alltasks:
            for h in held:
                if m[0] == "call":
                    s, hs = eff.calls[m[1]]
                    eff.calls[m[1]] = (s, hs | held)
                else:
                    eff.edges.setdefault((h, m), (site, f.qn + " waits for a task"))


def whole_events(o):
    return o.events


def recursive(c, m):
    t = typed(c, m)
    return t is not None and (t.qn or "").startswith("std::recursive")


def c25(c):
    c.rule("release", "on every exit, normal or by an exception from any call that may throw, every lock is released, and no lock "
                      "is released that is not held")
    c.rule("relock", "no operation takes a lock that it holds")
    c.rule("order", "taking a lock, directly or in a called operation, callback or task that is waited for, never closes a cycle "
                    "in the order in which locks are taken")
    byqn, effs = {}, []
    nlocks = 0
    for f, cls, r in lockruns(c):
        eff = Locks()
        lock_effects(c, f, cls, r, eff)
        effs.append((f, eff))
        byqn.setdefault(f.qn, []).append(eff)
        w = c.where(f)
        for o in r.outs:
            c.req(not o.st.locks, "release", w, lambda: "%s still holds %s\n%s" % (f.qn, [showloc(m) for m, _, _ in o.st.locks], describe(o)))
            bad = [e for e, l in walk(o.events) if e[0] == "badunlock"]
            c.req(not bad, "release", w, lambda: "%s releases a lock it does not hold\n%s" % (f.qn, describe(o)))
        for S in r.loops:
            for t in S.trans:
                d = sum((e[0] == "lock") - (e[0] == "unlock") for e in t.events)
                c.req(d == 0, "release", S.site, lambda: "%s: a round of the loop changes the locks held" % f.qn)
        nlocks += len(eff.takes)
    c.req(nlocks > 0, "release", "", "no lock is taken anywhere")
    # which locks a call may take
    def targets(q):
        if q == "handlers":
            return byqn.get(NS + "detail::MetricsHandler::handleGet", []) + byqn.get(NS + "BasicAuthHandler::authorize", [])
        if q == COLLECTFN:
            return [x for n in ("Registry::Collect", "Family::Collect") for x in byqn.get(NS + n, [])]
        return byqn.get(q, [])
    may = {id(e): set(e.takes) for _, e in effs}
    change = True
    while change:
        change = False
        for f, e in effs:
            for q in e.calls:
                for t in targets(q):
                    if not may[id(t)] <= may[id(e)]:
                        may[id(e)] |= may[id(t)]
                        change = True
    graph = {}
    for f, e in effs:
        for (a, b), why in e.edges.items():
            graph.setdefault(a, {}).setdefault(b, why)
        for q, (site, held) in e.calls.items():
            for t in targets(q):
                for m in may[id(t)]:
                    for h in held:
                        graph.setdefault(h, {}).setdefault(m, (site, "%s calling %s" % (f.qn, q)))
    # user code called under a lock may use the rest of the library, except for the object that calls it
    for a in sorted(graph):
        for b in sorted(graph[a]):
            site, why = graph[a][b]
            back = path_to(graph, b, a)
            if a == b:
                c.req(recursive(c, a), "relock", site, lambda: "%s takes %s while holding it" % (why, ".".join(a)))
            else:
                c.req(back is None, "order", site, lambda: "%s is taken while %s is held (%s), and in the opposite order: %s" % (
                    ".".join(b), ".".join(a), why, "; ".join("%s then %s at %s (%s)" % (".".join(x), ".".join(y), graph[x][y][0], graph[x][y][1])
                                                             for x, y in zip(back, back[1:]))))
            c.sample("%s then %s at %s (%s)" % (".".join(a), ".".join(b), site, why))
    c.req(len(graph) > 0, "order", "", "no lock is ever taken under another")
    c.assumptions += ["a user supplied callback does not call back into the object that is calling it",
                      "CivetServer waits for running handlers when handlers are added or removed"]


def path_to(graph, a, b):
    todo, came = [a], {a: None}
    while todo:
        x = todo.pop()
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = came[x]
            return out[::-1]
        for y in graph.get(x, ()):
            if y not in came:
                came[y] = x
                todo.append(y)
    return None


CHECKS = {"C01": c01, "C25": c25}
