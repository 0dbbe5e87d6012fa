"""C39: elements exist, pointers are not null, nothing dangling is handed out."""
from math import gcd
import metrics as M
import quantiles as Q
import threads as T
from chk import *
from engine import Access

NS = "prometheus::"
B64 = NS + "detail::base64_"
OWNERS = ("std::unique_ptr", "std::shared_ptr")


def turn_on(E):
    E.mem = True


def functions(c):
    """every function of the library, operations of shared objects first, helpers and constructors last"""
    first = [f for f, _ in T.entries(c)]
    known = {f.key for f in first}
    rest = [f for f in sorted(c.P.fns.values(), key=lambda f: (f.kind not in ("method", "ctor"), f.file, f.line, f.key))
            if f.key not in known and f.body is not None and not f.implicit and f.qn.startswith(NS) and f.kind != "lambda"]
    return first + [f for f in rest if f.kind in ("ctor", "dtor") or f.acc == "public"] + [f for f in rest if f.kind not in ("ctor", "dtor") and f.acc != "public"]


def atleast(d, m, fa, more=(), depth=3):
    """is the term certainly >= m: by its range, or as a sum of known terms and a rest"""
    r = rng(d, fa)
    if r.empty() or r.min() >= m:
        return True
    if d[0] == "i":
        return False
    return linear(d, m, fa, known(fa, more, d), depth)


def known(fa, more, d):
    """[(term, least value)] of the facts, with quotients for the sizes whose remainder is known"""
    w = {}
    for t, x in fa.dom.items():
        if t[0] == "op" and t[1] == "%" and t[3][0] == "i" and x.single() is not None:
            w[t[2]] = (("op", "/", t[2], t[3]), t[3][1], x.single())
    out = []
    for t, x in list(fa.dom.items()) + [(t, IntSet([(m, INF)])) for t, m in more]:
        for t, x in ((t, x), (neg(t), x.neg())):
            if x.empty() or x.min() == -INF or t[0] == "i":
                continue
            out.append((t, x.min()))
            ns = [y for y in atoms(t) if y in w]
            if ns:
                t2 = subst(t, {n: add(scale(w[n][0], w[n][1]), ("i", w[n][2])) for n in ns})
                g = gcd(*coefs(t2).values())
                if g > 1:
                    out.append((divided(t2, g), -((t2[1] - x.min()) // g)))
    for n, (q, k, r) in w.items():
        e = sub(n, add(scale(q, k), ("i", r)))
        out += [(e, 0), (neg(e), 0)]
    for t in {y for t, _ in out + [(d, 0)] for y in atoms(t)}:
        if t[0] == "op" and t[1] == "%" and rng(t[3], fa).subset(POS) and rng(t[2], fa).subset(NONNEG):
            out.append((sub(t[3], t), 1))
        if t[0] == "op" and t[1] == "/" and t[3][0] == "i" and t[3][1] > 0 and rng(t[2], fa).subset(NONNEG):
            e = sub(t[2], scale(t, t[3][1]))
            out += [(e, 0), (neg(e), 1 - t[3][1])]
    return list(dict.fromkeys(out))


def divided(t, g):
    r = ("i", 0)
    for x, k in t[2]:
        r = add(r, scale(x, k // g))
    return r


def coefs(t):
    return dict(t[2]) if t[0] == "lin" else {t: 1} if t[0] != "i" else {}


def atoms(t):
    return set(coefs(t))


def linear(d, m, fa, facts, depth):
    r = rng(d, fa)
    for t, x in facts:
        if len(coefs(t)) == len(coefs(d)):
            q = sub(d, t)
            if q[0] == "i":
                r = r.inter(IntSet([(x + q[1], INF)]))
    if r.empty() or r.min() >= m:
        return True
    if not depth:
        return False
    cs = coefs(d)
    low = {y: rng(y, fa).min() if k > 0 else -rng(y, fa).max() for y, k in cs.items()}
    loose = sorted((y for y in cs if low[y] < -(1 << 60)), key=repr)
    for y in loose[:1] or cs:
        for t, x in facts:
            c = coefs(t).get(y)
            if c and cs[y] % c == 0 and cs[y] // c > 0:
                n = cs[y] // c
                if linear(sub(d, scale(t, n)), m - n * x, fa, facts, depth - 1):
                    return True
    return False


def neg(t):
    return scale(t, -1)


INTS = ("i", "lin", "phi", "size", "k", "fld", "elem", "deref", "op", "cvt", "call", "sym", "sel", "f2i")


def becomes(m):
    """the substitution, for containers and their sizes"""
    return {**m, **{("size", k): sizeof(v) for k, v in m.items()}}


def terms(S):
    """the integers that loop S varies: its phis and its counters"""
    out = [("phi", S.lid, l) for l, v in S.phis.items() if v[0] in INTS]
    return out + [add(i, scale(S.K(), d)) for i, d in S.inds.values()] + [S.K()]


def invariants(c, r, left):
    """facts t >= m about the loops of r that hold whenever their head is reached, found by induction:
    all candidates that hold at first and that every pass keeps, given all of them before the pass"""
    zs = list(dict.fromkeys(a.ty[0][1] for a in left))
    cand = {}
    loops = [a.ty for a in r.accesses if a.rw == "loop"]
    for S in loops:
        ps = [t for t in terms(S)]
        for a in left:
            i = a.ty[0][0]
            if occurs(i, lambda y: y == S.K() or y[:2] == ("phi", S.lid)):
                ps.append(i)
        for p in dict.fromkeys(ps):
            for m in (0, 1):
                cand.setdefault((S.lid, p, m), []).append(S)
                for z in zs:
                    cand.setdefault((S.lid, sub(z, p), m), []).append(S)
    first = True
    while True:
        bad = []
        for (lid, t, m), Ss in cand.items():
            if not all(keeps(r, S, t, m, cand, first) for S in Ss):
                bad.append((lid, t, m))
        if not bad:
            return [(t, m) for _, t, m in cand]
        for k in bad:
            del cand[k]
        first = False


def keeps(r, S, t, m, cand, first):
    """does loop S begin with t >= m, and does every pass keep it"""
    if first:
        w = {("phi", S.lid, l): i for l, i in S.phis.items()}
        w[S.K()] = ("i", 0)
        others = [(t2, m2) for (l2, t2, m2) in cand if l2 != S.lid]
        if not all(atleast(subst(t, becomes(w)), m, st.facts, others) for E, st in S.entries if E is r.E):
            return False
    known = [(t2, m2) for (_, t2, m2) in cand]
    for x in S.trans:
        w = {("phi", S.lid, l): v for l, v in x.phi.items()}
        w[S.K()] = add(S.K(), ("i", 1))
        if not atleast(subst(t, becomes(w)), m, x.facts, known):
            return False
    return True


def inside(a, r, inv=()):
    i, z, fa = a.ty[0]
    more = list(inv)
    loops = [a.ty for a in r.accesses if a.rw == "loop"]
    for S in loops:
        if S.n is not None:
            more.append((sub(S.n, S.K()), 1))
    return atleast(i, 0, fa, inv) and (atleast(sub(z, i), 1, fa, inv) or any(occurs(sub(z, i), lambda y, S=S: y == S.K()) for S in loops) and
                                       atleast(sub(z, i), 1, fa, more))


def c39(c):
    c.rule("bounds", "every element that is read, written or referred to exists at that moment: its index is at least zero and "
                     "less than the size, by the facts of the path and the invariants of its class")
    c.rule("found", "the result of searching a map is used only where the key has been found")
    c.rule("null", "a pointer that may be null (a pointer argument, the result of locking a weak pointer or of a C function) is "
                   "followed only where it has been found not to be null")
    c.rule("owner", "a pointer that an object keeps and that its operations follow unexamined is set by every constructor and never "
                    "emptied")
    c.rule("dangling", "no operation returns or keeps the address of one of its own variables, nor uses a reference, pointer or "
                       "iterator after a change of the container has invalidated it or what it refers to has ended")
    own = {f.qn for f in c.P.fns.values() if f.cls in (Q.TW, Q.CK, NS + "Histogram") and f.kind == "method"} | \
        {f.qn for f in c.P.fns.values() if f.qn.startswith(B64)}
    h = M.Hist(c)
    seen, kept, runs = set(), {}, []
    fs = functions(c)
    for f in fs:
        if f.key in seen or f.qn in own or f.cls in (Q.TW, Q.CK):
            continue
        opq = set(T.opaque_for(c, f, f.cls if f.cls in T.SHARED else None)) | own
        r = c.run(f, opaque=tuple(sorted(opq - {f.qn})), setup=turn_on, tag="mem")
        seen |= {g.key for g in r.E.visited} | {f.key}
        runs.append((f, r))
        borrowed(c, f, r)
        report(c, f, r, kept)
    for f in fs:
        if f.cls == NS + "Histogram" and f.kind == "ctor":
            for o in c.run(f, setup=turn_on, tag="mem").rets:
                z = sub(sizeof(path(fields_after(o), h.counts)), sizeof(path(fields_after(o), h.bounds)))
                c.req(rng(z, o.facts) == IntSet.of(1), "bounds", c.where(f), lambda: "there are not as many counters as buckets:\n" + describe(o))
        if f.cls == NS + "Histogram" and f.kind == "method":
            report(c, f, c.run(f, sizes=h.inv, setup=turn_on, tag="mem"), kept)
    window(c, kept)
    estimator(c, kept)
    coding(c, kept)
    owners(c, kept, runs)


def nonnull(v, fa):
    return v[0] in ("newobj", "s") or v[0] == "ptr" or "=" not in getrel(fa, v, NULL, REL)


def filled(v, name, fa):
    """a container with pointers that are not null: none that could be is put in"""
    if v[0] == "seq":
        return all(nonnull(p[1], fa) if p[0] == "one" else filled(p, name, fa) for p in v[1])
    if v[0] == "mins":
        return filled(v[1], name, fa) and nonnull(v[3], fa)
    if v[0] == "rep":
        return nonnull(v[2], fa)
    if v[0] == "loop":
        return all(filled(("seq", t.parts.get(v[2], ())), name, t.facts) for t in v[1].trans)
    if v == NULL or v[0] in ("moved", "junk", "zero"):
        return False
    return all(filled(x, name, fa) for x in v if isinstance(x, tuple) and x and isinstance(x[0], str)) if v[0] not in ("fld",) else True


def owners(c, kept, runs):
    for (name, many), (site, g) in sorted(kept.items()):
        cls = [k for k, v in c.P.classes.items() if any(x["name"] == name for x in v["fields"])]
        for f, r in runs:
            for o in r.outs:
                if f.cls in cls and (f.kind == "dtor" or f.kind == "ctor" and o.kind != "ret"):
                    continue
                for root, v in o.st.store.items():
                    if root[0] not in (("p", "h", "v", "t") if o.kind == "ret" else ("p",)):
                        continue
                    if not (v[0] == "obj" and v[1] in cls or v[0] == "upd" and any(m[0] == ("f", name) for m in v[2])):
                        continue
                    x = path(v, name)
                    if x[0] == "fld" and x[2] == name:
                        continue
                    c.req(filled(x, name, o.facts) if many else nonnull(x, o.facts), "owner", c.where(f),
                          lambda: "%s holds %s, but %s follows it unexamined\n%s" % (name, show(x), site, describe(o)))


def borrowed(c, f, r):
    """a public object keeps no reference to an argument of the call"""
    if f.kind not in ("ctor", "method") or f.static or f.cls is None or NS + "detail::" in str(f.cls):
        return
    refs = {("sym", "arg%d" % i) for i, p in enumerate(f.params) if p["t"].isref()}

    def to(v):
        if v in refs:
            return True
        if v[:1] in (("deref",), ("size",), ("call",), ("cmp",), ("fld",), ("elem",), ("loop",)):
            return False
        if v[:1] == ("ptr",):
            return v[1][0][0] == "p" and v[1][0][1] in refs
        return any(to(x) for x in v if isinstance(x, tuple))

    for o in r.rets:
        for root, v in o.st.store.items():
            if root == ("p", ("sym", "this")) or root[0] == "h":
                c.req(not to(v), "dangling", c.where(f),
                      lambda: "%s keeps a reference to an argument\n%s" % (showloc((root, ())), describe(o)))


def coding(c, kept):
    for f in functions(c):
        if f.qn.startswith(B64):
            report(c, f, c.run(f, setup=turn_on, tag="mem", nojoin=True), kept)


def window(c, kept):
    w = Q.Win(c)
    cur = fld(w.cur)
    for f in sorted((f for f in c.P.fns.values() if f.cls == Q.TW and f.body is not None and not f.implicit), key=lambda f: f.line):
        pre = (("<", cur, w.n), (">=", cur, ("i", 0)), (">=", w.n, ("i", 1))) if f.kind == "method" else ((">=", arg(2), ("i", 1)),)
        opq = {g.qn for g in c.P.fns.values() if g.cls == Q.CK and g.kind == "method"}
        r = c.run(f, opaque=tuple(sorted(opq)), facts=pre, setup=turn_on, tag="mem")
        report(c, f, r, kept)
        for o in r.rets:
            v = fields_after(o)
            a = Access(None, "bounds", (), c.where(f), False, False, (), (
                (path(v, w.cur), sizeof(path(v, w.b)), o.facts), lambda o=o: "the current bucket may leave the window\n" + describe(o)))
            report(c, f, r, kept, [a])


def estimator(c, kept):
    k = Q.Ckms(c)
    if not k.roles(c):
        return
    inv, _ = Q.fill_bound(c, k, c.fn(Q.CK + "::insert", 1))
    if not c.req(inv is not None, "bounds", c.where(c.fn(Q.CK + "::insert", 1)), "the fill counter may leave the buffer"):
        return
    for f in sorted((f for f in c.P.fns.values() if f.cls == Q.CK and f.body is not None and not f.implicit), key=lambda f: f.line):
        r = c.run(f, opaque=k.opq(c), facts=inv if f.kind == "method" else (), setup=turn_on, tag="mem")
        report(c, f, r, kept)


def owner(p):
    """(field, in a container) when the pointer is kept by an object"""
    if p[0] == "fld" and p[2] == "second" and p[1][0] == "elem":
        p = p[1]
    if p[0] == "elem" and p[1][0] == "fld":
        return p[1][2], True
    if p[0] == "fld":
        return p[2], False
    return None


def report(c, f, r, kept, todo=None):
    todo = r.accesses if todo is None else todo
    left = [a for a in todo if a.rw == "bounds" and not inside(a, r)]
    inv = invariants(c, r, left) if left else ()
    for a in todo:
        if a.rw == "bounds":
            c.req(a not in left or inside(a, r, inv), a.rw, a.site, lambda: "%s in %s" % (a.ty[1](), f.qn))
        elif a.rw in ("found", "dangling"):
            c.req(a.ty[0], a.rw, a.site, lambda: "%s in %s" % (a.ty[1](), f.qn))
        elif a.rw == "null":
            o = owner(a.loc)
            if o:
                kept.setdefault(o, (a.site, f))
                continue
            c.req(a.ty[0], a.rw, a.site, lambda: "%s in %s" % (a.ty[1](), f.qn))


CHECKS = {"C39": c39}
