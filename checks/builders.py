"""C32: what is configured is what is registered and used."""
from chk import *
from families import *
import quantiles as Q
import metrics as M

B = NS + "detail::Builder"
SETTERS = ("Name", "Help", "Labels")


def c32(c):
    c.rule("fresh", "a new builder of each metric type has an empty name, help text and label set")
    c.rule("setter", "Name, Help and Labels each replace one field of their own by the argument and change nothing else")
    c.rule("register", "Register adds a family to exactly the given registry with the fields that Name, Help and Labels set, "
                       "returns it and leaves the builder as it was")
    c.rule("family", "the family keeps name, help text and constant labels as given and reports them")
    c.rule("forward", "a metric added to a family is constructed from exactly the given arguments")
    c.rule("metric", "a metric's constructor uses exactly the values it is given, and keeps no reference to its arguments")
    for k in KINDS:
        builder(c, k)
        family(c, k)
        forward(c, k)
    ctors(c)


def builder(c, k):
    cls = "%s<%s%s>" % (B, NS, k)
    fields = {}
    for s in SETTERS:
        f = c.fn(B + "::" + s, 1, cls)
        for o in c.run(f).outs:
            ms = store_mods(o)
            ok = o.kind == "ret" and len(ms) == 1 and ms[0].loc[0] == THISROOT and len(ms[0].loc[1]) == 1 and o.st.get(ms[0].loc) == arg(0)
            c.req(ok, "setter", c.where(f), lambda: "%s sets %s\n%s" % (s, ms, describe(o)))
            if ok:
                fields[s] = ms[0].loc[1][0][1]
                c.req(o.val == ("L", (THISROOT, ())) or retval(o) == THIS, "setter", c.where(f), lambda: "%s does not return the builder" % s)
    c.req(len(set(fields.values())) == 3, "setter", c.where(f), lambda: "fields set: %s" % fields)
    if len(fields) != 3:
        return
    g = c.fn(NS + "Build" + k, 0)
    for o in c.run(g).outs:
        v = retval(o) if o.kind == "ret" else ("?",)
        c.req(o.kind == "ret" and all(isempty(path(v, fields[s])) for s in SETTERS), "fresh", c.where(g), lambda: "a new builder is %s" % show(v))
    add = NS + "Registry::Add"
    f = c.fn(B + "::Register", 1, cls)
    want = tuple(fld(fields[s]) for s in SETTERS)
    for o in c.run(f, opaque=(add,)).outs:
        if o.kind != "ret":
            c.req(False, "register", c.where(f), lambda: describe(o))
            continue
        calls = [(e, l) for e, l in walk(o.events) if e[0] == "opaque"]
        ok = len(calls) == 1 and not calls[0][1] and calls[0][0][1] == add
        c.req(ok, "register", c.where(f), lambda: "not exactly one registration\n" + describe(o))
        if not ok:
            continue
        e = calls[0][0]
        c.req(e[2][0] == ("sym", "arg0"), "register", evsite(e), lambda: "registered with %s" % show(e[2][0]))
        got = tuple(content(o, x) for x in e[2][1:])
        c.req(got == want, "register", evsite(e), lambda: "registered as %s instead of %s" % ([show(x) for x in got], [show(x) for x in want]))
        val = o.val[1] if o.val and o.val[0] == "L" else None
        c.req(val is not None and val[0][0] == "p" and val[0][1][:2] == ("call", add) and not val[1], "register", c.where(f),
              lambda: "the result is not the registered family\n" + describe(o))
        c.req(not store_mods(o), "register", c.where(f), lambda: "registering changes %s" % store_mods(o))
    c.sample("%s: %s" % (cls, ", ".join("%s sets %s" % x for x in fields.items())))


def content(o, x):
    """the value an argument passed by reference has"""
    if x[0] == "ptr":
        return o.st.get(x[1])
    return x


def isempty(v):
    return v == ("zero",) or v == ("seq", ()) or v in (("b", b""),) or sizeof(v) == ("i", 0)


def family(c, k):
    f, r, roles = ctor_fields(c, k)
    c.req(len(roles) == 3 and len(set(roles.values())) == 3, "family", c.where(f), lambda: "fields filled from the arguments: %s" % roles)
    if len(roles) != 3:
        return
    for o in r.rets:
        v = fields_after(o)
        for n in range(3):
            c.req(path(v, roles[n]) == arg(n), "family", c.where(f), lambda: "%s becomes %s" % (roles[n], show(path(v, roles[n]))))
    for name, n in (("GetName", 0), ("GetConstantLabels", 2)):
        g = c.fn(NS + "Family::" + name, 0, fam(c, k))
        for o in c.run(g).outs:
            c.req(o.kind == "ret" and retval(o) == fld(roles[n]), "family", c.where(g), lambda: "%s returns %s" % (name, show(retval(o))))
    # nothing else changes them
    for g in public_methods(c, fam(c, k)):
        for o in c.run(g, opaque=CHECKFNS + CTORS).outs:
            for m in store_mods(o):
                c.req(not (m.loc[0] == THISROOT and (not m.loc[1] or m.loc[1][0][1] in roles.values())), "family", c.where(g),
                      lambda: "%s changes %s" % (g.qn, showloc(m.loc)))


def forward(c, k):
    n = 0
    for f in adds(c, k):
        if f.acc != "public":
            continue
        for o in c.run(f, opaque=CHECKFNS + CTORS).rets:
            val = o.val[1] if o.val and o.val[0] == "L" else None
            x = o.st.get(val) if val is not None else ("?",)
            if x[0] in ("deref", "elem", "fld"):        # an existing metric
                continue
            n += 1
            want = tuple(arg(i) for i in range(1, len(f.params)))
            T = NS + k + "::" + k
            got = tuple(strip(y) for y in x[2]) if x[0] == "newobj" else None
            if x[0] == "newobj":
                c.req(x[1] == T and got[:len(want)] == want and (len(got) == len(want) or defaults(c, T, got, len(want))), "forward", c.where(f),
                      lambda: "constructed as %s" % show(x))
            else:
                c.req(not want and plain(c, x, k), "forward", c.where(f), lambda: "constructed as %s" % show(x))
    c.req(n, "forward", fam(c, k), "no path constructs a metric")


def defaults(c, T, got, n):
    """the remaining values are constants: the declared default arguments"""
    return all(y[0] in ("i", "d", "f") for y in got[n:])


def plain(c, x, k):
    return x[0] in ("zero", "obj")


def ctors(c):
    # gauge
    G = NS + "Gauge"
    loc = M.value_loc(c, "Gauge", "metric")
    for f in c.P.fns.values():
        if f.cls != G or f.kind != "ctor" or f.implicit or f.body is None and not f.inits or len(f.params) > 1:
            continue
        for o in c.run(f).outs:
            v = o.st.get((THISROOT, loc[1])) if loc else ("?",)
            want = arg(0) if f.params else ("d", 0.0)
            c.req(o.kind == "ret" and (v == want or not f.params and iszero(v)), "metric", c.where(f), lambda: "the value starts as %s" % show(v))
    # histogram
    h = M.Hist(c)
    H = NS + "Histogram"
    n = 0
    for f in c.fns(H + "::Histogram", 1):
        if f.implicit or f.params[0]["t"].strip().qn != "std::vector":
            continue
        for o in c.run(f).rets:
            n += 1
            v = fields_after(o)
            c.req(path(v, h.bounds) == arg(0), "metric", c.where(f), lambda: "the boundaries are %s" % show(path(v, h.bounds)))
            norefs(c, f, v)
    c.req(n, "metric", H, "no constructor takes boundaries")
    # summary
    S, w = NS + "Summary", Q.Win(c)
    cl = c.P.cls(S)
    qf = [x["name"] for x in cl["fields"] if x["t"].qn == "std::vector" and x["t"].ta and x["t"].ta[0].qn == Q.CK + "::Quantile"]
    wf = [x["name"] for x in cl["fields"] if x["t"].qn == Q.TW]
    if len(qf) != 1 or len(wf) != 1:
        raise AnalysisError("roles of the fields of Summary are ambiguous")
    n = 0
    for f in c.fns(S + "::Summary", 3):
        if f.implicit:
            continue
        for o in c.run(f).rets:
            n += 1
            v = fields_after(o)
            c.req(path(v, qf[0]) == arg(0), "metric", c.where(f), lambda: "the quantiles are %s" % show(path(v, qf[0])))
            win = path(v, wf[0])
            nb, iv = sizeof(path(win, w.b)), path(win, w.ivl)
            c.req(strip(nb) == arg(2), "metric", c.where(f), lambda: "the number of buckets is %s" % show(nb))
            c.req(iv[:2] == ("op", "/") and strip(iv[3]) == arg(2) and window(iv[2]), "metric", c.where(f),
                  lambda: "the rotation interval is %s" % show(iv))
            refs = norefs(c, f, v)
            c.req(thisloc(qf[0]) in refs and refs <= {thisloc(qf[0])}, "metric", c.where(f),
                  lambda: "the window refers to %s" % [showloc(x) for x in refs])
    c.req(n, "metric", S, "no constructor takes quantiles")


def window(t):
    """the argument, converted to the unit of the clock"""
    t = strip(t)
    return t == arg(1) or mono(t) == 1000000


def mono(t):
    if t == arg(1):
        return 1
    if t[0] == "lin" and t[1] == 0 and len(t[2]) == 1 and t[2][0][0] == arg(1):
        return t[2][0][1]
    return None


def norefs(c, f, v):
    """places that the object refers to; none of them may be an argument"""
    out = set()

    def go(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "ptr":
            out.add(t[1])
            bad = t[1][0] == ("v",) or t[1][0][0] in ("v", "t") or t[1][0][0] == "p" and t[1][0] != THISROOT
            c.req(not bad, "metric", c.where(f), lambda: "keeps a reference to %s" % showloc(t[1]))
            return
        if t[0] == "sym":
            if t[1] != "this":
                c.req(False, "metric", c.where(f), lambda: "keeps a reference to the argument %s" % t[1])
            return
        if t[0] == "deref" and len(t) == 2 and t[1][0] == "sym":
            return
        for x in t:
            go(x)
    go(v)
    return out


CHECKS = {"C32": c32}
