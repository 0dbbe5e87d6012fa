"""C02-C08: gauges, counters, histograms and summaries."""
from chk import *

NS = "prometheus::"
NONNEGC = frozenset(["nan", "zero", "pos", "+inf"])
NEGC = frozenset(["neg", "-inf"])


def value_loc(c, cls, rule):
    """the location that holds the value of a gauge or counter"""
    f = c.fn(NS + cls + "::Value", 0)
    loc = None
    r = c.run(f)
    for o in r.outs:
        v = retval(o)
        l = scalar_load(v)
        ok = o.kind == "ret" and l is not None and (loc is None or loc == l) and not effects(o)
        c.req(ok, rule, c.where(f), lambda: "Value() does not report the stored value:\n" + describe(o))
        loc = loc or l
    if loc is None:
        return None
    f = c.fn(NS + cls + "::Collect", 0)
    for o in c.run(f).outs:
        l = scalar_load(path(retval(o), cls.lower(), "value"))
        c.req(o.kind == "ret" and l == loc and not effects(o), rule, c.where(f),
              lambda: "Collect() does not report the stored value %s:\n%s" % (showloc(loc), describe(o)))
    return loc


def one_section(c, f, o, loc, rule):
    """a plain (non atomic) value: the whole read-modify-write is under one lock"""
    ls = [e for e, l in walk(o.events) if e[0] == "lock"]
    c.req(len(ls) == 1 and not any(l for e, l in walk(o.events) if e[0] == "lock"), rule, c.where(f),
          lambda: "the value is not atomic and is changed outside one critical section:\n" + describe(o))


def single_change(c, f, o, loc, want, rule, what):
    """the path changes loc by exactly `want`: ('add', summands) or ('set', value)"""
    ms = [m for m in effects(o) if not (m.kind == "add" and not m.val)]
    other = [m for m in ms if m.kind == "loop" or m.loc != loc]
    ms = [m for m in ms if m.kind != "loop" and m.loc == loc]
    ok = o.kind == "ret" and len(ms) == 1 and not other and ms[0].kind == want[0] and \
        (sorted(ms[0].val, key=repr) == sorted(want[1], key=repr) if want[0] == "add" else
         ms[0].val == want[1] or iszero(ms[0].val) and iszero(want[1]))
    c.req(ok, rule, ms[0].site if ms and ms[0].ev else c.where(f),
          lambda: "%s: expected exactly one indivisible %s of %s, found %s\n%s" % (
              what, want[0], want[1] if want[0] == "set" else " + ".join(show(x) for x in want[1]),
              ms + other, describe(o)))
    if ok and not ms[0].ev:
        one_section(c, f, o, loc, rule)
    return ok


def c02(c):
    c.rule("value", "Value() and Collect() return the stored value itself")
    c.rule("rmw", "each path of an increment or decrement contains exactly one successful read-modify-write, which "
                  "adds exactly the argument (or one) to the value it replaces; failed attempts change nothing")
    c.rule("set", "each path of Set stores exactly the argument, once")
    c.rule("skip", "a path without an effect is only taken for amounts that change nothing (zero) or, for counters, "
                   "for negative amounts")
    for cfg in ("default", "cxx20"):
        c.config = cfg
        for cls in ("Gauge", "Counter"):
            loc = value_loc(c, cls, "value")
            if loc is None:
                continue
            todo = [("Increment", 1)] + ([("Decrement", -1)] if cls == "Gauge" else [])
            for name, sign in todo:
                for f in c.fns(NS + cls + "::" + name):
                    if not f.params:
                        amount = ("f", 1.0 * sign)
                    elif len(f.params) == 1 and f.params[0]["t"].strip().k in ("float",):
                        amount = arg(0) if sign > 0 else fneg(arg(0))
                    else:
                        continue
                    r = c.run(f)
                    for o in r.outs:
                        none = not [m for m in effects(o) if not (m.kind == "add" and not m.val)]
                        if none and f.params:
                            cl = fcls(arg(0), o.facts)
                            allowed = frozenset(["zero"]) | (NEGC if cls == "Counter" else frozenset())
                            c.req(o.kind == "ret" and cl <= allowed, "skip", c.where(f),
                                  lambda: "%s has no effect for amounts in %s\n%s" % (sig(f), sorted(cl), describe(o)))
                            continue
                        single_change(c, f, o, loc, ("add", [amount]), "rmw", sig(f))
                    c.sample("%s: %d path(s), value %s" % (sig(f), len(r.outs), showloc(loc)))
            if cls == "Gauge":
                f = c.fn(NS + "Gauge::Set", 1)
                for o in c.run(f).outs:
                    single_change(c, f, o, loc, ("set", arg(0)), "set", sig(f))
                f = c.fn(NS + "Gauge::SetToCurrentTime", 0)
                for o in c.run(f).outs:
                    ms = effects(o)
                    c.req(o.kind == "ret" and len(ms) == 1 and ms[0].kind == "set" and ms[0].loc == loc, "set",
                          c.where(f), lambda: "SetToCurrentTime does not set the value once:\n" + describe(o))
            # any other operation
            for f in public_methods(c, NS + cls):
                if f.name in ("Increment", "Decrement", "Set", "SetToCurrentTime", "Value", "Collect", "Reset"):
                    continue
                for o in c.run(f).outs:
                    ms = effects(o)
                    c.req(all(m.kind in ("set", "add") for m in ms) and len(ms) <= 1 and not (f.const and ms), "rmw",
                          c.where(f), lambda: "%s changes the value in more than one step:\n%s" % (sig(f), describe(o)))


def c03(c):
    c.rule("grow", "every operation of a counter other than Reset only adds, and only amounts that are not negative "
                   "on the path that adds them")
    c.rule("ignored", "paths of Increment that have no effect are taken for negative (or zero) amounts only, and "
                      "negative amounts reach no effect")
    c.rule("reset", "Reset stores zero")
    c.rule("sealed", "the stored value is private to the counter and no operation hands out access to it")
    K = NS + "Counter"
    loc = value_loc(c, "Counter", "grow")
    if loc is None:
        return
    for f in public_methods(c, K):
        for o in c.run(f).outs:
            ms = [m for m in effects(o) if not (m.kind == "add" and not m.val)]
            if f.name == "Reset":
                single_change(c, f, o, loc, ("set", ("f", 0.0)), "reset", sig(f))
                continue
            for m in ms:
                ok = m.kind == "add" and m.loc == loc and len(m.val) == 1 and fcls(m.val[0], o.facts) <= NONNEGC
                c.req(ok, "grow", m.site if m.kind == "loop" or m.ev else c.where(f),
                      lambda: "%s may lower or overwrite the counter: %s with amount in %s\n%s" % (
                          sig(f), m, sorted(fcls(m.val[0], o.facts)) if m.kind == "add" and m.val else "?", describe(o)))
            if f.name == "Increment":
                if f.params:
                    cl = fcls(arg(0), o.facts)
                    if not ms:
                        c.req(cl <= NEGC | {"zero"}, "ignored", c.where(f),
                              lambda: "%s ignores amounts in %s\n%s" % (sig(f), sorted(cl), describe(o)))
                    else:
                        c.req(not cl & NEGC, "ignored", c.where(f),
                              lambda: "%s applies amounts in %s\n%s" % (sig(f), sorted(cl), describe(o)))
                        single_change(c, f, o, loc, ("add", [arg(0)]), "grow", sig(f))
                else:
                    single_change(c, f, o, loc, ("add", [("f", 1.0)]), "grow", sig(f))
            if f.const:
                c.req(not ms, "grow", c.where(f), "a const operation changes the counter")
    cl = c.P.cls(K)
    for fl in cl["fields"]:
        c.req(fl["acc"] == "private" or fl["t"].const, "sealed", "%s:%s" % tuple(fl["loc"][:2]),
              "field %s of Counter is accessible from outside" % fl["name"])
    for m in cl["methods"]:
        if m["acc"] == "private" or m["deleted"] or m["ret"] is None or m["name"].startswith("operator="):
            continue
        t = m["ret"]
        c.req(not (t.k in ("ref", "ptr") and t.pt is not None and not t.pt.const), "sealed", K + "::" + m["name"],
              "operation hands out a mutable reference")
    for fr in cl["friends"]:
        c.note("friend of Counter: %s" % fr)


# ---- critical sections -----------------------------------------------------------


def state_fields(c, clskey, methods, rule_mode="none"):
    """field paths of *this that some operation modifies after construction"""
    out = set()
    for f in methods:
        for a in c.run(f, rule_mode).accesses:
            if a.rw == "w" and a.loc[0] == THISROOT and a.loc[1]:
                out.add(noidx(a.loc)[1])
    return out


def overlaps(p, s):
    return any(p[:len(x)] == x or x[:len(p)] == p for x in s)


def critical(c, clskey, rule, names):
    ms = public_methods(c, clskey)
    mut = state_fields(c, clskey, ms)
    c.req(bool(mut), rule, clskey, "no mutable state found")
    common = None
    for f in ms:
        for mode in ("none", "all"):
            r = c.run(f, mode)
            acc = [a for a in r.accesses if a.loc[0] == THISROOT and overlaps(noidx(a.loc)[1], mut)
                   and not any(s in ("@mutex",) for s in a.loc[1])]
            for a in acc:
                ls = frozenset(l for l in a.locks if l[0] == THISROOT)
                c.req(bool(ls), rule, a.site, "%s %s in %s without holding a lock of the object" % (
                    {"r": "reads", "w": "writes"}[a.rw], showloc(a.loc), sig(f)))
                if ls:
                    common = ls if common is None else common & ls
                    c.req(bool(common), rule, a.site, "%s is accessed in %s under a different lock" % (showloc(a.loc), sig(f)))
            for o in r.outs:
                locks = [(e, l) for e, l in walk(o.events) if e[0] == "lock" and e[1][0] == THISROOT]
                c.req(len(locks) <= 1 and all(not any(True for x in l) for e, l in locks), rule,
                      evsite(locks[-1][0][:4]) if locks else c.where(f),
                      lambda: "%s enters the critical section more than once on a path:\n%s" % (sig(f), describe(o)))
        if f.name in names:
            names = [n for n in names if n != f.name]
            c.sample("%s: %d accesses to %s" % (sig(f), len(acc), sorted(showpath(p) for p in mut)))
    if names:
        raise AnalysisError("anchor %s::%s not found" % (clskey, names[0]))


def c04(c):
    c.rule("section", "every access to state that any operation modifies happens while the object's one lock is held, "
                      "and the lock is taken at most once on each path")
    critical(c, NS + "Histogram", "section", ["Observe", "ObserveMultiple", "Reset", "Collect"])
    critical(c, NS + "Summary", "section", ["Observe", "Collect"])


# ---- histogram --------------------------------------------------------------------

class Hist:
    """the roles of a histogram's fields"""

    def __init__(self, c):
        self.c = c
        K = NS + "Histogram"
        cl = c.P.cls(K)
        vec = [f for f in cl["fields"] if f["t"].qn == "std::vector" and f["t"].ta]
        b = [f for f in vec if f["t"].ta[0].k == "float"]
        n = [f for f in vec if f["t"].ta[0].k == "rec"]
        if len(b) == 2 and not n:
            # both plain vectors: the one that the constructor copies is the bounds
            raise AnalysisError("roles of the histogram's fields are ambiguous")
        if len(b) != 1 or len(n) != 1:
            raise AnalysisError("roles of the histogram's fields are ambiguous")
        self.bounds, self.counts = b[0]["name"], n[0]["name"]
        self.sum = None
        self.B, self.N = fld(self.bounds), fld(self.counts)
        # class invariant, established by the constructors (C07)
        self.inv = {self.N: add(("size", self.B), ("i", 1))}
        for f in c.fns(K + "::Collect", 0):
            for o in c.run(f, sizes=self.inv).rets:
                l = scalar_load(path(retval(o), "histogram", "sample_sum"))
                if l is not None:
                    self.sum = l

    def count_index(self, loc):
        """index when loc is (inside) an element of the bucket counters"""
        if loc[0] == THISROOT and len(loc[1]) >= 2 and loc[1][0] == ("f", self.counts) and loc[1][1][0] == "x" and \
                not any(s[0] == "x" for s in loc[1][2:]):
            return loc[1][1][1]
        return None

    def run(self, f, mode="none"):
        return self.c.run(f, mode, sizes=self.inv)


def eff_rel(fa, a, b):
    r = getrel(fa, a, b, REL_F)
    if "nan" not in fcls(a, fa):
        r = r - {"u"}
    return r


def c05(c):
    c.rule("once", "every path adds the value once to the sum and one to exactly one bucket counter, and nothing else")
    c.rule("bucket", "the chosen bucket is the first one whose bound is >= the value: all bounds before it compare "
                     "less (or unordered) and its own bound compares greater or equal; without such a bound it is the "
                     "last bucket")
    h = Hist(c)
    f = c.fn(NS + "Histogram::Observe", 1)
    v = arg(0)
    for o in h.run(f).outs:
        ms = effects(o)
        s = [m for m in ms if m.kind == "add" and m.loc == h.sum]
        b = [m for m in ms if m.kind != "loop" and h.count_index(m.loc) is not None]
        rest = [m for m in ms if m not in s and m not in b]
        cl = fcls(v, o.facts)
        oks = len(s) == 1 and s[0].val == [v] or not s and cl == {"zero"}
        c.req(o.kind == "ret" and oks and not rest, "once", s[0].site if s else c.where(f),
              lambda: "the sum is not increased exactly once by the value: %s\n%s" % (s + rest, describe(o)))
        okb = len(b) == 1 and b[0].kind == "add" and b[0].val == [("f", 1.0)]
        if not c.req(okb, "once", b[0].site if b else c.where(f),
                     lambda: "not exactly one bucket is increased by one: %s\n%s" % (b, describe(o))):
            continue
        idx = h.count_index(b[0].loc)
        why = bucket_ok(h, o, v, idx)
        c.req(why is None, "bucket", c.where(f), lambda: "bucket %s: %s\n%s" % (show(idx), why, describe(o)))
        c.sample("path with bucket index %s if %r" % (show(idx), o.facts))


def bucket_ok(h, o, v, idx):
    """None when idx is the right bucket on this path, else the reason"""
    fa = o.facts
    B, n = h.B, ("size", h.B)
    below = ABOVE = frozenset(">u")

    def bound(i):
        return ("elem", B, i)
    last = same(idx, n, fa)
    # the bound of the bucket itself
    if not last:
        r = eff_rel(fa, v, bound(idx))
        if not r <= frozenset("<="):
            return "value %s bound[%s] is possible" % ("".join(sorted(r)), show(idx))
    if last and fcls(v, fa) == {"nan"}:
        return None
    # all bounds before it
    if idx[0] == "i":
        for j in range(idx[1]):
            if not eff_rel(fa, v, bound(("i", j))) <= ABOVE:
                return "bound[%d] before it is not known to be below the value" % j
        return None
    if last and rng(n, fa) == ZERO:
        return None
    reasons = []
    for e in o.events:
        if e[0] != "loop":
            continue
        S, mode = e[1], e[2]
        K = S.K()
        rel = [eff_rel(t.facts, v, bound(K)) for t in S.trans]
        if all(r <= ABOVE for r in rel):
            if idx == K:
                return None
            if last and mode == "n" and S.n is not None and same(S.n, n, fa):
                return None
            reasons.append("loop at %s passes the bounds below the value but the index is not its position" % S.site)
            continue
        # a loop from the last bound downwards (the bounds are sorted)
        j = sub(sub(n, K), ("i", 1))
        rel2 = [eff_rel(t.facts, v, bound(j)) for t in S.trans]
        if all(r <= frozenset("<=") for r in rel2):
            if same(idx, sub(n, K), fa):
                r = eff_rel(fa, v, bound(j))
                if mode == "n" or r <= ABOVE:
                    return None
            continue
        reasons.append("the loop at %s passes bounds that compare %s to the value" % (
            S.site, " or ".join("".join(sorted(r)) for r in rel)))
    if last and not any(e[0] == "loop" for e in o.events):
        return "no bound is compared with the value"
    return "; ".join(reasons) or "no search over the bounds precedes it"


def c06(c):
    c.rule("list", "the bucket list has one entry per boundary in order plus a last one with bound +Inf")
    c.rule("cumulative", "each entry's count is the running total including its own bucket counter, carried in 64 bits "
                         "or more")
    c.rule("totals", "the sample count is the final running total and the sample sum is the sum that observations add to")
    h = Hist(c)
    f = c.fn(NS + "Histogram::Collect", 0)
    n = ("size", h.B)
    for o in h.run(f).outs:
        w = c.where(f)
        if not c.req(o.kind == "ret", "list", w, lambda: "Collect fails:\n" + describe(o)):
            continue
        v = retval(o)
        ps = parts(path(v, "histogram", "bucket"))
        fa = o.facts
        off, cum, good = ("i", 0), [], True
        for p in ps:
            if p[0] == "loop":
                S, loc, mode = p[1], p[2], p[3]
                if not c.req(mode == "n" and S.n is not None, "list", S.site, "the loop may stop early"):
                    good = False
                    break
                i = add(off, S.K())
                nxt = set()
                for t in S.trans:
                    q = t.parts.get(loc, ())
                    if not c.req(len(q) == 1 and q[0][0] == "one", "list", S.site,
                                 "an iteration appends %d entries" % len(q)):
                        good = False
                        continue
                    good &= entry_ok(c, h, q[0][1], i, t.facts, S, cum, nxt)
                off = add(off, S.n)
                cum = [("phi", S.lid, l) for l in nxt] if len(nxt) == 1 else None
            elif p[0] == "one":
                nxt = set()
                good &= entry_ok(c, h, p[1], off, fa, None, cum, nxt)
                cum = list(nxt)[0] if nxt else None
                off = add(off, ("i", 1))
            else:
                good = False
                c.req(False, "list", w, "bucket list contains %s" % showpart(p))
            if cum is None:
                good = False
                break
        c.req(good and same(off, add(n, ("i", 1)), fa), "list", w,
              lambda: "the list has %s entries instead of one per bucket" % show(off))
        cnt = plain(path(v, "histogram", "sample_count"))
        c.req(cum is not None and cnt is not None and sorted(cnt, key=repr) == sorted(cum, key=repr), "totals", w,
              lambda: "sample count is %s" % show(path(v, "histogram", "sample_count")))
        sl = scalar_load(path(v, "histogram", "sample_sum"))
        c.req(sl is not None and not any(s[0] == "x" for s in sl[1]) and not effects(o), "totals", w,
              lambda: "sample sum is %s" % show(path(v, "histogram", "sample_sum")))
        # observations add to that very sum
        g = c.fn(NS + "Histogram::Observe", 1)
        for o2 in h.run(g).rets:
            c.req(any(m.kind == "add" and m.loc == sl for m in effects(o2)) or fcls(arg(0), o2.facts) == {"zero"},
                  "totals", c.where(g), "the sum that is collected is not the one that observations add to")
        for g in c.fns(NS + "Histogram::ObserveMultiple", 2):
            for o2 in h.run(g).rets:
                c.req(any(m.kind == "add" and m.loc == sl for m in effects(o2)) or fcls(arg(1), o2.facts) == {"zero"},
                      "totals", c.where(g), "the sum that is collected is not the one that bulk observations add to")


def entry_ok(c, h, b, i, fa, S, cum, nxt):
    """one list entry: bound and running total"""
    site = S.site if S else "core/src/histogram.cc"
    ub = path(b, "upper_bound")
    n = ("size", h.B)
    d = rng(sub(i, n), fa)
    okb = ub == ("elem", h.B, i) and (d.subset(IntSet([(-INF, -1)]))) or ub == ("f", INF) and d == ZERO
    ok = c.req(okb, "list", site, lambda: "bound of entry %s is %s" % (show(i), show(ub)))
    cc = plain(path(b, "cumulative_count"))
    if cc is None:
        return c.req(False, "cumulative", site, "the running total is narrowed: %s" % show(path(b, "cumulative_count"))) and ok
    own = [x for x in cc if scalar_load(x) is not None and h.count_index(scalar_load(x)) == i]
    rest = [x for x in cc if x not in own]
    if S is None:
        good = len(own) == 1 and sorted(rest, key=repr) == sorted(cum, key=repr)
        if good:
            nxt.add(tuple(cc))
            return c.req(True, "cumulative", site) and ok
    elif len(own) == 1 and len(rest) == 1 and rest[0][0] == "phi" and rest[0][1] == S.lid:
        l = rest[0][2]
        init = plain(S.phis[l])
        good = init is not None and sorted(init, key=repr) == sorted(cum, key=repr)
        for t in S.trans:
            x = plain(t.phi[l])
            good = good and x is not None and len(x) == len(cc) and [y for y in x if y[0] == "phi"] == rest and \
                all(y in rest or scalar_load(y) is not None and h.count_index(scalar_load(y)) == i for y in x)
        if good:
            nxt.add(l)
            return c.req(True, "cumulative", site) and ok
    return c.req(False, "cumulative", site, lambda: "count of entry %s is %s, not the running total" % (
        show(i), show(path(b, "cumulative_count")))) and ok


def c07(c):
    c.rule("strict", "a constructor returns only on paths where every adjacent pair of boundaries was found to be "
                     "strictly increasing (NaN compares as neither)")
    c.rule("reject", "a constructor fails only if some adjacent pair is not strictly increasing")
    c.rule("init", "a constructed histogram has the given boundaries, one zero counter per boundary plus one, sum zero")
    c.rule("size", "a bulk observation fails exactly when the sizes differ, and then changes nothing")
    c.rule("bulk", "a valid bulk observation adds each increment to its own bucket and the sum once to the sum")
    c.rule("reset", "a reset zeroes every bucket and the sum")
    h = Hist(c)
    K = NS + "Histogram"
    A = arg(0)
    na = ("size", A)
    ctors = [f for f in c.fns(K + "::Histogram", 1) if not f.implicit and f.params[0]["t"].strip().qn == "std::vector"]
    if not ctors:
        raise AnalysisError("anchor Histogram constructors not found")
    for f in ctors:
        w = c.where(f)
        for o in c.run(f).outs:
            if o.kind == "ret":
                c.req(strict_ok(o, A, na), "strict", w,
                      lambda: "boundaries that are not strictly increasing are accepted:\n" + describe(o))
                v = fields_after(o)
                b, cn = path(v, h.bounds), path(v, h.counts)
                if cn[0] == "seq" and len(cn[1]) == 1 and cn[1][0][0] == "rep":
                    z = iszero(cn[1][0][2])
                else:
                    z = False
                c.req(b == A and z and same(sizeof(cn), add(na, ("i", 1)), o.facts), "init", w,
                      lambda: "boundaries %s, counters %s" % (show(b), show(cn)))
                if h.sum is not None:
                    c.req(iszero(vget(v, h.sum[1])), "init", w, lambda: "sum starts as %s" % show(vget(v, h.sum[1])))
            else:
                rel = [(a, b, r) for (a, b), r in o.facts.rel.items() if adjacent(a, b, A) is not None]
                nanny = [t for t, k in o.facts.fc.items() if k == {"nan"} and t[0] == "elem" and t[1] == A]
                bad = [1 for a, b, r in rel if "<" not in (r if adjacent(a, b, A) == 1 else {FLIP[x] for x in r})]
                c.req(bool(bad or nanny), "reject", w, lambda: "strictly increasing boundaries may be rejected:\n" + describe(o))
    for f in c.fns(K + "::ObserveMultiple", 2):
        w = c.where(f)
        d = sub(na, add(("size", h.B), ("i", 1)))
        for o in h.run(f).outs:
            ms = effects(o)
            if o.kind != "ret":
                c.req(not ms, "size", w, lambda: "a failing bulk observation changes the histogram:\n" + describe(o))
                c.req(0 not in rng(d, o.facts), "size", w, lambda: "a bulk observation of the right size may fail:\n" + describe(o))
                continue
            c.req(rng(d, o.facts) == ZERO, "size", w, lambda: "a bulk observation of a wrong size is accepted:\n" + describe(o))
            s = [m for m in ms if m.kind == "add" and m.loc == h.sum]
            c.req(len(s) == 1 and s[0].val == [arg(1)] or not s and fcls(arg(1), o.facts) == {"zero"}, "bulk", w,
                  lambda: "the sum is not added exactly once: %s\n%s" % (s, describe(o)))
            rest = [m for m in ms if m not in s]
            ok = len(rest) == 1 and rest[0].kind == "loop"
            if ok:
                L = rest[0]
                ok = L.mode == "n" and L.S.n is not None and same(L.S.n, add(("size", h.B), ("i", 1)), o.facts)
                i = None
                for t, tm in L.trans:
                    K1 = L.S.K()
                    e = ("elem", A, K1)
                    if not tm:
                        ok = ok and fcls(e, t.facts) <= NEGC | {"zero"}
                    else:
                        ok = ok and len(tm) == 1 and tm[0].kind == "add" and h.count_index(tm[0].loc) == K1 and tm[0].val == [e]
            else:
                ok = not rest and rng(add(("size", h.B), ("i", 1)), o.facts) == ZERO
            c.req(ok, "bulk", w, lambda: "the increments do not all reach their own bucket once: %s\n%s" % (rest, describe(o)))
    f = c.fn(K + "::Reset", 0)
    for o in h.run(f).outs:
        ms = effects(o)
        s = [m for m in ms if m.kind == "set" and m.loc == h.sum and iszero(m.val)]
        rest = [m for m in ms if m not in s]
        ok = len(rest) == 1 and rest[0].kind == "loop" and rest[0].mode == "n" and rest[0].S.n is not None and \
            same(rest[0].S.n, add(("size", h.B), ("i", 1)), o.facts) and all(
                len(tm) == 1 and tm[0].kind == "set" and iszero(tm[0].val) and h.count_index(tm[0].loc) == rest[0].S.K()
                for t, tm in rest[0].trans)
        c.req(o.kind == "ret" and ok, "reset", c.where(f), lambda: "not every bucket is zeroed: %s\n%s" % (rest, describe(o)))
        c.req(len(s) == 1, "reset", c.where(f), lambda: "the sum is not zeroed:\n" + describe(o))


def adjacent(a, b, A):
    """1 when (a, b) is (A[i], A[i+1]), -1 for the reverse order"""
    if a[0] == "elem" and b[0] == "elem" and a[1] == A and b[1] == A:
        d = sub(b[2], a[2])
        if d == ("i", 1):
            return 1
        if d == ("i", -1):
            return -1
    return None


def strict_ok(o, A, na):
    fa = o.facts
    if rng(na, fa).max() <= 1:
        return True
    for e in o.events:
        if e[0] != "loop":
            continue
        S, mode = e[1], e[2]
        K = S.K()
        a, b = ("elem", A, K), ("elem", A, add(K, ("i", 1)))
        if not all(getrel(t.facts, a, b, REL_F) <= frozenset("<") for t in S.trans):
            continue
        if mode == "n" and S.n is not None:
            if rng(sub(S.n, na), fa).min() >= -1:
                return True
            continue
        if rng(sub(K, na), fa).min() >= -1:
            return True
    return False


# ---- summary -------------------------------------------------------------------------

TW = NS + "detail::TimeWindowQuantiles"


def c08(c):
    c.rule("observe", "every path of Observe adds one to the count, the value to the sum and hands the value once to "
                      "the quantile window, and nothing else")
    c.rule("entries", "Collect lists one entry per configured quantile in order, each with the window's estimate for "
                      "that same quantile")
    c.rule("totals", "Collect reports the count and sum that observations update")
    opq = (TW + "::insert", TW + "::get")
    for q in opq:
        c.fn(q, 1)
    f = c.fn(NS + "Summary::Observe", 1)
    cnt = sm = win = None
    for o in c.run(f, opaque=opq).outs:
        ms = effects(o)
        one = [m for m in ms if m.kind == "add" and m.val in ([("i", 1)], [("f", 1.0)])]
        val = [m for m in ms if m.kind == "add" and m.val == [arg(0)]]
        ins = [(e, l) for e, l in walk(o.events) if e[0] == "opaque" and e[1] == opq[0]]
        ok = o.kind == "ret" and len(one) == 1 and (len(val) == 1 or not val and fcls(arg(0), o.facts) == {"zero"}) and \
            len(ms) == len(one) + len(val) and len(ins) == 1 and not ins[0][1] and ins[0][0][2][1] == arg(0)
        c.req(ok, "observe", c.where(f), lambda: "updates %s, window insertions %s\n%s" % (
            ms, [showev(e)[:200] for e, l in ins], describe(o)))
        if ok:
            cnt = one[0].loc
            sm = val[0].loc if val else sm
            win = ins[0][0][2][0]
    f = c.fn(NS + "Summary::Collect", 0)
    cl = c.P.cls(NS + "Summary")
    qf = [x["name"] for x in cl["fields"] if x["t"].qn == "std::vector"]
    for o in c.run(f, opaque=opq).outs:
        v = path(retval(o), "summary")
        c.req(o.kind == "ret" and scalar_load(path(v, "sample_count")) == cnt and scalar_load(path(v, "sample_sum")) == sm
              and cnt is not None and sm is not None and not effects(o), "totals", c.where(f),
              lambda: "count %s, sum %s" % (show(path(v, "sample_count")), show(path(v, "sample_sum"))))
        ps = parts(path(v, "quantile"))
        ok = len(ps) == 1 and ps[0][0] == "loop" and ps[0][3] == "n"
        if ok:
            S, loc = ps[0][1], ps[0][2]
            qs = [q for q in qf if S.n == ("size", fld(q))]
            ok = len(qs) == 1
            for t in S.trans:
                p = t.parts.get(loc, ())
                if not ok or len(p) != 1 or p[0][0] != "one":
                    ok = False
                    break
                want = ("fld", ("elem", fld(qs[0]), S.K()), "quantile")
                e = p[0][1]
                val = path(e, "value")
                ok = path(e, "quantile") == want and val[0] == "call" and val[1] == opq[1] and val[2] == (win, want)
        c.req(ok, "entries", c.where(f), lambda: "quantile list is %s\n%s" % (show(path(v, "quantile")), describe(o)))


CHECKS = {"C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
