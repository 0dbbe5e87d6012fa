"""C12-C16: families and registries."""
from chk import *
from names import metric_type

NS = "prometheus::"
KINDS = ("Counter", "Gauge", "Histogram", "Info", "Summary")
CHECKFNS = (NS + "CheckMetricName", NS + "CheckLabelName")
CTORS = tuple(NS + k + "::" + k for k in KINDS)


def famcls(k):
    return "Family<%s%s>" % (NS, k)


def fam(c, k):
    """class key of Family<k>"""
    return NS + famcls(k)


def map_field(c, k):
    """the field of Family<k> that owns the metrics: name, class entry"""
    out = []
    for fl in c.P.cls(fam(c, k))["fields"]:
        t = fl["t"]
        if t.qn in ("std::unordered_map", "std::map") and t.ta and t.ta[0].qn == "std::map":
            out.append(fl)
    if len(out) != 1:
        raise AnalysisError("no unique container of metrics in " + fam(c, k))
    return out[0]["name"]


def ctor_fields(c, k):
    """fields that the constructor of Family<k> fills with name, help and constant labels"""
    f = c.fn(NS + "Family::Family", 3, fam(c, k))
    r = c.run(f, opaque=CHECKFNS)
    roles = {}
    for o in r.rets:
        v = fields_after(o)
        if v[0] != "obj":
            raise AnalysisError("the constructor of %s is not understood" % fam(c, k))
        for fn, x in v[2]:
            for n in range(3):
                if x == arg(n):
                    roles.setdefault(n, set()).add(fn)
    return f, r, {n: sorted(s)[0] for n, s in roles.items()}


def covers(o, M, good):
    """the path has visited every element of the container M and found `good` for each of them"""
    if rng(("size", M), o.facts) == ZERO:
        return True
    for e in o.events:
        if e[0] == "loop" and e[2] == "n" and e[1].n is not None and same(e[1].n, ("size", M), o.facts):
            S = e[1]
            for ix in (S.K(), sub(sub(S.n, ("i", 1)), S.K())):
                if S.trans and all(good(t.facts, ("elem", M, ix)) for t in S.trans):
                    return True
    return False


def istrue(fa, t):
    return rng(t, fa) == ONE or fa.lit.get(t) is True


def isfalse(fa, t):
    return rng(t, fa) == ZERO or fa.lit.get(t) is False


ONE = IntSet.of(1)


def calls(fa, qn):
    """known results of calls of a checking function: (args, result)"""
    out = {}
    for t, d in list(fa.dom.items()) + [(t, IntSet.of(int(b))) for t, b in fa.lit.items()]:
        if t[0] in ("call", "pcall") and t[1] == qn and d.single() is not None:
            out[t] = (t[2], d.single())
    return list(out.values())


def label_ok(fa, name, ty):
    return any(a == (name, ("i", ty)) and r for a, r in calls(fa, NS + "CheckLabelName"))


def label_bad(fa, ty, M):
    """an element of M whose name has been rejected for this metric type"""
    for a, r in calls(fa, NS + "CheckLabelName"):
        if not r and len(a) == 2 and a[1] == ("i", ty) and a[0][0] == "fld" and a[0][2] == "first" \
                and a[0][1][0] == "elem" and a[0][1][1] == M:
            return True
    return False


def some_bad(o, test):
    """the path has met a bad element: in its facts or in every run of a searching loop"""
    if test(o.facts):
        return True
    for e in o.events:
        if e[0] == "loop":
            S = e[1]
            if len(S.heads) == 2 and S.heads[0] != S.heads[1]:
                reach = {S.heads[0]}
                for _ in range(12):
                    reach |= {t.dst for t in S.trans if t.src in reach and not test(t.facts)}
                if S.heads[1] not in reach:
                    return True
    return False


def one_critical(c, rule, f, o, what):
    """one uninterrupted critical section"""
    ls = [(e, l) for e, l in walk(o.events) if e[0] == "lock"]
    c.req(len(ls) == 1 and not ls[0][1], rule, evsite(ls[-1][0]) if ls else c.where(f),
          lambda: "%s is not one critical section (%d locks)\n%s" % (what, len(ls), describe(o)))


def adds(c, k):
    return [f for f in c.fns(NS + "Family::Add", None, fam(c, k)) if f.body is not None]


def mapafter(o, mf):
    return o.st.get((THISROOT, (("f", mf),)))


def others_changed(o, mf):
    """changes of *this outside the container of metrics"""
    return [m for m in store_mods(o) if not (m.loc[1] and m.loc[1][0] == ("f", mf))]


def c12(c):
    c.rule("ctor", "a family is constructed only on paths where the metric name check and, for every constant label, the "
                   "label name check for the family's own metric type have succeeded")
    c.rule("add", "a new metric is inserted only on paths where every label has passed the label name check for the "
                  "family's own type and has been found absent from the constant labels")
    c.rule("reject", "every failing path has found an invalid or clashing name")
    c.rule("rollback", "on every failing path the container of metrics and every other field are what they were")
    for k in KINDS:
        ty = metric_type(c, k)
        f, r, roles = ctor_fields(c, k)
        w = c.where(f)
        name, cl = arg(0), arg(2)
        okrets = 0
        for o in r.outs:
            nm = [x for a, x in calls(o.facts, NS + "CheckMetricName") if a == (name,)]
            if o.kind == "ret":
                okrets += 1
                c.req(bool(nm) and nm[0] == 1, "ctor", w, lambda: "family with unchecked metric name\n" + describe(o))
                c.req(covers(o, cl, lambda fa, e: label_ok(fa, ("fld", e, "first"), ty)), "ctor", w,
                      lambda: "family with unchecked constant label names\n" + describe(o))
            else:
                c.req(bool(nm) and nm[0] == 0 or some_bad(o, lambda fa: label_bad(fa, ty, cl)), "reject", w,
                      lambda: "a family with legal names is rejected\n" + describe(o))
        c.req(okrets, "ctor", w, "no path constructs a family")
        c.req(2 in roles and 0 in roles and 1 in roles, "ctor", w, "name, help or constant labels are not kept as given")
        cf = fld(roles.get(2, "constant_labels_"))
        mf = map_field(c, k)
        M = fld(mf)
        L = arg(0)
        for f in adds(c, k):
            w = c.where(f)
            priv = is_private_add(f)
            for o in c.run(f, opaque=CHECKFNS + CTORS).outs:
                m = mapafter(o, mf)
                if o.kind == "ret":
                    if m == M:
                        continue          # C13: the existing metric
                    c.req(covers(o, L, lambda fa, e: label_ok(fa, ("fld", e, "first"), ty)), "add", w,
                          lambda: "a metric is added without checking all of its label names for type %d\n%s" % (ty, describe(o)))
                    c.req(covers(o, L, lambda fa, e: isfalse(fa, ("has", cf, ("fld", e, "first")))) or
                          covers(o, cf, lambda fa, e: isfalse(fa, ("has", L, ("fld", e, "first")))), "add", w,
                          lambda: "a metric is added without checking its labels against the constant labels\n" + describe(o))
                else:
                    c.req(m == M and not others_changed(o, mf) and not mods(o.events, lambda l: l[0] == THISROOT), "rollback", w,
                          lambda: "a failed addition leaves the family changed: %s\n%s" % (show(m), describe(o)))
                    if priv:
                        c.req(some_bad(o, lambda fa: label_bad(fa, ty, L) or clash(fa, cf, L)), "reject", w,
                              lambda: "a metric with legal labels is rejected\n" + describe(o))


            for o in c.run(f, mode="all", opaque=CTORS).throws:
                left = store_mods(o)
                c.req(not left, "rollback", w, lambda: "an addition that fails leaves %s\n%s" % (left, describe(o)))


def clash(fa, cf, L):
    for t, d in list(fa.dom.items()) + [(t, IntSet.of(int(b))) for t, b in fa.lit.items()]:
        if t[0] == "has" and d == ONE and t[1] in (cf, L):
            o = L if t[1] == cf else cf
            if t[2][0] == "fld" and t[2][2] == "first" and t[2][1][0] == "elem" and t[2][1][1] == o:
                return True
    return False


def is_private_add(f):
    return f.params and len(f.params) == 2 and f.params[1]["t"].qn == "std::unique_ptr"


def pointee(v):
    """root of the object a pointer value points to"""
    if v[0] == "ptr":
        return v[1]
    return (("p", v), ())


def c13(c):
    c.rule("existing", "a path on which the label set is present changes nothing and returns the metric stored for it")
    c.rule("new", "a path on which it is absent stores the new object under exactly that label set and returns a reference "
                  "to the stored object itself, which the container owns through a pointer")
    c.rule("remove", "only the entry whose object is the given metric is erased; if nothing is erased, every entry has "
                     "been compared and differs")
    c.rule("has", "the answer is true exactly when the container has the given label set")
    c.rule("only", "no other public member function changes the container")
    c.rule("atomic", "lookup and change happen in one critical section")
    for k in KINDS:
        mf = map_field(c, k)
        M, L = fld(mf), arg(0)
        loc = (THISROOT, (("f", mf),))
        for f in adds(c, k):
            w = c.where(f)
            new = ex = 0
            for o in c.run(f, opaque=CHECKFNS + CTORS).outs:
                if o.kind != "ret":
                    continue
                m = mapafter(o, mf)
                h = istrue(o.facts, ("has", M, L)), isfalse(o.facts, ("has", M, L))
                val = o.val[1] if o.val and o.val[0] == "L" else None
                one_critical(c, "atomic", f, o, "adding a metric")
                c.req(val is not None and not others_changed(o, mf), "new", w, lambda: "adding changes other state\n" + describe(o))
                if m == M:
                    ex += 1
                    c.req(h[0], "existing", w, lambda: "nothing is added although the label set may be absent\n" + describe(o))
                    e = ("fld", ("elem", M, ("find", M, L)), "second")
                    c.req(val in ((("p", e), ()), (loc[0], loc[1] + (("x", ("find", M, L)), ("f", "second")))) or is_found(o, M, L, val),
                          "existing", w, lambda: "the result is not the existing metric\n" + describe(o))
                else:
                    new += 1
                    c.req(h[1], "new", w, lambda: "an existing metric may be replaced\n" + describe(o))
                    ok = m[0] == "mins" and m[1] == M and m[2] == L
                    c.req(ok and val == pointee(m[3]), "new", w,
                          lambda: "the result %s is not the object stored for exactly this label set in %s\n%s" % (
                              showloc(val), show(m), describe(o)))
                    gone = [e for e, l in walk(o.events) if e[0] in ("del", "dtor", "deleter") and ok and repr(pointee(m[3])) in repr(e)]
                    c.req(not gone, "new", w, lambda: "the stored object is destroyed\n" + describe(o))
            c.req(new and ex, "new", w, "no path adds or no path finds a metric")
        f = c.fn(NS + "Family::Remove", 1, fam(c, k))
        w = c.where(f)
        erased = 0
        for o in c.run(f).outs:
            m = mapafter(o, mf)
            one_critical(c, "atomic", f, o, "removing a metric")
            g = arg(0)
            c.req(o.kind == "ret" and not others_changed(o, mf), "remove", w, lambda: "removing fails or changes other state\n" + describe(o))
            if m == M:
                c.req(covers(o, M, lambda fa, e: differ(fa, ("fld", e, "second"), g)), "remove", w,
                      lambda: "the given metric may be present and is not removed\n" + describe(o))
            else:
                erased += 1
                ok = m[0] == "merase" and m[1] == M and equal(o.facts, ("fld", ("elem", M, m[2]), "second"), g)
                c.req(ok, "remove", w, lambda: "what is removed is not exactly the given metric: %s\n%s" % (show(m), describe(o)))
        c.req(erased, "remove", w, "no path removes a metric")
        f = c.fn(NS + "Family::Has", 1, fam(c, k))
        w = c.where(f)
        r = c.run(f)
        for o in r.outs:
            c.req(o.kind == "ret" and not effects(o), "has", w, lambda: "Has fails or changes the family\n" + describe(o))
            if o.kind == "ret":
                for s, b in r.E.split(o.st, retval(o)):
                    c.req(has_known(s.facts, o, M, L) is b, "has", w, lambda: "the answer %s is wrong\n%s" % (b, describe(o)))
        for f in public_methods(c, fam(c, k)):
            n = f.qn.rsplit("::", 1)[1]
            if n in ("Add", "Remove"):
                continue
            for o in c.run(f, opaque=CTORS + tuple(NS + x + "::Collect" for x in KINDS)).outs:
                c.req(mapafter(o, mf) == M and not [e for e in o.events if e[0] in ("mapins", "mapset", "maperase") and e[1] == loc],
                      "only", c.where(f), lambda: "%s changes the container of metrics\n%s" % (n, describe(o)))


def has_known(fa, o, M, L):
    if istrue(fa, ("has", M, L)):
        return True
    if isfalse(fa, ("has", M, L)):
        return False
    for (a, b), r in fa.rel.items():
        for x, y in ((a, b), (b, a)):
            if x == L and y[0] == "fld" and y[2] == "first" and y[1][0] == "elem" and y[1][1] == M and r <= frozenset("="):
                return True
    if covers(o, M, lambda f2, e: differ(f2, ("fld", e, "first"), L)):
        return False
    return None


def differ(fa, a, b):
    """not the same value; strings and containers of different sizes are not"""
    if "=" not in getrel(fa, a, b, REL_F):
        return True
    a, b = sizeof(a), sizeof(b)
    return "=" not in getrel(fa, a, b, REL_F) or 0 not in rng(sub(a, b), fa)


def equal(fa, a, b):
    return a == b or getrel(fa, a, b, REL_F) <= frozenset("=")


def is_found(o, M, L, val):
    """the result belongs to an element whose key has been found equal to L"""
    if not val or val[1] or val[0][0] != "p":
        return False
    v = val[0][1]
    return v[0] == "fld" and v[2] == "second" and v[1][0] == "elem" and v[1][1] == M and \
        equal(o.facts, ("fld", v[1], "first"), L)


# ---- collecting ---------------------------------------------------------------------

def parts_of(v):
    """parts of a sequence value, nested single-source parts flattened"""
    if v == ZEROV or v == ("s", b""):
        return []
    if v[0] == "seq":
        return [p for p in v[1] if not (p[0] == "lit" and not p[1])]
    return [("all", v)]


def iterpart(p):
    """(number, index term, [(facts, parts)]): what one loop-like part contributes per iteration, or None"""
    if p[0] == "loop":
        S, l, mode = p[1], p[2], p[3]
        if mode != "n" or S.n is None:
            return None
        out = [(t.facts, [x for x in t.parts.get(l, ())]) for t in S.trans]
        return S.n, S.K(), out, S
    return None


def per_element(p, M, fa):
    """p contributes the same way for each element of M, in order: [(facts, parts)], element term; or None"""
    it = iterpart(p)
    if it is None:
        return None
    n, K, outs, S = it
    if not same(n, ("size", M), fa) or not outs:
        return None
    return ("elem", M, K), outs, S


def is_labels(parts, fa, sources, prefix=None):
    """parts list the labels of the given maps in order; returns reason or None"""
    i = 0
    if prefix is not None:
        if not parts or parts[0] != prefix:
            return "does not start with the metric's own label list %s" % show(prefix[1])
        i = 1
    for M in sources:
        if i >= len(parts):
            if rng(("size", M), fa) == ZERO:
                continue
            return "labels of %s are missing" % show(M)
        q = per_element(parts[i], M, fa)
        if q is None:
            if rng(("size", M), fa) == ZERO:
                continue
            return "labels of %s are not listed completely" % show(M)
        e, outs, S = q
        for tf, ps in outs:
            if len(ps) != 1 or ps[0][0] != "one":
                return "not exactly one label per entry of %s" % show(M)
            v = ps[0][1]
            for fn, src in (("name", "first"), ("value", "second")):
                if path(v, fn) != ("fld", e, src):
                    return "label %s is %s instead of %s" % (fn, show(path(v, fn)), show(("fld", e, src)))
        i += 1
    if i != len(parts):
        return "extra labels: %s" % parts[i:]
    return None


def c14(c):
    c.rule("empty", "the empty list is returned exactly when the family has no metric")
    c.rule("family", "otherwise exactly one metric family with the name and help given at construction and the type of "
                     "the metrics")
    c.rule("metrics", "its list of metrics has exactly one entry for each element of the container, based on what that "
                      "metric's own Collect() returns")
    c.rule("labels", "the labels of an entry are the constant labels, then the element's own labels, each exactly once and "
                     "with unaltered name and value; a metric's own Collect() reports no labels")
    for k in KINDS:
        ty = metric_type(c, k)
        _, _, roles = ctor_fields(c, k)
        mf = map_field(c, k)
        M = fld(mf)
        cl = fld(roles.get(2, "constant_labels_"))
        f = c.fn(NS + "Family::Collect", 0, fam(c, k))
        w = c.where(f)
        one = NS + k + "::Collect"
        full = 0
        g = c.fn(NS + k + "::Collect", 0)
        for o in c.run(g).outs:
            if o.kind == "ret":
                c.req(iszero(path(retval(o), "label")) or not parts_of(path(retval(o), "label")), "labels", c.where(g),
                      lambda: "a metric reports labels of its own\n" + describe(o))
        for o in c.run(f, opaque=(one,)).outs:
            c.req(o.kind == "ret" and not effects(o), "family", w, lambda: "collecting fails or changes the family\n" + describe(o))
            if o.kind != "ret":
                continue
            ps = parts_of(retval(o))
            if not ps:
                c.req(rng(("size", M), o.facts) == ZERO, "empty", w, lambda: "a family with metrics may report nothing\n" + describe(o))
                continue
            full += 1
            c.req(0 not in rng(("size", M), o.facts), "empty", w, lambda: "a family without metrics reports something\n" + describe(o))
            if not c.req(len(ps) == 1 and ps[0][0] == "one", "family", w, lambda: "not exactly one metric family\n" + describe(o)):
                continue
            v = ps[0][1]
            for n, fn in ((0, "name"), (1, "help")):
                c.req(path(v, fn) == fld(roles.get(n, "?")), "family", w, lambda: "%s is %s\n%s" % (fn, show(path(v, fn)), describe(o)))
            c.req(path(v, "type") == ("i", ty), "family", w, lambda: "type is %s\n%s" % (show(path(v, "type")), describe(o)))
            ms = parts_of(path(v, "metric"))
            q = per_element(ms[0], M, o.facts) if len(ms) == 1 else None
            if not c.req(q is not None, "metrics", w, lambda: "the metrics of the container are not listed each exactly once\n" + describe(o)):
                continue
            e, outs, S = q
            for tf, ep in outs:
                if not c.req(len(ep) == 1 and ep[0][0] == "one", "metrics", S.site, lambda: "not exactly one entry per metric: %s" % (ep,)):
                    continue
                entry_check(c, ep[0][1], one, ("fld", e, "second"), tf, cl, ("fld", e, "first"), S.site)
        c.req(full, "metrics", w, "no path reports metrics")


def entry_check(c, x, one, obj, fa, cl, own, site):
    base = None

    def find(t):
        nonlocal base
        if t[0] == "call" and t[1] == one:
            base = t
            return True
        return False
    occurs(x, find)
    if not c.req(base is not None and base[2][:1] == (obj,), "metrics", site,
                 lambda: "an entry is not what the metric's own Collect() returns: %s" % show(x)[:300]):
        return
    for fn in ("counter", "gauge", "summary", "histogram", "untyped", "info", "timestamp_ms"):
        b = proj(base, ("f", fn))
        c.req(path(x, fn) == b, "metrics", site, lambda: "%s of an entry is %s" % (fn, show(path(x, fn))))
    ls = parts_of(path(x, "label"))
    why = is_labels(ls, fa, (cl, own), ("all", proj(base, ("f", "label"))))
    if why:
        why2 = is_labels(ls, fa, (cl, own))
        why = why2 and why
    c.req(why is None, "labels", site, lambda: "%s in %s" % (why, show(x)[:300]))


# ---- registry ------------------------------------------------------------------------

def reg_fields(c):
    """metric kind -> field of Registry that owns the families of that kind"""
    out = {}
    for fl in c.P.cls(NS + "Registry")["fields"]:
        t = fl["t"]
        for k in KINDS:
            if NS + famcls(k) in str(t) and t.qn == "std::vector":
                out.setdefault(k, []).append(fl["name"])
    for k in KINDS:
        if len(out.get(k, ())) != 1:
            raise AnalysisError("no unique container of %s families in Registry" % k)
    return {k: v[0] for k, v in out.items()}


def c15(c):
    c.rule("collect", "the result is one part per container of families; each lists, for every element in order, all that "
                      "the family reports and nothing else")
    c.rule("remove", "the element whose address is the argument, and only it, is erased on the paths that answer true; on "
                     "the others nothing changes and every element has been compared and differs")
    c.rule("atomic", "everything happens in one critical section")
    F = reg_fields(c)
    f = c.fn(NS + "Registry::Collect", 0)
    w = c.where(f)
    fc = NS + "Family::Collect"
    for o in c.run(f, opaque=(fc,)).outs:
        one_critical(c, "atomic", f, o, "collecting")
        c.req(o.kind == "ret" and not effects(o), "collect", w, lambda: "collecting fails or changes the registry\n" + describe(o))
        if o.kind != "ret":
            continue
        left = dict(F)
        for p in parts_of(retval(o)):
            hit = None
            for k, fn in left.items():
                q = per_element(p, fld(fn), o.facts)
                if q:
                    e, outs, S = q
                    okay = all(len(ps) == 1 and ps[0][0] == "all" and ps[0][1][0] == "call" and ps[0][1][1] == fc and
                               ps[0][1][2][:1] == (e,) for tf, ps in outs)
                    c.req(okay, "collect", S.site, lambda: "what the %s families report is not taken over completely: %s" % (k, outs[0][1]))
                    hit = k
                    break
            if hit:
                del left[hit]
            else:
                c.req(False, "collect", w, lambda: "the result has an unexpected part %s\n%s" % (p, describe(o)))
        for k, fn in left.items():
            c.req(rng(("size", fld(fn)), o.facts) == ZERO, "collect", w, lambda: "the %s families are not collected\n%s" % (k, describe(o)))
    for k in KINDS:
        f = c.fn(NS + "Registry::Remove", 1, None, lambda f: f.ta and str(f.ta[0]).endswith("::" + k))
        w = c.where(f)
        V = fld(F[k])
        true = 0
        r = c.run(f)
        for o in r.outs:
            one_critical(c, "atomic", f, o, "removing")
            if not c.req(o.kind == "ret", "remove", w, lambda: "removing fails\n" + describe(o)):
                continue
            oth = [m for m in store_mods(o) if m.loc[1][:1] != (("f", F[k]),)]
            c.req(not oth, "remove", w, lambda: "removing changes %s\n%s" % (oth, describe(o)))
            v = o.st.get((THISROOT, (("f", F[k]),)))
            a = ("sym", "arg0")
            for s, b in r.E.split(o.st, retval(o)):
                fl = filtered(v, V, a)
                if fl is not None:
                    true += 1
                    gone = [d for t, d in s.facts.dom.items() if t[0] == "size" and occurs(t, lambda x: x[0] == "junk")]
                    c.req(len(gone) == 1 and (gone[0] == ZERO) is not b and (0 in gone[0]) is not b, "remove", w,
                          lambda: "the answer does not tell whether a family was removed\n" + describe(o))
                elif b:
                    true += 1
                    ix = erased_index(v, V)
                    c.req(ix is not None and equal(s.facts, ("elem", V, ix), a), "remove", w,
                          lambda: "exactly the given family should be removed, the container becomes %s\n%s" % (show(v), describe(o)))
                else:
                    c.req(v == V and covers(o, V, lambda fa, e: differ(fa, e, a)), "remove", w,
                          lambda: "the answer is false although the family may be present or something was removed\n" + describe(o))
        c.req(true, "remove", w, "no path removes a family")


def filtered(v, V, a):
    """v is V without exactly the elements equal to a"""
    if v[0] != "seq" or len(v[1]) != 1 or v[1][0][0] != "loop":
        return None
    q = per_element(v[1][0], V, Facts())
    if q is None:
        return None
    e, outs, S = q
    for fa, ps in outs:
        if not (not ps and equal(fa, e, a) or ps == (("one", e),) or ps == [("one", e)]) or ps and not differ(fa, e, a):
            return None
    return S


def erased_index(v, V):
    """v is V without exactly the element at the result"""
    if v[0] != "seq":
        return None
    ps = [p for p in v[1]]
    n = ("size", V)
    lo, hi = None, None
    if len(ps) == 2 and ps[0][0] == "sub" and ps[1][0] == "sub" and ps[0][1] == V and ps[1][1] == V \
            and ps[0][2] == ("i", 0) and ps[1][3] == n and sub(ps[1][2], ps[0][3]) == ("i", 1):
        return ps[0][3]
    return None


def c16(c):
    c.rule("types", "every path that returns has compared the name with every family of each of the other four types and "
                    "found them all different")
    c.rule("existing", "an existing family is returned only if the registry merges and its name and constant labels equal "
                       "the arguments; then nothing changes")
    c.rule("new", "otherwise the name differs from that of every family of the same type, and exactly one family built "
                  "from the given name, help and labels is appended and returned")
    c.rule("fail", "every failing path has found the name in use and leaves the registry unchanged")
    c.rule("atomic", "lookup and registration happen in one critical section")
    c.rule("behavior", "the insert behaviour is the one given to the constructor and never changes")
    F = reg_fields(c)
    R = NS + "Registry"
    ctor = c.fn(R + "::Registry", 1)
    bf = None
    for o in c.run(ctor).outs:
        v = fields_after(o)
        for fl in c.P.cls(R)["fields"]:
            if o.kind == "ret" and path(v, fl["name"]) == arg(0):
                bf = fl["name"]
    if not c.req(bf is not None, "behavior", c.where(ctor), "the constructor does not keep the insert behaviour"):
        return
    merge = enum_value(c, R + "::InsertBehavior", "Merge")
    for k in KINDS:
        _, _, roles = ctor_fields(c, k)
        f = c.fn(R + "::Add", 3, None, lambda f: f.ta and str(f.ta[0]).endswith("::" + k))
        w = c.where(f)
        ex = new = 0
        nf, lf = roles.get(0, "?"), roles.get(2, "?")
        name = lambda el: ("fld", ("deref", el), nf)
        for o in c.run(f, nojoin=True, opaque=(NS + "Family::Family",)).outs:
            one_critical(c, "atomic", f, o, "registering a family")
            V = fld(F[k])
            v = o.st.get((THISROOT, (("f", F[k]),)))
            oth = [m for m in store_mods(o) if m.loc[1][:1] != (("f", F[k]),)]
            c.req(not oth, "fail" if o.kind != "ret" else "new", w, lambda: "registering changes %s\n%s" % (oth, describe(o)))
            if o.kind != "ret":
                c.req(v == V, "fail", w, lambda: "a failed registration changes the registry: %s\n%s" % (show(v), describe(o)))
                hit = in_use(o, F, k, nf, lf, bf, merge)
                c.req(hit, "fail", w, lambda: "a registration fails although the name is not in use\n" + describe(o))
                continue
            for k2 in KINDS:
                if k2 != k:
                    V2 = fld(F[k2])
                    c.req(covers(o, V2, lambda fa, el: differ(fa, arg(0), name(el))), "types", w,
                          lambda: "the name may be in use by a family of type %s\n%s" % (k2, describe(o)))
            val = o.val[1] if o.val and o.val[0] == "L" else None
            if v == V:
                ex += 1
                el = val[0][1] if val and val[0][0] == "p" and not val[1] else None
                ok = el is not None and el[0] == "elem" and el[1] == V
                c.req(ok and equal(o.facts, arg(0), name(el)), "existing", w,
                      lambda: "the result is not an existing family of that name\n" + describe(o))
                c.req(ok and equal(o.facts, arg(2), ("fld", ("deref", el), lf)), "existing", w,
                      lambda: "an existing family with other constant labels may be returned\n" + describe(o))
                c.req(rng(fld(bf), o.facts) == IntSet.of(merge), "existing", w,
                      lambda: "an existing family is returned although the registry does not merge\n" + describe(o))
            else:
                new += 1
                c.req(covers(o, V, lambda fa, el: differ(fa, arg(0), name(el))), "new", w,
                      lambda: "a second family of the same name and type may be added\n" + describe(o))
                ps = parts_of(v)
                ok = len(ps) == 2 and ps[0] == ("all", V) and ps[1][0] == "one"
                ok = c.req(ok and val == pointee(ps[1][1]), "new", w,
                           lambda: "exactly the returned family should be appended: %s\n%s" % (show(v), describe(o)))
                if ok:
                    x = o.st.get(val)
                    c.req(x[0] == "newobj" and x[1] == NS + "Family::Family" and x[2][:3] == (arg(0), arg(1), arg(2)), "new", w,
                          lambda: "the family is not built from the given name, help and labels: %s\n%s" % (show(x), describe(o)))
        for o in c.run(f, mode="all", opaque=(NS + "Family::Family",)).throws:
            left = [m for m in store_mods(o)]
            c.req(not left, "fail", w, lambda: "a registration that fails leaves %s\n%s" % (left, describe(o)))
        c.req(new, "new", w, "no path adds a family")
        c.req(ex, "existing", w, "no path returns an existing family")
    for f in public_methods(c, R):
        for o in c.run(f, opaque=(NS + "Family::Collect", NS + "Family::Family")).outs:
            c.req(o.st.get((THISROOT, (("f", bf),))) == fld(bf), "behavior", c.where(f), lambda: "the insert behaviour changes\n" + describe(o))


def in_use(o, F, k, nf, lf, bf, merge):
    """a failing path has met a family that forbids the registration"""
    def test(fa):
        for (a, b), r in fa.rel.items():
            if r <= frozenset("="):
                for x, y in ((a, b), (b, a)):
                    if x == arg(0) and y[0] == "fld" and y[2] == nf and y[1][0] == "deref" and y[1][1][0] == "elem":
                        for k2 in KINDS:
                            if y[1][1][1] == fld(F[k2]):
                                if k2 != k:
                                    return True
                                if merge not in rng(fld(bf), o.facts):
                                    return True
                                if differ(fa, arg(2), ("fld", y[1], lf)):
                                    return True
        return False
    return some_bad(o, test)


def enum_value(c, en, name):
    e = c.P.enums.get(en)
    if not e:
        raise AnalysisError("anchor %s not found" % en)
    if name in e:
        return int(e[name])
    raise AnalysisError("anchor %s::%s not found" % (en, name))


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
