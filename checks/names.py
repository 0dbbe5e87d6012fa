"""C11: legal names, C37: label hash."""
from chk import *

NS = "prometheus::"


def chars(s):
    out = IntSet()
    for a in s.split():
        lo, hi = a.split("-") if len(a) == 3 and a[1] == "-" else (a, a)
        out = out.union(IntSet([(ord(lo), ord(hi))]))
    return out


ANY = IntSet([(-128, 255)])


def metric_type(c, cls):
    g = c.P.globals.get(NS + cls + "::metric_type")
    v = g and "init" in g and g["init"].get("cv")
    if v is None:
        raise AnalysisError("anchor %s::metric_type not found" % cls)
    return int(v)


def decided(r, o):
    """(result, facts) of a path, split when the result is not decided on it"""
    v = retval(o)
    for s, b in r.E.split(o.st, v):
        yield b, s.facts


def seqfacts(o, fa, v):
    """(lo, set): facts about every character at index >= lo, from the loops passed to the end"""
    n = ("size", v)
    out = []
    for e in o.events:
        if e[0] != "loop" or e[2] != "n":
            continue
        S = e[1]
        K = S.K()
        if S.n is None or not S.trans:
            continue
        for m in range(-2, 3):
            if same(add(S.n, ("i", m)), n, fa) if m >= 0 else False:
                idxs = [add(K, ("i", m)), sub(sub(n, ("i", 1)), K)]
                for ix in idxs:
                    s = IntSet()
                    for t in S.trans:
                        d = t.facts.dom.get(("elem", v, ix))
                        s = s.union(d if d is not None else ANY)
                    lo = m if ix == idxs[0] else 0
                    if ix == idxs[1] and m:
                        continue          # the last m characters seen from the end are 0..m-1
                    out.append((lo, s))
    return out


def pre_false(fa, v, p):
    for t, b in fa.lit.items():
        if t[0] == "pre" and t[1] == v and t[2] == ("i", 0) and t[3] == p:
            return not b
    d = fa.dom.get(("pre", v, ("i", 0), p))
    return None if d is None or d.single() is None else not d.single()


def pre_known(fa, v, p):
    """True / False / None: v is known (not) to start with p"""
    r = pre_false(fa, v, p)
    if r is not None:
        return not r
    eq = getrel_s(fa, v, p)
    if eq:
        return True
    n = rng(("size", v), fa)
    if n.max() < len(p):
        return False
    hit = True
    for i, ch in enumerate(p):
        d = fa.dom.get(("elem", v, ("i", i)))
        if d is None or d.inter(IntSet.of(ch)).empty():
            if d is not None:
                return False
            hit = None
        elif d != IntSet.of(ch):
            hit = None
    return hit


def getrel_s(fa, v, s):
    """True / False / None: v equals the constant string s"""
    for (a, b), r in fa.rel.items():
        if (a, b) in ((v, ("s", s)), (("s", s), v)):
            if r <= frozenset("="):
                return True
            if "=" not in r:
                return False
    for t, b in fa.lit.items():
        if t[0] == "cmp" and t[1] == "==" and set(t[2:4]) == {v, ("s", s)}:
            return b
    n = rng(("size", v), fa)
    if len(s) not in n:
        return False
    for i, ch in enumerate(s):
        d = fa.dom.get(("elem", v, ("i", i)))
        if d is not None and ch not in d:
            return False
    if n.single() == len(s) and all(fa.dom.get(("elem", v, ("i", i))) == IntSet.of(ch) for i, ch in enumerate(s)):
        return True
    return None


def accept_ok(o, fa, v, START, REST):
    """None when every string on this path is legal, else the reason"""
    n = rng(("size", v), fa)
    if 0 in n:
        return "the empty name is accepted"
    sf = seqfacts(o, fa, v)

    def at(i):
        d = fa.dom.get(("elem", v, ("i", i)), ANY)
        for lo, s in sf:
            if lo <= i:
                d = d.inter(s)
        return d
    eqs = [x for (a, b), r in fa.rel.items() if r <= frozenset("=") for x, y in ((a, b), (b, a)) if y == v and x[0] == "s"]
    for x in eqs:
        s = x[1]
        if s and s[0] in START and all(ch in REST for ch in s[1:]) and not s.startswith(b"__"):
            return None
    if not at(0).subset(START):
        return "first characters in %s are accepted" % at(0).minus(START)
    for i in range(1, 8):
        if n.max() <= i:
            break
        if not at(i).subset(REST):
            return "characters in %s are accepted" % at(i).minus(REST)
    else:
        if not any(s.subset(REST) for lo, s in sf if lo <= 8):
            return "not every character is checked"
    if n.max() >= 2 and pre_known(fa, v, b"__") is not False and 95 in at(0) and 95 in at(1):
        return "names that start with two underscores are accepted"
    return None


def reject_ok(o, fa, v, START, REST):
    n = rng(("size", v), fa)
    if n == ZERO:
        return True
    for t, d in fa.dom.items():
        if t[0] == "elem" and t[1] == v:
            legal = START if t[2] == ("i", 0) else REST
            if d.inter(legal).empty() and rng(sub(t[2], ("size", v)), fa).subset(IntSet([(-INF, -1)])):
                return True
            if d.inter(legal).empty() and t[2] == ("i", 0) and 0 not in n:
                return True
    for e in o.events:
        if e[0] == "loop" and len(e[1].heads) == 2 and e[1].heads[0] != e[1].heads[1] and must_pass(e[1], lambda t: any(
                d.inter(START if k[2] == ("i", 0) else REST).empty() for k, d in t.facts.dom.items()
                if k[0] == "elem" and k[1] == v and rng(sub(k[2], ("size", v)), t.facts).subset(IntSet([(-INF, -1)])))):
            return True
    return pre_known(fa, v, b"__") is True


def must_pass(S, test):
    """every run of the loop to its last head state contains an iteration that satisfies the test"""
    reach = {S.heads[0]}
    for _ in range(12):
        reach |= {t.dst for t in S.trans if t.src in reach and not test(t)}
    return S.heads[1] not in reach


def c11(c):
    c.rule("accept", "every path that accepts has established that the name is not empty, starts with a legal character, "
                     "continues with legal characters only (every index) and does not start with two underscores")
    c.rule("reject", "every path that rejects has found the name empty, an illegal character, a leading double underscore "
                     "or the reserved label of this metric type")
    c.rule("reserved", "le is rejected for histograms, quantile for summaries; the path that accepts a label has "
                       "excluded both")
    c.rule("pure", "the decision depends on the arguments only and has no effect")
    alpha = "a-z A-Z _"
    v = arg(0)
    for name, extra in (("CheckMetricName", " :"), ("CheckLabelName", "")):
        START, REST = chars(alpha + extra), chars(alpha + " 0-9" + extra)
        f = c.fn(NS + name)
        w = c.where(f)
        r = c.run(f, nojoin=True)
        for o in r.outs:
            c.req(o.kind == "ret", "pure", w, lambda: "the check fails with an exception:\n" + describe(o))
            ex = [e for e, l in walk(o.events) if e[0] not in ("loop", "iostate")]
            c.req(not ex, "pure", evsite(ex[0]) if ex else w, lambda: "the decision has effects or depends on more than the name:\n" + describe(o))
            if o.kind != "ret":
                continue
            ty = arg(1)
            H, S = (metric_type(c, "Histogram"), metric_type(c, "Summary")) if name == "CheckLabelName" else (None, None)
            for b, fa in decided(r, o):
                if b:
                    why = accept_ok(o, fa, v, START, REST)
                    c.req(why is None, "accept", w, lambda: "%s: %s\n%s" % (name, why, describe(o)))
                    if H is not None:
                        for t, s in ((H, b"le"), (S, b"quantile")):
                            d = rng(ty, fa)
                            c.req(t not in d or getrel_s(fa, v, s) is False, "reserved", w,
                                  lambda: "label %s is accepted for metric type %d\n%s" % (s.decode(), t, describe(o)))
                else:
                    res = H is not None and any(rng(ty, fa) == IntSet.of(t) and getrel_s(fa, v, s) is True
                                                for t, s in ((H, b"le"), (S, b"quantile")))
                    c.req(res or reject_ok(o, fa, v, START, REST), "reject", w,
                          lambda: "%s: legal names may be rejected\n%s" % (name, describe(o)))
        c.sample("%s: %d paths; start %s, rest %s" % (name, len(r.outs), START, REST))


# ---- hash --------------------------------------------------------------------------

def deps(S_by_lid, t, seen, leaves):
    """all leaves that a term depends on, through loop carried values"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "phi":
            if x in seen:
                continue
            seen.add(x)
            S = S_by_lid.get(x[1])
            if S is None:
                leaves.add(x)
                continue
            st.append(S.phis.get(x[2], ()))
            for tr in S.trans:
                st.append(tr.phi.get(x[2], ()))
            continue
        if x[0] in ("deref", "ald", "call", "ext", "sym", "ptr", "addr", "glob", "fn", "fnptr", "local", "havoc", "unk", "now", "uid"):
            leaves.add(x)
            continue
        st.extend(y for y in x if isinstance(y, tuple))


def uses(t, want, S_by_lid):
    """the part `want` of the current label occurs in t (through loops)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x == want:
            return True
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "phi":
            if x in seen:
                continue
            seen.add(x)
            S = S_by_lid.get(x[1])
            if S is not None:
                st.append(S.phis.get(x[2], ()))
                st += [tr.phi.get(x[2], ()) for tr in S.trans]
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return False


def c37(c):
    c.rule("pure", "the hash is computed from the label set and constants only: no address, counter, clock, locale or "
                   "other state takes part and nothing is modified")
    c.rule("order", "the label set is an ordered map with its default order, and the container uses the label hash and "
                    "equality of the whole label set")
    c.rule("all", "every iteration folds the name and the value of its label into the carried value, for every label")
    fs = c.fns(NS + "detail::LabelHasher::operator()")
    for f in fs:
        w = c.where(f)
        pt = f.params[0]["t"].strip()
        c.req(len(f.params) == 1 and pt.qn == "std::map" and ordered(pt), "order", w,
              "labels are not an ordered map: iteration order may depend on insertion order")
        r = c.run(f)
        M = arg(0)
        for o in r.outs:
            c.req(o.kind == "ret" and not effects(o), "pure", w, lambda: "hashing has effects:\n" + describe(o))
            bad = [e for e, l in walk(o.events) if e[0] not in ("loop",)]
            c.req(not bad, "pure", evsite(bad[0]) if bad else w, lambda: "hashing depends on more than the labels:\n" + describe(o))
            if o.kind != "ret":
                continue
            v = retval(o)
            loops = {S.lid: S for S in r.loops}
            lv = set()
            deps(loops, v, set(), lv)
            bad = [x for x in lv if x != M]
            c.req(not bad, "pure", w, lambda: "the hash depends on %s" % ", ".join(show(x) for x in bad))
            n = rng(("size", M), o.facts)
            if n == ZERO:
                continue
            outer = [e[1] for e in o.events if e[0] == "loop" and e[2] == "n" and e[1].n is not None and
                     same(e[1].n, ("size", M), o.facts)]
            good = False
            for S in outer:
                K = S.K()
                cand = [l for l in S.phis if occurs(v, lambda x: x == ("phi", S.lid, l))]
                for l in cand:
                    ok = bool(S.trans)
                    rest = {k: z for k, z in loops.items() if k != S.lid}
                    for t in S.trans:
                        nx = t.phi.get(l)
                        e = ("elem", M, K)
                        ok = ok and nx is not None and all(
                            uses(nx, ("fld", e, h), rest) for h in ("first", "second")) and \
                            uses(nx, ("phi", S.lid, l), rest)
                    good = good or ok
                for l in S.accs:
                    good = good or acc_ok(S, l, M, v)
            c.req(good, "all", w, lambda: "not every label's name and value takes part in the hash %s\n%s" % (show(v)[:300], describe(o)))
    for k in ("Counter", "Gauge", "Histogram", "Info", "Summary"):
        cl = c.P.cls(NS + "Family<%s%s>" % (NS, k))
        for fl in cl["fields"]:
            t = fl["t"]
            if t.qn == "std::unordered_map":
                ok = t.ta[2].qn == NS + "detail::LabelHasher" and t.ta[3].qn == "std::equal_to"
                c.req(ok, "order", "%s:%s" % tuple(fl["loc"][:2]), "container %s uses hash %s and equality %s" % (
                    fl["name"], t.ta[2], t.ta[3]))
            elif t.qn == "std::map" and t.ta and t.ta[0].qn == "std::map":
                c.req(ordered(t), "order", "%s:%s" % tuple(fl["loc"][:2]), "container %s has its own order" % fl["name"])


def ordered(t):
    """std::map with the default order"""
    return len(t.ta) < 3 or t.ta[2].qn == "std::less"


def acc_ok(S, l, M, v):
    e = ("elem", M, S.K())
    for t in S.trans:
        d = t.parts.get(l, ())
        if not all(any(occurs(p, lambda x: x == ("fld", e, h)) for p in d) for h in ("first", "second")):
            return False
    return bool(S.trans)


CHECKS = {"C11": c11, "C37": c37}
