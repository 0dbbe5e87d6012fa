"""C09, C10: sliding window and CKMS estimator behind summaries."""
from chk import *

NS = "prometheus::detail::"
TW = NS + "TimeWindowQuantiles"
CK = NS + "CKMSQuantiles"
OPQ = (CK + "::insert", CK + "::get", CK + "::reset")


def tosub(fa, m):
    """the integer facts with terms replaced"""
    f = Facts()
    f.rel, f.lit, f.fc = fa.rel, fa.lit, fa.fc
    for k, v in fa.dom.items():
        t = subst(k, m)
        if t[0] == "i":
            continue
        key, s = canon(t)
        c = t[1] if t[0] == "lin" else 0
        d = v.shift(-c)
        d = d if s > 0 else d.neg()
        o = f.dom.get(key)
        f.dom[key] = d if o is None else o.inter(d)
    return f


class Win:
    def __init__(self, c):
        cl = c.P.cls(TW)
        b = [f for f in cl["fields"] if f["t"].qn in ("std::vector", "std::deque", "std::array") and f["t"].ta and
             f["t"].ta[0].qn == CK]
        i = [f for f in cl["fields"] if f["t"].k == "int"]
        t = [f for f in cl["fields"] if f["t"].qn == "std::chrono::time_point"]
        d = [f for f in cl["fields"] if f["t"].qn == "std::chrono::duration"]
        if not (len(b) == len(i) == len(t) == len(d) == 1):
            raise AnalysisError("roles of the fields of TimeWindowQuantiles are ambiguous")
        self.b, self.cur, self.last, self.ivl = b[0]["name"], i[0]["name"], t[0]["name"], d[0]["name"]
        self.n = ("size", fld(self.b))

    def bucket(self, p):
        """index of the bucket that a pointer denotes"""
        if p[0] == "ptr" and p[1][0] == THISROOT and len(p[1][1]) == 2 and p[1][1][0] == ("f", self.b):
            return p[1][1][1][1]
        return None


def c09(c):
    c.rule("catchup", "rotation continues exactly while at least (or more than) one interval has passed since the last "
                      "rotation, and every operation catches up before it touches a bucket")
    c.rule("step", "each rotation step resets exactly the current bucket, advances the current index cyclically by one "
                   "and the rotation time by exactly one interval, and changes nothing else")
    c.rule("insert", "after catching up an observation goes exactly once into every bucket")
    c.rule("read", "a quantile is read from the bucket that is current after catching up")
    c.rule("init", "a window starts with the requested number of buckets, at index 0, rotated now, with interval "
                   "window / buckets")
    w = Win(c)
    for q in OPQ:
        c.fn(q)
    window_ops(c, w, ("insert", "get"))
    for f in c.fns(TW + "::TimeWindowQuantiles", 3):
        for o in c.run(f, "none").rets:
            v = fields_after(o)
            b = path(v, w.b)
            n = sizeof(b)
            nb = strip(n)
            iv = path(v, w.ivl)
            ok = nb == arg(2) and iszero(path(v, w.cur)) and path(v, w.last)[0] == "now" and \
                iv[:2] == ("op", "/") and strip(iv[2]) == arg(1) and strip(iv[3]) == arg(2)
            c.req(ok, "init", c.where(f), lambda: "buckets %s, current %s, last %s, interval %s" % (
                show(n), show(path(v, w.cur)), show(path(v, w.last)), show(iv)))


def window_ops(c, w, names):
    for name in names:
        f = c.fn(TW + "::" + name, 1)
        r = c.run(f, opaque=OPQ)
        for o in r.outs:
            if not c.req(o.kind == "ret", "catchup", c.where(f), lambda: describe(o)):
                continue
            pos = catch_up(c, f, o, w)
            if pos is None:
                continue
            rest = o.events[pos:]
            opq = [(e, l) for e, l in walk(rest) if e[0] == "opaque"]
            cur = path(fields_after(o), w.cur)
            if name == "get":
                v = retval(o)
                c.req(len(opq) == 1 and not opq[0][1] and v[0] == "call" and v[1] == OPQ[1] and w.bucket(v[2][0]) == cur
                      and v[2][1] == arg(0) and opq[0][0][1] == OPQ[1], "read", c.where(f),
                      lambda: "returns %s, current bucket is %s" % (show(v), show(cur)))
            else:
                ok = len(opq) == 1 and len(opq[0][1]) == 1 and opq[0][0][1] == OPQ[0] and opq[0][0][2][1] == arg(0)
                if ok:
                    S, mode, t = opq[0][1][0]
                    ok = mode == "n" and S.n == w.n and len(S.trans) == 1 and w.bucket(opq[0][0][2][0]) == S.K()
                c.req(ok, "insert", c.where(f), lambda: "not every bucket receives the value once:\n" + describe(o))
            c.sample("%s: %d events, rotation loop before event %d" % (sig(f), len(o.events), pos))


def catch_up(c, f, o, w):
    """position after the rotation loop when the path has caught up, else None"""
    L0, IV = fld(w.last), fld(w.ivl)
    nows = [e for e in o.events if e[0] == "now"]
    if not c.req(bool(nows), "catchup", c.where(f), lambda: "the clock is not read:\n" + describe(o)):
        return None
    fin = fields_after(o)
    loops = []
    for i, e in enumerate(o.events):
        if e[0] == "loop" and any(x[0] == "opaque" and x[1] == OPQ[2] for t in e[1].trans for x in t.events):
            loops.append((i, e[1], e[2]))
    stray = [e for e, l in walk(o.events) if e[0] == "opaque" and e[1] == OPQ[2] and not l]
    if not c.req(len(loops) <= 1 and not stray, "step", c.where(f), lambda: "buckets are reset outside the rotation loop:\n" + describe(o)):
        return None
    now = None
    for e in nows:
        now = ("now", e[1], e[2])
    nowt = [t for t in nowterms(o)]
    if len(nowt) == 1:
        now = nowt[0]
    if not loops:
        ok = path(fin, w.last) == L0 and path(fin, w.cur) == fld(w.cur)
        r = rng(sub(sub(now, L0), IV), o.facts)
        c.req(ok and r.max() <= 0, "catchup", c.where(f), lambda: "a due rotation may be left out:\n" + describe(o))
        return min([i for i, e in enumerate(o.events) if e[0] in ("opaque", "loop")] or [len(o.events)])
    pos, S, mode = loops[0]
    ll, lc = thisloc(w.last), thisloc(w.cur)
    if not c.req(ll in S.phis and lc in S.phis or lc in S.inds, "step", S.site, "the rotation loop does not advance index and time"):
        return None
    PL, PC = ("phi", S.lid, ll), ("phi", S.lid, lc)
    # values that are now - last rotation throughout the loop
    m = {}
    for l, init in S.phis.items():
        if l in (ll, lc):
            continue
        p = ("phi", S.lid, l)
        if sub(init, sub(now, L0)) == ("i", 0) and all(
                sub(add(t.phi[l], t.phi[ll]), add(p, PL)) == ("i", 0) for t in S.trans):
            m[p] = sub(now, PL)
    due = sub(sub(now, PL), IV)
    for t in S.trans:
        fa = tosub(t.facts, m)
        c.req(rng(due, fa).min() >= 0, "catchup", S.site, lambda: "rotates before an interval has passed: %r" % t.delta)
        ev = [e for e, l in walk(t.events) if e[0] == "opaque"]
        c.req(len(ev) == 1 and ev[0][1] == OPQ[2] and w.bucket(ev[0][2][0]) == PC, "step", S.site,
              lambda: "a step resets %s instead of the current bucket only" % [showev(e)[:120] for e in ev])
        c.req(sub(t.phi[ll], PL) == IV, "step", S.site, lambda: "the rotation time becomes %s" % show(t.phi[ll]))
        nx = t.phi[lc]
        d = sub(add(PC, ("i", 1)), w.n)
        last = IntSet([(-INF, 0)])      # the current index lies inside the window
        if nx == add(PC, ("i", 1)):
            ok = rng(d, t.facts).inter(last).inter(IntSet([(0, INF)])).empty()
        elif nx == ("i", 0):
            ok = rng(d, t.facts).inter(last).subset(ZERO)
        else:
            ok = nx[:2] == ("op", "%") and nx[2] == add(PC, ("i", 1)) and nx[3] == w.n
        c.req(ok, "step", S.site, lambda: "the current index becomes %s if %r" % (show(nx), t.delta))
        oth = [l for l in S.phis if l[0] == THISROOT and l not in (ll, lc)] + [l for l in S.maps if l[0] == THISROOT]
        c.req(not oth, "step", S.site, lambda: "a step also changes %s" % [showloc(l) for l in oth])
    fa = tosub(o.facts, m)
    c.req(rng(due, fa).max() <= 0, "catchup", S.site, lambda: "rotation may stop while an interval is still due: %r" % o.facts)
    c.req(path(fin, w.last) == PL and path(fin, w.cur) == PC, "step", S.site, "index or time change after the rotation loop")
    return pos + 1


def nowterms(o):
    out = []

    def go(t):
        if isinstance(t, tuple) and t and t[0] == "now" and t not in out:
            out.append(t)
        return False
    for k in o.facts.dom:
        occurs(k, go)
    for e in o.events:
        if e[0] == "loop":
            for i in e[1].phis.values():
                occurs(i, go)
            for t in e[1].trans:
                for k in t.facts.dom:
                    occurs(k, go)
    return out


# ---- the estimator ----------------------------------------------------------------

AE = CK + "::allowableError"


class Ckms:
    def __init__(self, c):
        cl = c.P.cls(CK)
        fs = cl["fields"]
        s = [f for f in fs if f["t"].qn in ("std::vector", "std::deque", "std::list") and f["t"].ta[0].qn and
             f["t"].ta[0].qn.startswith(CK)]
        b = [f for f in fs if f["t"].qn == "std::array"]
        ints = [f["name"] for f in fs if f["t"].k == "int"]
        if len(s) != 1 or len(b) != 1 or len(ints) != 2:
            raise AnalysisError("roles of the fields of CKMSQuantiles are ambiguous")
        self.sample, self.buf, self.cap = s[0]["name"], b[0]["name"], b[0]["t"].ta[1]
        # the counter that insert() always advances is the buffer's
        self.ints = ints
        self.fill = self.count = None

    def roles(self, c):
        f = c.fn(CK + "::insert", 1)
        E = Interp(c.P)
        for n in self.ints:
            r = c.run(f, opaque=self.opq(c), facts=(("<", fld(n), ("i", self.cap - 1)), (">=", fld(n), ("i", 0))),
                      setup=lambda E: setattr(E, "log_index", True))
            if any(path(fields_after(o), n) == add(fld(n), ("i", 1)) for o in r.rets):
                ok = all(path(fields_after(o), m) == fld(m) for o in r.rets for m in self.ints if m != n)
                if ok:
                    self.fill = n
                    self.count = [m for m in self.ints if m != n][0]
                    return True
        c.req(False, "store", c.where(f), "no counter of the buffer's contents is advanced by every observation that does not fill it")
        return False

    def opq(self, c):
        return (AE,) if c.P.byqn.get(AE) else ()


def weight(v, P, g):
    """(weight of v - weight of P as a term, inserted items) for a value derived from P"""
    if v == P:
        return ("i", 0), []
    ps = parts(v)
    d = ("i", 0)
    items = []
    pos = ("i", 0)
    upds = {}
    for p in ps:
        if p[0] == "one":
            items.append(p[1])
            d = add(d, path(p[1], g))
            continue
        if p[0] == "all":
            b, lo, hi = p[1], ("i", 0), sizeof(p[1])
        elif p[0] == "sub":
            b, lo, hi = p[1], p[2], p[3]
        else:
            return None
        if b[0] == "upd" and b[1] == P:
            for s, x in b[2]:
                if s[0] != "x":
                    return None
                upds[s[1]] = (x, b)
        elif b != P:
            return None
        # elements skipped since the previous piece
        gap = sub(lo, pos)
        if gap[0] != "i" or gap[1] < 0 or gap[1] > 4:
            return None
        for j in range(gap[1]):
            i = add(pos, ("i", j))
            d = sub(d, path(proj(b, ("x", i)), g))
        pos = hi
    end = sub(sizeof(P), pos)
    if end[0] != "i" or end[1] < 0 or end[1] > 4:
        return None
    for j in range(end[1]):
        d = sub(d, ("fld", ("elem", P, add(pos, ("i", j))), g))
    # elements that were changed in place (removed ones are counted with their new weight above)
    for i, (x, b) in upds.items():
        d = add(d, sub(path(x, g), ("fld", ("elem", P, i), g)))
    return d, items


def c10(c):
    c.rule("store", "an observation is written to the buffer at the fill position, inside the buffer, and the fill "
                    "counter grows by one; the counter stays within the buffer")
    c.rule("flush", "when the buffer is full or a quantile is read, exactly the buffered values are inserted into the "
                    "sample, each once with weight one; the total grows by their number and the buffer is emptied")
    c.rule("merge", "every other change of the sample keeps its total weight")
    c.rule("reset", "a reset clears sample, total and buffer together")
    c.rule("empty", "a quantile of no observations is NaN; otherwise it is the value of a sample item")
    k = Ckms(c)
    if not k.roles(c):
        return
    cap = k.cap
    F, CNT, SMP, BUF = fld(k.fill), fld(k.count), fld(k.sample), fld(k.buf)
    val, ints = items(c)
    f = c.fn(CK + "::insert", 1)
    inv, r = fill_bound(c, k, f)
    if inv is None:
        c.req(False, "store", c.where(f), "the fill counter may leave the buffer")
        return
    g = None
    for o in r.outs:
        if not c.req(o.kind == "ret", "store", c.where(f), lambda: describe(o)):
            continue
        v = fields_after(o)
        for e, l in walk(o.events):
            if e[0] == "index" and e[1] == thisloc(k.buf):
                fa = l[-1][2].facts if l else o.facts
                c.req(rng(e[2], fa).subset(IntSet([(0, cap - 1)])), "store", e[4],
                      lambda: "the buffer is accessed at %s, in %r" % (show(e[2]), rng(e[2], fa)))
        fill, smp, cnt = path(v, k.fill), path(v, k.sample), path(v, k.count)
        touched = smp != SMP or cnt != CNT
        if not touched:
            ok = path(v, k.buf) == update(BUF, (("x", F),), arg(0)) and fill == add(F, ("i", 1))
            c.req(ok, "store", c.where(f), lambda: "buffer becomes %s, fill %s" % (show(path(v, k.buf)), show(fill)))
        else:
            flushed(c, k, f, o, update(BUF, (("x", F),), arg(0)), add(F, ("i", 1)), val, ints)
    sample_get(c, k, inv, val, ints)
    f = c.fn(CK + "::reset", 0)
    for o in c.run(f, opaque=k.opq(c)).outs:
        v = fields_after(o)
        c.req(o.kind == "ret" and sizeof(path(v, k.sample)) == ("i", 0) and iszero(path(v, k.fill)) and
              iszero(path(v, k.count)), "reset", c.where(f), lambda: "after a reset: %s" % show(v)[:300])
    for f in c.fns(CK + "::CKMSQuantiles", 1):
        if f.implicit:
            continue
        for o in c.run(f).rets:
            v = fields_after(o)
            c.req(sizeof(path(v, k.sample)) == ("i", 0) and iszero(path(v, k.fill)) and iszero(path(v, k.count)),
                  "reset", c.where(f), lambda: "initially: %s" % show(v)[:300])


def logidx(E):
    E.log_index = True


def items(c):
    item = [f for f in c.P.cls(CK + "::Item")["fields"]]
    val = [f["name"] for f in item if f["t"].k == "float"]
    ints = [f["name"] for f in item if f["t"].k == "int"]
    if len(val) != 1 or not ints:
        raise AnalysisError("roles of the fields of CKMSQuantiles::Item are ambiguous")
    return val[0], ints


def fill_bound(c, k, f):
    """the bound of the fill counter that every insertion keeps, as entry facts"""
    F = fld(k.fill)
    for top in (k.cap - 1, k.cap):
        inv = (("<=", F, ("i", top)), (">=", F, ("i", 0)))
        r = c.run(f, opaque=k.opq(c), facts=inv, setup=logidx)
        if all(rng(path(fields_after(o), k.fill), o.facts).subset(IntSet([(0, top)])) for o in r.rets):
            return inv, r
    return None, None


def sample_get(c, k, inv, val, ints):
    cap, F, BUF = k.cap, fld(k.fill), fld(k.buf)
    gets = c.fn(CK + "::get", 1)
    r = c.run(gets, opaque=k.opq(c), facts=inv, setup=logidx)
    for o in r.outs:
        if not c.req(o.kind == "ret", "flush", c.where(gets), lambda: describe(o)):
            continue
        for e, l in walk(o.events):
            if e[0] == "index" and e[1] == thisloc(k.buf):
                fa = l[-1][2].facts if l else o.facts
                c.req(rng(e[2], fa).subset(IntSet([(0, cap - 1)])), "store", e[4],
                      lambda: "the buffer is accessed at %s, in %r" % (show(e[2]), rng(e[2], fa)))
        flushed(c, k, gets, o, BUF, F, val, ints)
        v = fields_after(o)
        smp = path(v, k.sample)
        x = retval(o)
        n = rng(sizeof(smp), o.facts)
        if fcls(x, o.facts) == {"nan"}:
            c.req(n == ZERO, "empty", c.where(gets), lambda: "NaN is returned although the sample may hold items\n%r" % o.facts)
        else:
            c.req(n != ZERO and x[0] == "fld" and x[2] == val and x[1][0] == "elem" or
                  x[0] in ("phi", "fld") and n != ZERO, "empty", c.where(gets),
                  lambda: "returns %s with a sample of %r items" % (show(x)[:200], n))
            c.req(0 not in n, "empty", c.where(gets), lambda: "an empty sample may be read\n%r" % o.facts)


def flushed(c, k, f, o, buf, fill, val, ints):
    """the path moves exactly buf[0..fill) into the sample"""
    v = fields_after(o)
    F, CNT, SMP = fld(k.fill), fld(k.count), fld(k.sample)
    w = c.where(f)
    fa = o.facts
    c.req(iszero(path(v, k.fill)) or rng(fill, fa) == ZERO and path(v, k.fill) == F, "flush", w,
          lambda: "the buffer is not emptied: fill is %s" % show(path(v, k.fill)))
    dc = sub(sub(path(v, k.count), CNT), fill)
    c.req(dc == ("i", 0) or rng(dc, fa) == ZERO, "flush", w,
          lambda: "the total grows by %s instead of %s" % (show(sub(path(v, k.count), CNT)), show(fill)))
    ranges = []          # (first index, number) of inserted buffer values
    sl = thisloc(k.sample)
    bad = []

    def isbuf(t):
        return t == buf or t[0] == "sorted" and t[1] == buf and iszero(t[2]) and same(t[3], fill, fa)

    def inserted(it, n, K, fa2):
        x = path(it, val)
        if x[0] != "elem" or not isbuf(x[1]):
            bad.append("inserts %s, not a buffered value" % show(x)[:200])
            return
        start = subst(x[2], {K: ("i", 0)}) if K else x[2]
        if K and sub(x[2], K) != start:
            bad.append("inserts buffer element %s" % show(x[2]))
            return
        ranges.append((start, n))

    def delta(new, old, site):
        r = None
        for g in ints:
            r = weight(new, old, g)
            if r is None:
                break
            ones = [x for x in r[1] if path(x, g) == ("i", 1)]
            if len(ones) == len(r[1]) and r[0] == ("i", len(ones)):
                return r[1]
        bad.append("the sample becomes %s at %s, which does not keep its weight" % (show(new)[:300], site))
        return None
    # walk over the states of the sample: initial value, then every loop that changes it
    cur = SMP
    for e in o.events:
        if e[0] != "loop":
            continue
        S = e[1]
        if sl not in S.phis:
            if any(l[0] == THISROOT and l[1][:1] == (("f", k.sample),) for l in list(S.phis) + list(S.accs) + list(S.maps)):
                bad.append("loop at %s changes the sample in an unknown way" % S.site)
            continue
        its = delta(S.phis[sl], cur, S.site)
        for it in its or ():
            inserted(it, ("i", 1), None, fa)
        P = ("phi", S.lid, sl)
        kinds = set()
        for t in S.trans:
            d = delta(t.phi[sl], P, S.site)
            if d is None:
                continue
            if any(x[0] == "loop" and sl in x[1].phis for x in t.events):
                bad.append("the sample changes in a nested loop at %s" % S.site)
            kinds.add(tuple(path(x, val) for x in d))
            if len(d) > 1:
                bad.append("an iteration at %s inserts %d items" % (S.site, len(d)))
        if len(kinds) > 1:
            bad.append("iterations at %s insert different values: %s" % (S.site, [[show(y)[:80] for y in x] for x in kinds]))
        elif kinds and list(kinds)[0]:
            if S.n is None or e[2] != "n":
                bad.append("the insertion loop at %s may stop early" % S.site)
            else:
                x = list(kinds)[0][0]
                inserted(("obj", "", ((val, x),)), S.n, S.K(), fa)
        cur = P
    its = delta(path(v, k.sample), cur, w)
    for it in its or ():
        inserted(it, ("i", 1), None, fa)
    c.req(not bad, "merge" if bad and "weight" in bad[0] else "flush", w, lambda: "; ".join(bad))
    # the inserted ranges are exactly [0, fill)
    pos = ("i", 0)
    todo = list(ranges)
    while todo:
        nx = [r for r in todo if same(r[0], pos, fa)]
        if not nx:
            break
        todo.remove(nx[0])
        pos = add(pos, nx[0][1])
    c.req(not todo and same(pos, fill, fa), "flush", w,
          lambda: "buffer elements %s are inserted, expected all of 0..%s\n%s" % (
              [(show(a), show(b)) for a, b in ranges], show(fill), repr(fa)))


CHECKS = {"C09": c09, "C10": c10}
