"""C26-C29, C31, C38: the push gateway client."""
from chk import *
from text import Mismatch
import text
from pull import (NS, SER, COLL, COLLFN, whole, deref_all, body_of, lit_of, weak_field, each_once, one_element, vcall_result,
                  all_terms, isnull, nonnull, isexpired)

GW = NS + "Gateway"
CW = NS + "detail::CurlWrapper"
HTTP = CW + "::performHttpRequest"
ENC = NS + "detail::encodeLabel"
B64URL = NS + "detail::base64url_encode"
OKSET = IntSet([(100, 399)])
OPTS = {10002: "URL", 10023: "HTTPHEADER", 60: "POSTFIELDSIZE", 30120: "POSTFIELDSIZE", 10015: "POSTFIELDS", 10165: "COPYPOSTFIELDS",
        47: "POST", 44: "NOBODY", 10036: "CUSTOMREQUEST", 80: "HTTPGET", 46: "UPLOAD", 54: "PUT", 107: "HTTPAUTH", 10005: "USERPWD",
        10173: "USERNAME", 10174: "PASSWORD", 13: "TIMEOUT", 155: "TIMEOUT_MS", 99: "NOSIGNAL", 75: "FORBID_REUSE", 41: "VERBOSE"}
RESPONSE_CODE = 0x200000 + 2


# ---- push results -------------------------------------------------------------------------

PUSHES = (("Push", 0, False), ("PushAdd", 1, False), ("AsyncPush", 0, True), ("AsyncPushAdd", 1, True))


def push_runs(c):
    for n, method, is_async in PUSHES:
        f = c.fn(GW + "::" + n, 0)
        r = c.run(f, opaque=(SER, HTTP), watch=(COLL,), nojoin=True)
        if not r.rets:
            raise AnalysisError("no path through " + f.qn)
        yield f, r, method, is_async


def calls_of(events, qn):
    return [e for e in events if e[0] == "opaque" and e[1] == qn]


def result(e):
    return ("call", e[1], e[2], e[3])


def failing(t, fa):
    return rng(t, fa).inter(OKSET).empty()


def good(t, fa):
    return rng(t, fa).subset(OKSET)


def combine(c, w, S, t, var, status):
    """one round of collecting statuses in the loop variable var, which is 200 exactly as long as none has failed"""
    nxt = t.phi.get(var[2])
    fa = t.facts
    if nxt is None:
        nxt = var
    if status is None:
        ok = nxt == var
    elif nxt == var:
        ok = good(status, fa) or not rng(var, fa).subset(IntSet.of(200)) and rng(var, fa).inter(IntSet.of(200)).empty()
    elif nxt == status:
        ok = failing(status, fa) or good(status, fa) and rng(status, fa) == IntSet.of(200) and rng(var, fa) == IntSet.of(200)
    elif nxt == ("i", 200):
        ok = good(status, fa) and rng(var, fa) == IntSet.of(200)
    else:
        ok = False
    c.req(ok, "status", S.site, lambda: "the result becomes %s although %s, status %s" % (show(nxt), fa, status and show(status)))


def c26(c):
    c.rule("each", "one pass visits the registered collectables in order; for each live one exactly one request is made, for "
                   "expired ones none; an earlier end of the pass is only possible with a request whose status is returned")
    c.rule("status", "200 is returned only where every status was in 100..399; otherwise the status of a request that was not")
    c.rule("background", "the asynchronous forms run each request in a task of its own and take the status of every task")
    c.rule("transport", "the client reports a transport error as a negative number and otherwise the response code that was "
                        "read after the transfer")
    for f, r, method, is_async in push_runs(c):
        w = c.where(f)
        for o in r.rets:
            name, weak = weak_field(c, GW)
            V = fld(name)
            got = each_once(c, f, o, V, weak, lambda e, ev, fa: None)
            v = retval(o)
            if v[0] == "future":
                v = v[1]
            elif is_async:
                c.req(False, "background", w, lambda: "the result is %s" % show(v))
                continue
            if got is None:
                c.req(v == ("i", 200), "status", w, lambda: describe(o))
                continue
            S, mode = got
            if is_async:
                c26_async(c, f, o, S, mode, v)
            else:
                c26_sync(c, f, o, S, mode, v)
    transport(c)
    c.assumptions += ["a collectable that throws ends the push with that exception"]


def c26_sync(c, f, o, S, mode, v):
    w = c.where(f)
    var = v if v[0] == "phi" and v[1] == S.lid else None
    tail = []
    if mode == "k":
        i = [n for n, e in enumerate(o.events) if e[0] == "loop" and e[1] is S][0]
        tail = calls_of(o.events[i + 1:], HTTP)
        c.req(len(tail) == 1, "each", S.site, lambda: "the pass ends at an element with %d requests\n%s" % (len(tail), describe(o)))
        if len(tail) != 1:
            return
        # the last request's status
        st = result(tail[0])
        c.req(v == st and failing(st, o.facts), "status", w,
              lambda: "the pass ends early with %s, status %s in %s" % (show(v), show(st), rng(st, o.facts)))
    elif var is not None:
        c.req(S.phis.get(var[2]) == ("i", 200), "status", S.site, "the result starts with %s" % show(S.phis.get(var[2], ("?",))))
    else:
        c.req(v == ("i", 200), "status", w, lambda: "after a full pass %s is returned" % show(v))
    for t in S.trans:
        reqs = calls_of(t.events, HTTP)
        live = any(e[0] == "vcall" and e[1] == COLLFN for e in t.events)
        c.req(len(reqs) == int(live), "each", S.site, lambda: "%d requests for one collectable" % len(reqs))
        for e in reqs:
            if var is None:
                c.req(good(result(e), t.facts), "status", evsite(e),
                      lambda: "the pass goes on after a status in %s" % rng(result(e), t.facts))
        if var is not None:
            combine(c, w, S, t, var, result(reqs[0]) if len(reqs) == 1 else None)
        inner = [e for x in t.events if x[0] == "loop" for e, l in walk([x]) if e[0] == "opaque" and e[1] == HTTP]
        c.req(not inner, "each", S.site, "requests in an inner loop")


def isolated(c, f, r):
    """what the tasks started by f read is theirs, or is not changed any more once they run"""
    seen = {}
    for a in r.accesses:
        root = a.loc[0]
        if a.is_async:
            c.req(root[0] != "v", "isolation", a.site, lambda: "%s: the task uses a variable of the function that started it: %s"
                  % (f.qn, showloc(a.loc)))
            if root[0] == "h":
                seen.setdefault(root, a)
        elif root in seen and a.rw == "w":
            c.req(False, "isolation", a.site, lambda: "%s changes what a running task reads at %s" % (f.qn, seen[root].site))
    for S in r.loops:
        for loc in S.phis:
            c.req(loc[0] not in seen, "isolation", S.site,
                  lambda: "%s: a later round changes what the task of an earlier one reads" % f.qn)


def c26_async(c, f, o, S, mode, v):
    w = c.where(f)
    c.req(mode == "n", "each", S.site, "the pass may stop early")
    locs = set()
    for t in S.trans:
        reqs = calls_of(t.events, HTTP)
        live = any(e[0] == "vcall" and e[1] == COLLFN for e in t.events)
        c.req(len(reqs) == int(live), "each", S.site, lambda: "%d requests for one collectable" % len(reqs))
        for e in reqs:
            i = t.events.index(e)
            opened = [x for x in t.events[:i] if x[0] == "async"]
            closed = [x for x in t.events[:i] if x[0] == "asyncend"]
            c.req(len(opened) == len(closed) + 1 and opened[-1][1] in (None, ("i", 1)), "background", evsite(e),
                  "the request is not made by a task of its own")
            keep = [l for l, ps in t.parts.items() if tuple(ps) == (("one", ("future", result(e))),)]
            c.req(len(keep) == 1, "background", evsite(e), "the task's future is not kept")
            locs |= set(keep)
    # reduction over the futures
    loops = [(e[1], e[2]) for e in o.events if e[0] == "loop" and
             any(x[0] == "ext" and x[1] == "std::future::get" for x, l in walk([e]))]
    if len(loops) != 1 or len(locs) != 1:
        c.req(False, "background", w, lambda: "the statuses are not collected in one pass\n" + describe(o))
        return
    R, rmode = loops[0]
    L_ = list(locs)[0]
    seq = None
    for t in R.trans:
        gets = [x for x in t.events if x[0] == "ext" and x[1] == "std::future::get"]
        c.req(len(gets) == 1 and gets[0][2][0][0] == "elem" and gets[0][2][0][2] == R.K(), "background", R.site,
              "a round takes the status of %d tasks" % len(gets))
        if len(gets) != 1 or gets[0][2][0][0] != "elem":
            return
        seq = gets[0][2][0][1]
        var = v if v[0] == "phi" and v[1] == R.lid else None
        if var is None:
            c.req(False, "status", w, lambda: "the result is %s" % show(v))
            return
        c.req(R.phis.get(var[2]) == ("i", 200), "status", R.site, "the result starts with %s" % show(R.phis.get(var[2], ("?",))))
        combine(c, w, R, t, var, ("fget", gets[0][2][0]))
    full = seq is not None and seq[0] == "seq" and len(seq[1]) == 1 and seq[1][0][0] == "loop" and seq[1][0][1] is S and \
        seq[1][0][2] == L_ and R.n is not None and same(R.n, ("size", seq), o.facts) and rmode == "n"
    c.req(full, "background", R.site, lambda: "not the status of every task is taken: %s" % (seq and show(seq)))


def transport(c):
    f = c.fn(HTTP, 3)
    w = c.where(f)
    for o in c.run(f, mode="cb").rets:
        ev = [e for e, l in whole(o) if e[0] == "ext"]
        perf = [e for e in ev if e[1] == "curl_easy_perform"]
        c.req(len(perf) == 1, "transport", w, lambda: "%d transfers\n%s" % (len(perf), describe(o)))
        if len(perf) != 1:
            continue
        err = ("call", perf[0][1], perf[0][2], perf[0][3])
        v = retval(o)
        if rng(err, o.facts) == ZERO:
            infos = [e for e in ev[ev.index(perf[0]):] if e[1] == "curl_easy_getinfo" and e[2][1] == ("i", RESPONSE_CODE) and e[2][0] == perf[0][2][0]]
            p = v
            while p[0] in ("cvt", "f2i"):
                p = p[-1]
            c.req(len(infos) == 1 and p == ("havoc", "curl_easy_getinfo", (infos[0][3], 2)), "transport", w,
                  lambda: "the result is %s\n%s" % (show(v), describe(o)))
        elif rng(err, o.facts).inter(ZERO).empty():
            # error codes are positive
            s = assume_int(o.st, ">", err, ("i", 0))
            c.req(s is not None and rng(v, s.facts).max() < 0, "transport", w, lambda: "the result is %s\n%s" % (show(v), describe(o)))
        else:
            c.req(False, "transport", w, lambda: "the result of the transfer is not examined\n" + describe(o))


# ---- URLs ---------------------------------------------------------------------------------------

def label_of(v):
    """(name, value) terms of a label value"""
    if v[0] == "obj":
        m = dict(v[2])
        return m.get("first"), m.get("second")
    return ("fld", v, "first"), ("fld", v, "second")


def enc_events(events):
    """calls of the label encoder: {uid: (name, value)}"""
    out = {}
    for e in events:
        if e[0] == "opaque" and e[1] == ENC:
            out[e[3]] = label_of(e[2][-1])
    return out


def tokens(ps, encs):
    """a text that was composed of literals, values and encoded labels"""
    out = []

    def lit(b):
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + b)
        elif b:
            out.append(("lit", b))

    for p in ps:
        if p[0] == "lit":
            lit(p[1])
        elif p[0] == "one" and p[1][0] == "i":
            lit(bytes([p[1][1] & 255]))
        elif p[0] == "all":
            x = deref_str(p[1])
            if x[0] == "written" and x[1] == ENC and x[2] in encs:
                a, b = encs[x[2]]
                out.append(("enc", lit_of(a) if lit_of(a) is not None else a, deref_str(b)))
            elif x[0] == "call" and x[1] == ENC:
                a, b = label_of(x[2][-1])
                out.append(("enc", lit_of(a) if lit_of(a) is not None else a, deref_str(b)))
            elif x[0] == "seq":
                for y in tokens(x[1], encs):
                    lit(y[1]) if y[0] == "lit" else out.append(y)
            else:
                out.append(("val", x))
        elif p[0] == "loop":
            S, l, mode = p[1:4]
            if mode != "n" or S.n is None or S.n[0] != "size":
                raise Mismatch("%s: a loop that does not visit every label" % S.site)
            V = S.n[1]
            for t in S.trans:
                en = enc_events(t.events)
                got = tokens(t.parts.get(l, ()), en)
                e = ("elem", V, S.K())
                want = ("fld", e, "first"), ("fld", e, "second")
                if len(got) != 1 or got[0][0] != "enc" or (got[0][1], got[0][2]) != want:
                    raise Mismatch("%s: a round writes %s" % (S.site, got))
            out.append(("encall", V))
        else:
            raise Mismatch("text contains %s" % text.showps([p]))
    return out


def deref_str(v):
    if v[0] == "cstrof" and v[1][0] == "cstr":
        v = v[1][1]
    return v


def expand(toks, fields):
    """replaces values of fields (terms) by the tokens they hold"""
    out = []
    for t in toks:
        if t[0] in ("val", "encall") and t[1] in fields:
            f = fields[t[1]]
            if t[0] == "encall":
                f = [("encall", f[0][1])] if len(f) == 1 and f[0][0] == "val" else [("?",)]
            for x in f:
                if x[0] == "lit" and out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + x[1])
                else:
                    out.append(x)
        elif t[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def expand_own(toks, fields):
    """tokens of a registered entry; encoded labels in it are the caller's unless they come from the gateway"""
    out = []
    for t in toks:
        if t[0] == "encall" and t[1] not in fields:
            out.append(("regenc", t[1]))
        else:
            out += expand([t], fields)
    return out


def content(v):
    """tokens of a field's value: texts, and maps that are kept as they are"""
    return parts(v) if v[0] == "seq" else (("all", v),)


def ctor_texts(c):
    """per path of the URL constructor: (fn, outcome, {field term: tokens})"""
    f = c.fn(GW + "::Gateway", 4)
    out = []
    for o in c.run(f, opaque=(ENC, CW + "::CurlWrapper"), nojoin=True).rets:
        encs = {}
        for e, l in walk(o.events):
            if not l and e[0] == "opaque":
                encs.update(enc_events([e]))
        m = {}
        v = fields_after(o)
        if v[0] != "obj":
            raise AnalysisError("the constructor of the gateway is not understood")
        for n, x in v[2]:
            if x[0] in ("seq", "deref", "s", "call") and x != EMPTY:
                try:
                    m[fld(n)] = tokens(content(x), encs)
                except Mismatch as err:
                    m[fld(n)] = [("?", str(err))]
            elif x == EMPTY:
                m[fld(n)] = []
        out.append((f, o, m))
    if not out:
        raise AnalysisError("no path through " + f.qn)
    return out


def entry_texts(c):
    """per path of registering: (fn, outcome, {field name of an entry: tokens})"""
    f = c.fn(GW + "::RegisterCollectable", 2)
    name, weak = weak_field(c, GW)
    out = []
    for o in c.run(f, opaque=(ENC,), nojoin=True).rets:
        v = o.st.get(thisloc(name))
        last = parts(v)[-1]
        m = {}
        if last[0] == "one" and last[1][0] == "obj":
            for n, x in last[1][2]:
                if x == EMPTY:
                    m[n] = []
                elif x[0] == "seq":
                    try:
                        m[n] = tokens(x[1], {})
                    except Mismatch as err:
                        m[n] = [("?", str(err))]
                else:
                    m[n] = [("val", x)]
        out.append((f, o, m))
    if not out:
        raise AnalysisError("no path through " + f.qn)
    return out


URL, JOB, LABELS = arg(0), arg(2), arg(3)


def split_base(toks):
    """(tokens of the URL up to 'metrics', rest) or None"""
    if toks and toks[0] == ("val", URL):
        if len(toks) > 1 and toks[1][0] == "lit":
            return toks[:2], toks[2:]
    elif toks and toks[0][0] == "lit":
        return toks[:1], toks[1:]
    return None


GROUP = [("enc", b"job", JOB), ("encall", LABELS)]


def c27(c):
    c.rule("url", "pushing addresses the job URL with the gateway's labels and the collectable's own labels, deleting the job URL, "
                  "deleting for the instance the job URL with the gateway's labels")
    c.rule("body", "a push carries the serialization of exactly what the collectable has just reported; deletes carry nothing")
    c.rule("method", "push uses POST, push-add PUT and delete DELETE, the asynchronous forms the same; the client translates "
                     "them to these methods")
    c.rule("client", "requests are made by the gateway's own client")
    c.rule("each", "a push makes exactly one request for every collectable it has collected, whatever that one reports")
    c.rule("isolation", "a task refers to no variable of the function that started it, and nothing it reads through a shared "
                        "pointer is changed after its start")
    c.rule("result", "the delete operations return the status of their request; asynchronous ones run it in a task")
    ctors, entries = ctor_texts(c), entry_texts(c)
    name, weak = weak_field(c, GW)
    client = None
    for fl in c.P.cls(GW)["fields"]:
        if fl["t"].ta and getattr(fl["t"].ta[0], "qn", "") == CW:
            client = fl["name"]
    if client is None:
        raise AnalysisError("the client of the gateway is not owned by a smart pointer")

    def check_url(e, v, elem, want_entry, want_labels):
        try:
            toks = tokens(parts(v) if v[0] == "seq" else (("all", v),), {})
        except Mismatch as x:
            return c.req(False, "url", evsite(e), str(x))
        for cf, co, cm in ctors:
            for rf, ro, rm in (entries if want_entry else [(None, None, {})]):
                fs = dict(cm)
                reg = None
                for n, x in rm.items():
                    fs[("fld", elem, n)] = expand_own(x, cm)
                got = [("regenc", deref_all_arg(t[1])) if t[0] == "regenc" else t for t in expand(toks, fs)]
                sb = split_base(got)
                want = list(GROUP) if want_labels else GROUP[:1]
                if want_entry and any(t[0] == "regenc" for x in rm.values() for t in expand_own(x, cm)):
                    want = want + [("regenc", ("sym", "arg1"))]
                c.req(sb and sb[1] == want, "url", evsite(e), lambda: "the URL is %s" % (got,))

    for f, r, method, is_async in push_runs(c):
        if is_async:
            isolated(c, f, r)
        for o in r.rets:
            scopes = [(c.where(f), o.events)]
            for e, l in walk(o.events):
                if e[0] == "loop":
                    scopes += [(e[1].site, t.events) for t in e[1].trans]
            for site, evs in scopes:
                nc = len([x for x in evs if x[0] == "vcall" and x[1] == COLLFN])
                nh = len(calls_of(evs, HTTP))
                c.req(nc == nh, "each", site, lambda: "%s: %d requests for %d collected collectables" % (f.qn, nh, nc))
            for e, l in walk(o.events):
                if e[0] != "opaque" or e[1] != HTTP:
                    continue
                cl, m, u, b = e[2]
                c.req(owned_by(cl, client), "client", evsite(e), "another client is used: %s" % show(cl))
                c.req(m == ("i", method), "method", evsite(e), "%s uses method %s" % (f.qn, show(m)))
                evs = l[-1][2].events if l else o.events
                i = evs.index(e)
                vc = [x for x in evs[:i] if x[0] == "vcall" and x[1] == COLLFN]
                el = elem_of(vc[-1][2], weak, name) if vc else None
                c.req(el is not None, "url", evsite(e), "the request is not made for an element of the registered collectables")
                if el is None:
                    continue
                check_url(e, u, el, True, True)
                ser = [x for x in evs[:i] if x[0] == "opaque" and x[1] == SER]
                c.req(len(ser) == 1 and body_of(e) == ("written", SER, ser[0][3]) and deref_all(ser[0][2][-1]) == vcall_result(vc[-1]),
                      "body", evsite(e), lambda: "the body is %s" % show(b))
    for n, lab, is_async in (("Delete", False, False), ("DeleteForInstance", True, False), ("AsyncDelete", False, True),
                             ("AsyncDeleteForInstance", True, True)):
        f = c.fn(GW + "::" + n, 0)
        w = c.where(f)
        r = c.run(f, opaque=(HTTP,))
        rets = r.rets
        c.req(bool(rets), "result", w, "no path returns")
        if is_async:
            isolated(c, f, r)
        for o in rets:
            reqs = [(e, l) for e, l in whole(o) if e[0] == "opaque" and e[1] == HTTP]
            c.req(len(reqs) == 1 and not reqs[0][1], "result", w, lambda: describe(o))
            if len(reqs) != 1:
                continue
            e = reqs[0][0]
            cl, m, u, b = e[2]
            c.req(owned_by(cl, client), "client", evsite(e), "another client is used: %s" % show(cl))
            c.req(m == ("i", 2), "method", evsite(e), "%s uses method %s" % (f.qn, show(m)))
            c.req(b in (EMPTY, ("s", b""), ZEROV), "body", evsite(e), lambda: "the body is %s" % show(b))
            check_url(e, u, None, False, lab)
            v = retval(o)
            if is_async:
                i = o.events.index(e)
                opened = [x for x in o.events[:i] if x[0] == "async"]
                c.req(v == ("future", result(e)) and len(opened) == 1 and opened[0][1] in (None, ("i", 1)), "result", w,
                      lambda: "the result is %s" % show(v))
            else:
                c.req(v == result(e), "result", w, lambda: "the result is %s" % show(v))
    # what the client makes of the methods
    f, runs = http_runs(c)
    seen = {}
    for o, req in runs:
        for m in (0, 1, 2):
            if m in rng(arg(0), o.facts):
                seen.setdefault(m, set()).add(req.verb())
    for m, want in enumerate(("POST", "PUT", "DELETE")):
        c.req(seen.get(m) == {want}, "method", c.where(f), "method %d becomes %s" % (m, sorted(map(str, seen.get(m, ())))))


def is_arg(t, n):
    t = deref_all_arg(t)
    return t == ("sym", "arg%d" % n)


def deref_all_arg(t):
    while t[0] in ("deref", "moved"):
        t = t[1]
    return t


def owned_by(t, field):
    return deref_all_arg(t) == fld(field)


def elem_of(p, weak, name):
    """the element of the container whose locked pointer is p"""
    p = deref_all_arg(p)
    if p[0] != "lock":
        return None
    w = p[1]
    probe = weak(("E",))
    if probe[0] == "fld":
        if w[0] != "fld" or w[2] != probe[2]:
            return None
        w = w[1]
    return w if w[0] == "elem" and w[1] == fld(name) else None


# ---- the HTTP client --------------------------------------------------------------------------------

class Request:
    """what a path of the client configures before the transfer"""

    def __init__(self, handle):
        self.handle, self.opts, self.order = handle, {}, []

    def set(self, name, v):
        self.opts[name] = v
        self.order.append((name, v))

    def verb(self):
        base = "GET"
        custom = None
        for n, v in self.order:
            on = v not in (("i", 0), NULL)
            if n in ("POSTFIELDS", "COPYPOSTFIELDS"):
                if on:
                    base = "POST"
            elif n == "POST":
                base = "POST" if on else "GET"
            elif n == "HTTPGET" and on:
                base = "GET"
            elif n in ("UPLOAD", "PUT"):
                base = "PUT" if on else "GET"
            elif n == "NOBODY":
                base = "HEAD" if on else "GET" if base == "HEAD" else base
            elif n == "CUSTOMREQUEST":
                custom = (lit_of(v) or b"?").decode() if on else None
        self.base = base
        return custom or base


def http_runs(c):
    """[(outcome, Request)] of the paths that reach the transfer; the handle is the field used for it"""
    f = c.fn(HTTP, 3)
    out = []
    for o in c.run(f, mode="cb").rets:
        ev = [e for e, l in whole(o)]
        perf = [e for e in ev if e[0] == "ext" and e[1] == "curl_easy_perform"]
        if not perf:
            continue
        req = Request(perf[0][2][0])
        for e in ev:
            if e is perf[0]:
                break
            if e[0] == "ext" and e[1] == "curl_easy_reset" and e[2][0] == req.handle:
                req.opts, req.order = {}, []
            if e[0] == "ext" and e[1] == "curl_easy_setopt" and e[2][0] == req.handle:
                o_ = e[2][1]
                req.set(OPTS.get(o_[1], o_[1]) if o_[0] == "i" else "?", e[2][2])
        out.append((o, req))
    if not out:
        raise AnalysisError("no path of the client makes a transfer")
    return f, out


def list_field(c):
    """the field of the client that holds the header list"""
    f, runs = http_runs(c)
    hs = set()
    for o, r in runs:
        h = r.opts.get("HTTPHEADER")
        if h is not None:
            hs.add(h)
    return hs


def presetup(c):
    """the callback field of the client"""
    out = [fl["name"] for fl in c.P.cls(CW)["fields"] if fl["t"].qn == "std::function"]
    if len(out) != 1:
        raise AnalysisError("no unique set-up callback in " + CW)
    return fld(out[0])


def cstr_of(v, s):
    return v[0] == "cstr" and v[1] == s or v == ("cstr", s)


def c28(c):
    c.rule("reset", "every request resets the client's handle before anything else is done with it")
    c.rule("setup", "the user's set-up is applied exactly once if there is one, after the reset and before the transfer, to this handle")
    c.rule("own", "the request's own URL, the header list and its own body are set after the reset; a body is announced with its "
                  "full size; without a body no data is attached")
    c.rule("transfer", "there is exactly one transfer, nothing is configured after it, and its response code is read from the same handle")
    c.rule("exclusive", "from the reset until the response code has been read one and the same lock is held, and everything else that "
                        "uses the handle or the header list holds it, too")
    c.rule("headers", "an added header is appended to the current list and the new list is kept; if that fails the old list is kept "
                      "and false is returned")
    f, runs = http_runs(c)
    w = c.where(f)
    cb = presetup(c)
    locks = None
    lists = list_field(c)
    c.req(len(lists) == 1 and list(lists)[0][0] == "fld", "headers", w, "requests use the header lists %s" % [show(x) for x in lists])
    all_ = c.run(f, mode="cb")
    for o in all_.rets:
        perf = [e for e, l in whole(o) if e[0] == "ext" and e[1] == "curl_easy_perform"]
        c.req(len(perf) == 1, "transfer", w, lambda: describe(o))
    for o, req in runs:
        d = lambda: describe(o)
        evs = [e for e, l in whole(o)]
        c.req(not any(l for e, l in whole(o) if e[0] in ("ext", "cb")), "transfer", w, "the client works in a loop")
        H = req.handle
        c.req(H[0] == "fld" and H[1] == THIS, "reset", w, "the handle is %s" % show(H))
        uses = [e for e in evs if e[0] == "ext" and e[1].startswith("curl_") or e[0] == "cb"]
        first = uses[0] if uses else None
        c.req(first is not None and first[0] == "ext" and first[1] == "curl_easy_reset" and first[2][0] == H, "reset",
              evsite(first) if first else w, d)
        resets = [e for e in uses if e[0] == "ext" and e[1] == "curl_easy_reset"]
        c.req(len(resets) == 1, "reset", w, d)
        perf = [e for e in uses if e[0] == "ext" and e[1] == "curl_easy_perform"]
        if len(perf) != 1:
            continue
        pi = uses.index(perf[0])
        for e in uses:
            if e[0] == "ext":
                c.req(e[1] in ("curl_easy_reset", "curl_easy_setopt", "curl_easy_perform", "curl_easy_getinfo"), "transfer", evsite(e),
                      "%s is not understood" % e[1])
                c.req(e[2][0] == H, "transfer", evsite(e), "another handle is used: %s" % show(e[2][0]))
                if e[1] == "curl_easy_setopt":
                    c.req(uses.index(e) < pi, "transfer", evsite(e), "the handle is configured after the transfer")
        info = [e for e in uses[pi:] if e[0] == "ext" and e[1] == "curl_easy_getinfo" and e[2][1] == ("i", RESPONSE_CODE)]
        err = ("call", perf[0][1], perf[0][2], perf[0][3])
        c.req(len(info) == 1 or not info and rng(err, o.facts).inter(ZERO).empty(), "transfer", w, d)
        # set-up
        cbs = [e for e in uses if e[0] == "cb"]
        if isnull(o.facts, cb):
            c.req(not cbs, "setup", w, d)
        else:
            c.req(len(cbs) == 1 and cbs[0][1] == cb and tuple(cbs[0][2]) == (H,) and uses.index(cbs[0]) < pi and nonnull(o.facts, cb),
                  "setup", w, d)
        # own
        c.req(cstr_of(req.opts.get("URL", ("?",)), arg(1)), "own", w, lambda: "URL %s" % show(req.opts.get("URL", ("?",))))
        c.req(req.opts.get("HTTPHEADER") in lists, "own", w, d)
        size, data = req.opts.get("POSTFIELDSIZE"), req.opts.get("POSTFIELDS", req.opts.get("COPYPOSTFIELDS"))
        body = arg(2)
        rs = rng(("size", body), o.facts)
        if rs.min() > 0:
            req.verb()
            c.req(size is not None and same(size, ("size", body), o.facts), "own", w, lambda: "body size %s\n%s" % (size and show(size), describe(o)))
            c.req(data is not None and cstr_of(data, body), "own", w, lambda: "body %s\n%s" % (data and show(data), describe(o)))
            c.req(req.base == "POST", "own", w, lambda: "the body is not sent with a %s request" % req.base)
            if "COPYPOSTFIELDS" in req.opts:
                ns = [n for n, v in req.order]
                c.req("POSTFIELDSIZE" in ns and ns.index("POSTFIELDSIZE") < ns.index("COPYPOSTFIELDS"), "own", w, "the size is set after copying")
        elif rs == ZERO:
            c.req((data is None or cstr_of(data, body) or lit_of(data) == b"") and size in (None, ("i", 0), ("size", body)) and
                  (size is not None or data is None or lit_of(data) == b""), "own", w, d)
            if req.verb() == "POST" and size is None:
                c.req(lit_of(data or ("?",)) == b"" or data is not None, "own", w, "a request without a body does not announce its size")
        else:
            # one treatment for both cases
            c.req(size is not None and same(size, ("size", body), o.facts) and data is not None and cstr_of(data, body), "own", w, d)
        for n, v in req.order:
            c.req(n != "?", "own", w, "an option that is not a constant is set")
        # exclusive
        ls = None
        for e in uses:
            x = set(e[4] if e[0] == "ext" else e[4])
            held = set(e_locks(e))
            ls = held if ls is None else ls & held
        c.req(bool(ls), "exclusive", w, d)
        if ls:
            a, b = evs.index(uses[0]), max(evs.index(x) for x in [perf[0]] + info)
            for e in evs[a:b + 1]:
                c.req(not (e[0] == "unlock" and lockname(e) in ls), "exclusive", w, "the lock is given up in between\n" + describe(o))
            locks = ls if locks is None else locks & ls
        c.sample("%s: %s" % (req.verb(), ", ".join(str(n) for n, v in req.order)))
    c.req(bool(locks), "exclusive", w, "not all requests hold the same lock")
    # everything else that touches the client
    LST = list(lists)[0] if len(lists) == 1 else None
    for g in [g for g in c.P.fns.values() if g.cls == CW and g.kind == "method" and g.body is not None and not g.implicit and g.acc == "public"]:
        for o in c.run(g, mode="cb").outs:
            for e, l in whole(o):
                if e[0] == "ext" and e[1].startswith("curl_"):
                    c.req(bool(set(e_locks(e)) & (locks or set())), "exclusive", evsite(e), lambda: "%s without the client's lock\n%s" % (e[1], describe(o)))
    g = c.fn(CW + "::addHttpHeader", 1)
    w = c.where(g)
    n = 0
    for o in c.run(g).rets:
        aps = [e for e, l in whole(o) if e[0] == "ext" and e[1] == "curl_slist_append"]
        oth = [e for e, l in whole(o) if e[0] == "ext" and e[1].startswith("curl_") and e[1] != "curl_slist_append"]
        c.req(not oth, "headers", w, lambda: describe(o))
        if LST is None:
            continue
        now = o.st.get(thisloc(LST[2]))
        others = [m for m in store_mods(o) if m.loc != thisloc(LST[2])]
        c.req(not others, "headers", w, lambda: describe(o))
        v = rng(retval(o), o.facts)
        ok = len(aps) == 1 and aps[0][2][0] == LST and cstr_of(aps[0][2][1], arg(0))
        c.req(ok, "headers", w, lambda: describe(o))
        if not ok:
            continue
        res = ("call", aps[0][1], aps[0][2], aps[0][3])
        if nonnull(o.facts, res):
            n += 1
            c.req(now == res and v == IntSet.of(1), "headers", w, lambda: "the list becomes %s\n%s" % (show(now), describe(o)))
        elif isnull(o.facts, res):
            c.req(now == LST and v == ZERO, "headers", w, lambda: "the list becomes %s\n%s" % (show(now), describe(o)))
        else:
            c.req(False, "headers", w, "the result of appending is not examined")
    c.req(n > 0, "headers", w, "no header can be added")
    c.assumptions += ["the libcurl functions behave as documented; a callback given as set-up uses the handle it gets only while it runs"]


def e_locks(e):
    return e[4]


def lockname(e):
    return e[1]


# ---- life of the client -----------------------------------------------------------------------------

PAIRS = {"curl_global_init": "curl_global_cleanup", "curl_easy_init": "curl_easy_cleanup", "curl_slist_append": "curl_slist_free_all"}


def acquired(o):
    """[(kind, value or None, event)] what a path has acquired for sure, in order; lists that grew count once"""
    out = []
    for e, l in whole(o):
        if e[0] != "ext" or e[1] not in PAIRS:
            continue
        v = ("call", e[1], e[2], e[3])
        if e[1] == "curl_global_init":
            r = rng(v, o.facts)
            if r == ZERO:
                out.append(("global", None, e))
            elif not r.inter(ZERO).empty():
                out.append(("unknown", None, e))
        elif e[1] == "curl_easy_init":
            if nonnull(o.facts, v):
                out.append(("handle", v, e))
            elif not isnull(o.facts, v):
                out.append(("unknown", None, e))
        else:
            if nonnull(o.facts, v):
                prev = e[2][0]
                out = [x for x in out if not (x[0] == "list" and x[1] == prev)]
                out.append(("list", v, e))
            elif not isnull(o.facts, v):
                out.append(("unknown", None, e))
    return out


def released(o):
    """[(kind, value, event)] releases on a path"""
    out = []
    for e, l in whole(o):
        if e[0] != "ext":
            continue
        if e[1] == "curl_global_cleanup":
            out.append(("global", None, e))
        elif e[1] == "curl_easy_cleanup":
            out.append(("handle", e[2][0], e))
        elif e[1] == "curl_slist_free_all":
            out.append(("list", e[2][0], e))
    return out


def c31(c):
    c.rule("construct", "a client whose constructor returns holds the library, one handle and one header list, and has released nothing")
    c.rule("fail", "when construction fails, exactly what was acquired before has been released, each thing once, the handle before the library")
    c.rule("examined", "the result of every acquisition is examined before it is used")
    c.rule("destroy", "destruction releases the handle, the header list and the library exactly once each, the handle before the library")
    c.rule("kept", "no other operation releases or replaces the handle, and the header list is only ever extended")
    c.rule("owner", "the gateway creates one client and owns it")
    f = c.fn(CW + "::CurlWrapper", 1)
    w = c.where(f)
    r = c.run(f, mode="cb", nojoin=True)
    fields = {}
    for o in r.outs:
        d = lambda: describe(o)
        a, b = acquired(o), released(o)
        unknown = [x for x in a if x[0] == "unknown"]
        # a callback that fails right after an acquisition leaves its result unknown on no path
        c.req(not unknown, "examined", w, lambda: "%s is not examined\n%s" % (unknown[0][2][1], describe(o)))
        a = [x for x in a if x[0] != "unknown"]
        for e, l in whole(o):
            if e[0] == "ext" and e[1].startswith("curl_easy_") and e[1] not in ("curl_easy_init",) and e[2]:
                c.req(nonnull(o.facts, e[2][0]), "examined", evsite(e), "a handle that may be missing is used")
        if o.kind == "ret":
            c.req(not b, "construct", w, d)
            v = fields_after(o)
            m = dict(v[2]) if v[0] == "obj" else {}
            c.req(sorted(x[0] for x in a) == ["global", "handle", "list"], "construct", w, d)
            for kind, x, e in a:
                if kind == "global":
                    continue
                fs = [n for n, y in m.items() if raw(o, y) == x]
                c.req(len(fs) == 1, "construct", w, lambda: "the %s is not kept" % kind)
                if fs:
                    fields.setdefault(kind, set()).add(fs[0])
                if kind == "list":
                    c.req(e[2][0] == NULL and (lit_of(e[2][1]) or b"").startswith(b"Content-Type: text/plain"), "construct", evsite(e),
                          "the header list starts with %s" % show(e[2][1]))
        else:
            want = sorted(((x[0], x[1]) for x in a), key=repr)
            got = sorted(((x[0], x[1]) for x in b if not (x[0] == "list" and x[1] == NULL)), key=repr)
            c.req(want == got, "fail", w, lambda: "acquired %s, released %s\n%s" % ([x[0] for x in want], [x[0] for x in got], describe(o)))
            order(c, "fail", w, b)
    c.req(all(len(x) == 1 for x in fields.values()) and set(fields) == {"handle", "list"}, "construct", w, "fields %s" % fields)
    if not all(len(x) == 1 for x in fields.values()) or set(fields) != {"handle", "list"}:
        return
    H, LST = fld(list(fields["handle"])[0]), fld(list(fields["list"])[0])
    r = c.destroy(CW)
    for o in r.outs:
        b = released(o)
        b = [x for x in b if not (x[1] is not None and isnull(o.facts, x[1]))]
        want = [("global", None)] + [(k, x) for k, x in (("handle", H), ("list", LST)) if not isnull(o.facts, x)]
        got = [(x[0], x[1]) for x in b]
        c.req(sorted(want, key=repr) == sorted(got, key=repr), "destroy", c.where(r.fn), lambda: describe(o))
        order(c, "destroy", c.where(r.fn), b)
    for g in [g for g in c.P.fns.values() if g.cls == CW and g.kind == "method" and g.body is not None and not g.implicit and g.acc == "public"]:
        for o in c.run(g, mode="cb").outs:
            c.req(not released(o), "kept", c.where(g), lambda: describe(o))
            c.req(o.st.get(thisloc(H[2])) == H, "kept", c.where(g), lambda: describe(o))
            now = o.st.get(thisloc(LST[2]))
            c.req(now == LST or now[0] == "call" and now[1] == "curl_slist_append" and now[2][0] == LST and nonnull(o.facts, now),
                  "kept", c.where(g), lambda: "the list becomes %s" % show(now))
    # the owner
    f = c.fn(GW + "::Gateway", 4)
    for o in c.run(f, opaque=(ENC,), watch=(CW,)).rets:
        news = [e for e, l in walk(o.events) if e[0] == "new" and str(e[2]).endswith("CurlWrapper")]
        dels = [e for e, l in walk(o.events) if e[0] in ("del", "drop")]
        v = fields_after(o)
        m = dict(v[2]) if v[0] == "obj" else {}
        kept = [n for n, x in m.items() if news and x == news[0][1]]
        c.req(len(news) == 1 and not dels and len(kept) == 1, "owner", c.where(f), lambda: describe(o))
    c.assumptions += ["curl_slist_append leaves the old list intact and owned by the caller when it fails, and the new list contains it otherwise"]


def raw(o, y):
    """the raw pointer of a field that may be a smart pointer"""
    return deref_all_arg(y) if y[0] == "moved" else y


def order(c, rule, w, b):
    g = [i for i, x in enumerate(b) if x[0] == "global"]
    h = [i for i, x in enumerate(b) if x[0] == "handle"]
    c.req(not (g and h) or h[-1] < g[0], rule, w, "the library is released before the handle")


# ---- encoding of labels ----------------------------------------------------------------------------------

UNRESERVED = IntSet([(ord("a"), ord("z")), (ord("A"), ord("Z")), (ord("0"), ord("9"))]).union(
    IntSet.of(ord("-")).union(IntSet.of(ord("."))).union(IntSet.of(ord("_"))).union(IntSet.of(ord("~"))))
FIRST, SECOND = ("fld", arg(1), "first"), ("fld", arg(1), "second")


def notlit(fa, v, b):
    """the text v is known to differ from the literal"""
    for t in (("s", b), ("seq", (("lit", b),))):
        if "=" not in getrel(fa, v, t, REL):
            return True
    if rng(("size", v), fa).inter(IntSet.of(len(b))).empty():
        return True
    return any(rng(("elem", v, ("i", i)), fa).inter(IntSet.of(b[i])).empty() for i in range(len(b)))


def all_in(o, v, S_):
    """every character of v is known to lie in the set"""
    for e in o.events:
        if e[0] == "loop" and e[2] == "n" and e[1].n is not None and same(e[1].n, ("size", v), o.facts) and e[1].trans:
            S = e[1]
            if all(rng(("elem", v, S.K()), t.facts).subset(S_) for t in S.trans):
                return True
    for t in all_terms(o.facts):
        if t[0] == "sfind" and t[1] == "find_first_not_of" and t[2] == v and t[4] == ("i", 0) and rng(t, o.facts) == IntSet.of(2 ** 64 - 1):
            l = lit_of(t[3])
            if l is not None and IntSet([(b, b) for b in set(l)]).subset(S_):
                return True
    return False


def c29(c):
    c.rule("literal", "a value is written literally only where it is known to be neither empty nor a dot segment and to consist of "
                      "unreserved characters")
    c.rule("encoded", "otherwise the segment is the name with the base64 marker and the URL safe base64 form of exactly that value, or "
                      "one equals sign for the empty value")
    c.rule("segment", "a label is written as slash, its name, marker, slash, value and nothing else")
    c.rule("url", "the job URL is the base URL, exactly one slash, metrics and the job label; the labels follow in order, all of them")
    c.rule("host", "host and port are joined by a colon; all constructors agree")
    c.rule("entry", "a collectable's own labels are encoded in order, all of them, when it is registered")
    f = c.fn(ENC)
    w = c.where(f)
    r = c.run(f, opaque=(B64URL,), nojoin=True)
    lits = 0
    for o in r.outs:
        if o.kind != "ret":
            c.req(False, "segment", w, lambda: describe(o))
            continue
        d = lambda: describe(o)
        os_ = ("fld", arg(0), "@content")
        v = o.st.get((("p", ("sym", "arg0")), (("f", "@content"),)))
        ps = list(parts(v)) if v[0] == "seq" else [("all", v)]
        if not ps or ps[0] != ("all", os_):
            c.req(False, "segment", w, lambda: "the output is %s" % text.showps(ps))
            continue
        ps = flat(ps[1:])
        ok = len(ps) >= 3 and ps[0] == ("lit", b"/") and ps[1] == ("all", FIRST)
        c.req(ok, "segment", w, lambda: "the output is %s" % text.showps(ps))
        if not ok:
            continue
        rest = ps[2:]
        size = rng(("size", SECOND), o.facts)
        if rest[0] == ("lit", b"/") and len(rest) == 2 and rest[1] == ("all", SECOND):
            lits += 1
            c.req(size.min() > 0, "literal", w, lambda: "the value may be empty\n" + describe(o))
            for b in (b".", b".."):
                c.req(notlit(o.facts, SECOND, b), "literal", w, lambda: "the value may be %r\n%s" % (b, describe(o)))
            c.req(all_in(o, SECOND, UNRESERVED), "literal", w, lambda: "the value may contain reserved characters\n" + describe(o))
        elif rest == [("lit", b"@base64/=")]:
            c.req(size == ZERO, "encoded", w, lambda: "the value may not be empty\n" + describe(o))
        elif rest[0] == ("lit", b"@base64/") and len(rest) == 2 and rest[1][0] == "all":
            x = rest[1][1]
            c.req(x[0] == "call" and x[1] == B64URL and tuple(x[2]) == (SECOND,), "encoded", w, lambda: "the value is written as %s" % show(x))
            c.req(size.min() > 0, "encoded", w, lambda: "an empty value would be written as nothing\n" + describe(o))
        else:
            c.req(False, "segment", w, lambda: "the output is %s" % text.showps(ps))
        other = [x for x in o.events if x[0] in ("ext", "cb", "vcall")]
        c.req(not other, "segment", w, d)
    c.req(lits > 0, "literal", w, "no value is written literally")
    # the URL of a gateway
    for nargs, base, job, labels in ((4, ("url",), JOB, LABELS), (5, ("host",), arg(3), arg(4)), (7, ("host",), arg(2), arg(3))):
        f = c.fn(GW + "::Gateway", nargs)
        w = c.where(f)
        rets = c.run(f, opaque=(ENC, CW + "::CurlWrapper"), nojoin=True).rets
        c.req(bool(rets), "url", w, "no path returns")
        for o in rets:
            for e, l in walk(o.events):
                if e[0] == "opaque" and e[1] == ENC:
                    plain_stream(c, e)
            encs = {}
            for e in o.events:
                encs.update(enc_events([e]))
            v = fields_after(o)
            found_job = found_labels = False
            for n, x in (v[2] if v[0] == "obj" else ()):
                if x[0] != "seq":
                    continue
                try:
                    tk = tokens(x[1], encs)
                except Mismatch as err:
                    c.req(False, "url", w, "%s: %s" % (n, err))
                    continue
                if any(t[0] == "enc" for t in tk):
                    found_job = True
                    job_url(c, w, o, tk, base[0], job, labels, n)
                elif any(t[0] == "encall" for t in tk):
                    c.req(tk == [("encall", labels)], "url", w, lambda: "%s is %s" % (n, tk))
                if ("encall", labels) in tk:
                    found_labels = True
            for n, x in (v[2] if v[0] == "obj" else ()):
                found_labels = found_labels or x == labels
            c.req(found_job, "url", w, lambda: "no job URL is kept\n" + describe(o))
            c.req(found_labels or rng(("size", labels), o.facts) == ZERO, "url", w, lambda: "the labels are not kept\n" + describe(o))
    for f, o, m in entry_texts(c):
        w = c.where(f)
        for e, l in walk(o.events):
            if e[0] == "opaque" and e[1] == ENC:
                plain_stream(c, e)
        given = [x for x in m.values() if any(t[0] == "encall" for t in x)]
        if isnull(o.facts, ("deref", ("sym", "arg1"))) or isnull(o.facts, ("sym", "arg1")) or not given and maybe_null(o.facts):
            c.req(not given, "entry", w, lambda: describe(o))
            continue
        c.req(len(given) == 1 and given[0][-1][0] == "encall" and is_arg(given[0][-1][1], 1), "entry", w, lambda: "%s\n%s" % (m, describe(o)))
    c.assumptions += ["label and job names are legal names: the name of a label is not escaped"]


def maybe_null(fa):
    return any(isnull(fa, t) for t in (("sym", "arg1"), ("deref", ("sym", "arg1"))))


def plain_stream(c, e):
    """the stream a label is written to has no pending field width"""
    s = e[2][0]
    if s[0] != "obj":
        return
    m = dict(s[2])
    c.req(m.get("@width", ("i", 0)) == ("i", 0), "segment", evsite(e), "the stream has a field width of %s" % show(m.get("@width")))


def flat(ps):
    """parts with pads of the stream's initial width resolved and literals split at the boundaries that matter"""
    out = []
    for p in ps:
        if p[0] == "pad" and p[2] == ("fld", arg(0), "@width"):
            q = flat(list(p[1][1]) if p[1][0] == "seq" else [("all", p[1])])
        elif p[0] == "all" and p[1][0] == "seq":
            q = flat(list(p[1][1]))
        elif p[0] == "one" and p[1][0] == "i":
            q = [("lit", bytes([p[1][1] & 255]))]
        else:
            q = [p]
        for x in q:
            if x[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
            else:
                out.append(x)
    return out


def job_url(c, w, o, tk, kind, job, labels, n):
    """base URL, one slash, metrics, job label (and possibly the labels)"""
    sh = lambda: "%s is %s\n%s" % (n, tk, describe(o))
    if kind == "url":
        base, bterm = [("val", URL)], URL
        rest = tk[1:] if tk[:1] == base else tk
        empty = tk[:1] != base
    else:
        base = [("val", arg(0)), ("lit", b":"), ("val", arg(1))]
        # ':' and the port end the base
        if len(tk) >= 3 and tk[0] == base[0] and tk[1] == ("lit", b":") and tk[2] == base[2]:
            rest, empty = tk[3:], False
        else:
            return c.req(False, "host", w, sh)
        bterm = mkseq((("all", arg(0)), ("lit", b":"), ("all", arg(1))))
    lit = rest[0][1] if rest and rest[0][0] == "lit" else None
    want = rest[1:] in ([("enc", b"job", job)], [("enc", b"job", job), ("encall", labels)])
    c.req(want, "url", w, sh)
    if kind == "url" and (empty or rng(("size", bterm), o.facts) == ZERO):
        c.req(rng(("size", bterm), o.facts) == ZERO and lit in (b"metrics", b"/metrics"), "url", w, sh)
        return
    last = rng(("elem", bterm, sub(sizeof(bterm), ("i", 1))), o.facts)
    if kind == "host":
        # an empty port leaves the colon
        if rng(("size", arg(1)), o.facts) == ZERO:
            last = IntSet.of(58)
    slash = last == IntSet.of(47)
    noslash = last.inter(IntSet.of(47)).empty()
    c.req(lit == b"metrics" and slash or lit == b"/metrics" and noslash, "url", w, lambda: "last character in %s; %s" % (last, sh()))


# ---- configuration -----------------------------------------------------------------------------------------

def c38(c):
    c.rule("client", "the client is created with the caller's set-up callback, or with the one that applies credentials and timeout")
    c.rule("credentials", "where a user name is given, basic authentication is selected and the credentials are user name, colon and "
                          "password; where none is given no credentials are sent")
    c.rule("timeout", "the caller's timeout, in seconds, is set on every request")
    c.rule("header", "adding a header to the gateway adds exactly it to the client's headers and reports the client's answer")
    adapter = None
    for nargs in (4, 5, 7):
        f = c.fn(GW + "::Gateway", nargs)
        w = c.where(f)
        n = 0
        for o in c.run(f, opaque=(ENC, CW + "::CurlWrapper"), nojoin=True).rets:
            v = fields_after(o)
            m = dict(v[2]) if v[0] == "obj" else {}
            cl = [o.st.get(x[1]) for x in m.values() if x[0] == "ptr"]
            cl = [x for x in cl if x[0] == "newobj" and x[1].startswith(CW)]
            c.req(len(cl) == 1, "client", w, lambda: describe(o))
            if len(cl) != 1:
                continue
            n += 1
            p = deref_all_arg(cl[0][2][0])
            if nargs != 7:
                c.req(p == ("sym", "arg%d" % (1 if nargs == 4 else 2)), "client", w, lambda: "the client's set-up is %s" % show(p))
                continue
            adapter_path(c, w, o, p)
        c.req(n > 0, "client", w, "no path creates a client")
    f = c.fn(GW + "::AddHttpHeader", 1)
    ADD = CW + "::addHttpHeader"
    for o in c.run(f, opaque=(ADD,)).rets:
        ev = calls_of([e for e, l in whole(o)], ADD)
        c.req(len(ev) == 1 and ev[0][2][-1] == arg(0) and retval(o) == result(ev[0]), "header", c.where(f), lambda: describe(o))


def adapter_path(c, w, o, p):
    """calls the set-up object a gateway has built from user name, password and timeout"""
    USER, PASS, TIME = arg(4), arg(5), arg(6)
    import engine
    E = Interp(c.P, throws="none")
    E.frames = [engine.Frame(c.fn(GW + "::Gateway", 7), 0, ("sym", "this"), {}, None, "entry")]
    E.sink = []
    st = o.st.copy()
    st.trace = None
    loc = (("v", 0, "adapter"), ())
    st.store[loc[0]] = p
    try:
        outs = E.call_value(st, ("ptr", loc) if p[0] == "obj" else p, [(V, ("sym", "curl"), None, None)], {"i": 0, "t": None})
    finally:
        E.frames = []
    c.req(bool(outs) and not E.sink, "credentials", w, "the set-up does not return")
    for s, r in outs:
        o2 = engine.Outcome("ret", s, r)
        ev = [e for e, l in whole(o2) if e[0] == "ext"]
        bad = [e for e in ev if e[1] != "curl_easy_setopt" or e[2][0] != ("sym", "curl")]
        c.req(not bad, "client", w, lambda: "the set-up does %s" % showev(bad[0]))
        opts = {OPTS.get(e[2][1][1], e[2][1][1]) if e[2][1][0] == "i" else "?": e[2][2] for e in ev if e not in bad}
        d = lambda: "set-up %s\n%s" % ({k: show(v) for k, v in opts.items()}, describe(o2))
        us = rng(("size", USER), s.facts)
        cred = [k for k in opts if k in ("USERPWD", "HTTPAUTH", "USERNAME", "PASSWORD")]
        if us.min() > 0:
            good_ = False
            if "USERPWD" in opts and opts["USERPWD"][0] == "cstr":
                ps = flat(list(parts(opts["USERPWD"][1])))
                good_ = ps == [("all", USER), ("lit", b":"), ("all", PASS)]
            elif "USERNAME" in opts and "PASSWORD" in opts:
                good_ = cstr_of(opts["USERNAME"], USER) and cstr_of(opts["PASSWORD"], PASS)
            c.req(good_ and opts.get("HTTPAUTH") == ("i", 1), "credentials", w, d)
        elif us == ZERO:
            c.req(not cred, "credentials", w, d)
        else:
            c.req(False, "credentials", w, lambda: "no distinction whether there is a user name\n" + d())
        t = opts.get("TIMEOUT")
        ms = opts.get("TIMEOUT_MS")
        c.req(t is not None and plainint(t) == TIME or ms is not None and ms == mul(TIME, ("i", 1000)), "timeout", w, d)
    c.assumptions.append("credentials contain no NUL byte; the user name no colon")


def plainint(t):
    while t[0] == "cvt" and t[1] >= 64:
        t = t[3]
    return t


CHECKS = {"C26": c26, "C27": c27, "C28": c28, "C29": c29, "C31": c31, "C38": c38}
