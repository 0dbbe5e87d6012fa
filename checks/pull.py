"""C20-C24, C34, C36: the exposer."""
import re
from chk import *
from text import Cur, Mismatch
import text

NS = "prometheus::"
SER = NS + "TextSerializer::Serialize"
COLLECT = NS + "detail::CollectMetrics"
OBSERVE, INCREMENT = NS + "Summary::Observe", NS + "Counter::Increment"
CONN = arg(1)
HANDLER = NS + "detail::MetricsHandler"
NPOS64 = 2 ** 64 - 1


def nonnull(fa, t):
    return "=" not in getrel(fa, t, NULL, REL)


def isnull(fa, t):
    return getrel(fa, t, NULL, REL) == frozenset("=")


def whole(o):
    """top level events, with a mark on those that happen in loops"""
    return [(e, bool(l)) for e, l in walk(o.events)]


# ---- what is written to the connection ------------------------------------------------

FMT = re.compile(rb"%([-+ #0]*)(\d*)(\.\d+)?(hh|h|ll|l|z|j|t)?([diuxXcs%])")
BITS = {b"hh": 8, b"h": 16, None: 32, b"l": 64, b"ll": 64, b"z": 64, b"j": 64, b"t": 64}


def printf_parts(fmt, args, fa):
    """text produced by a printf style call as sequence parts"""
    out, pos, n = [], 0, 0
    for m in FMT.finditer(fmt):
        if b"%" in fmt[pos:m.start()]:
            raise Mismatch("conversion not understood in %r" % fmt)
        out.append(("lit", fmt[pos:m.start()]))
        pos = m.end()
        if m.group(5) == b"%":
            out.append(("lit", b"%"))
            continue
        if n >= len(args):
            raise Mismatch("missing argument for %r" % fmt)
        v = args[n]
        n += 1
        if m.group(1) or m.group(2) or m.group(3):
            raise Mismatch("width, precision or flags in %r" % fmt)
        if m.group(5) == b"s":
            if v[0] == "s":
                out.append(("lit", v[1]))
            elif v[0] == "cstr":
                # up to the first NUL; a plain string of the configuration has none
                out.append(("all", v[1] if v[1][0] in ("fld", "deref") else ("cstrof", v)))
            else:
                out.append(("all", ("cstrof", v)))
        elif m.group(5) in (b"d", b"i", b"u"):
            b = BITS[m.group(4)]
            lim = IntSet([(0, 2 ** b - 1 if m.group(5) == b"u" else 2 ** (b - 1) - 1)])
            if b < 64 and not rng(v, fa).subset(lim):
                raise Mismatch("the conversion %s cannot represent %s" % (m.group(0).decode(), show(v)))
            out.append(("num", "i", v, ("i", 6), ("i", DEFFLAGS), ("classic",)))
        else:
            raise Mismatch("conversion %s is not understood" % m.group(0).decode())
    if b"%" in fmt[pos:]:
        raise Mismatch("conversion not understood in %r" % fmt)
    out.append(("lit", fmt[pos:]))
    return out


def wire(o, conn=CONN):
    """[(site, event, parts)] written to the connection on a path"""
    out = []
    for e, inloop in whole(o):
        if e[0] == "ext" and e[1].startswith("mg_"):
            n = e[1]
            if n == "mg_get_header" or n in ("mg_get_request_info", "mg_get_context", "mg_get_server_option"):
                if e[2][0] != conn:
                    raise Mismatch("%s is called for %s" % (n, show(e[2][0])))
                continue
            if n not in ("mg_printf", "mg_write"):
                raise Mismatch("%s: call of %s is not understood" % (evsite(e), n))
            if inloop:
                raise Mismatch("%s: %s in a loop" % (evsite(e), n))
            if e[2][0] != conn:
                raise Mismatch("%s: %s writes to %s" % (evsite(e), n, show(e[2][0])))
            if n == "mg_printf":
                f = e[2][1]
                if f[0] != "s":
                    raise Mismatch("%s: the format %s is not a literal" % (evsite(e), show(f)))
                out.append((evsite(e), e, printf_parts(f[1], e[2][2:], o.facts)))
            else:
                s = dict(e[6])
                out.append((evsite(e), e, list(parts(s["bytes"])) if s["bytes"] is not None else [("sub", ("junk",), ("i", 0), s["n"])]))
    return out


def parse_response(ps):
    """(status, {lower name: [value parts]}, body parts)"""
    # glue literals
    g = []
    for p in ps:
        if p[0] == "lit" and g and g[-1][0] == "lit":
            g[-1] = ("lit", g[-1][1] + p[1])
        elif p[0] != "lit" or p[1]:
            g.append(p)
    cur = Cur(g)
    cur.lit(b"HTTP/1.1 ")
    status = cur.word(b" \r")
    cur.lit(b" ")
    cur.word(b"\r")
    cur.lit(b"\r\n")
    hs = {}
    while not cur.lit(b"\r\n", must=False):
        name = cur.word(b":\r\n ")
        if not name:
            raise Mismatch("expected a header before %s" % cur.rest())
        cur.lit(b":")
        val = []
        while not cur.lit(b"\r\n", must=False):
            if cur.end():
                raise Mismatch("header %s is not terminated" % name.decode())
            w = cur.word(b"\r\n")
            if w:
                val.append(("lit", w))
            elif cur.peek()[0] in ("num", "all"):
                val.append(cur.take())
            else:
                raise Mismatch("header %s contains %s" % (name.decode(), cur.rest()))
        if val and val[0][0] == "lit":
            val[0] = ("lit", val[0][1].lstrip(b" "))
        hs.setdefault(name.lower(), []).append([v for v in val if v != ("lit", b"")])
    body = []
    while not cur.end():
        w = cur.byte()
        if w is not None:
            body.append(("lit", cur.peek()[1][cur.o:]))
            cur.i, cur.o = cur.i + 1, 0
        else:
            body.append(cur.take())
    return status, hs, body


def litval(v):
    return v[0][1] if len(v) == 1 and v[0][0] == "lit" else None


def number(v, fa):
    """the value of a header that is a number"""
    if len(v) == 1 and v[0][0] == "num" and v[0][1] == "i" and v[0][4] == ("i", DEFFLAGS):
        return v[0][2]
    if len(v) == 1 and v[0][0] == "lit" and v[0][1].isdigit():
        return ("i", int(v[0][1]))
    return None


# ---- running the request handler ------------------------------------------------------

def requests(c):
    """the analysed scrape request, with and without compression"""
    for cfg in ("default", "nozlib"):
        c.config = cfg
        f = c.fn(HANDLER + "::handleGet", 2)
        r = c.run(f, opaque=(SER, COLLECT, OBSERVE, INCREMENT))
        if not r.outs:
            raise AnalysisError("no path through " + f.qn)
        yield f, r
    c.config = "default"


def serialized(o):
    """texts serialized on a path: (text term, metrics, event)"""
    out = []
    for e, l in whole(o):
        if e[0] == "opaque" and e[1] == SER:
            out.append((("written", e[1], e[3]), e[2][-1], e, l))
    return out


def chunks(o, z=None):
    """all uses of the compressor on a path"""
    return [(e, l) for e, l in walk(o.events) if e[0] == "ext" and e[1].startswith("deflate") and e[1] not in ("deflateBound",)]


def is_gz(p):
    """a part that is output of the compressor"""
    if p[0] == "sub" and p[1][0] == "gz":
        return True
    if p[0] == "loop":
        return all(is_gz(q) for t in p[1].trans for q in t.parts.get(p[2], ())) and any(t.parts.get(p[2]) for t in p[1].trans)
    return False


def bodysize(body):
    return sizeof(mkseq(tuple(body)))


def plain_int(t):
    """integer value of a number that reached a call through value preserving conversions"""
    p = plain(t)
    if p is None:
        return None
    return p


def accepts_gzip(o):
    """the client's Accept-Encoding header is present and contains gzip"""
    for e, l in whole(o):
        if e[0] == "ext" and e[1] == "mg_get_header" and e[2][0] == CONN and str_is(e[2][1], b"accept-encoding"):
            h = ("call", e[1], e[2], e[3])
            if not nonnull(o.facts, h):
                continue
            for t in all_terms(o.facts):
                if t[0] == "call" and t[1] in ("strstr", "std::strstr", "strcasestr") and t[2][0] == h and str_is(t[2][1], b"gzip") \
                        and nonnull(o.facts, t):
                    return True
                if t[0] == "sfind" and t[1] == "find" and t[2] == ("cstrof", h) and lit_of(t[3]) == b"gzip" \
                        and rng(t, o.facts).inter(IntSet.of(NPOS64)).empty():
                    return True
    return False


def str_is(v, b):
    l = lit_of(v)
    return l is not None and l.lower() == b


def lit_of(v):
    if v[0] == "s":
        return v[1]
    if v[0] == "cstr":
        v = v[1]
    if v[0] == "seq" and all(p[0] == "lit" for p in v[1]):
        return b"".join(p[1] for p in v[1])
    return None


def all_terms(fa):
    out = []
    for x in list(fa.dom) + list(fa.lit) + [t for k in fa.rel for t in k]:
        if x not in out:
            out.append(x)
    return out


def c20(c):
    c.rule("answered", "every path of the handler ends by returning true after writing one response to the request's own connection")
    c.rule("format", "the bytes written parse as: HTTP/1.1 200 status line, header lines each ended by CR LF, one empty line, body")
    c.rule("type", "exactly one Content-Type header, and it announces text/plain")
    c.rule("length", "exactly one Content-Length header (and no Transfer-Encoding); its value equals the number of body bytes "
                     "written, under the facts of the path and without a lossy conversion")
    c.rule("body", "the body is the text produced by the serializer from the collected metrics, or output of the compressor")
    c.rule("encoding", "Content-Encoding: gzip is announced if and only if the body is output of the compressor")
    c.rule("accept", "a compressed body is sent only where Accept-Encoding is present and contains gzip")
    c.rule("identity", "there is a path that sends the plain text, and it does not require the request to accept gzip")
    for f, r in requests(c):
        w = c.where(f)
        plainpaths = 0
        for o in r.outs:
            c.req(o.kind == "ret" and rng(retval(o), o.facts) == IntSet.of(1), "answered", w, lambda: describe(o))
            if o.kind != "ret":
                continue
            try:
                ws = wire(o)
                status, hs, body = parse_response([p for s, e, ps in ws for p in ps])
            except Mismatch as x:
                c.req(False, "format", w, lambda: "%s\n%s" % (x, describe(o)))
                continue
            d = lambda: describe(o)
            c.req(status == b"200", "format", w, lambda: "status %r" % status)
            ct = hs.get(b"content-type", [])
            c.req(len(ct) == 1 and (litval(ct[0]) or b"").startswith(b"text/plain"), "type", w, d)
            cl = hs.get(b"content-length", [])
            n = number(cl[0], o.facts) if len(cl) == 1 else None
            size = bodysize(body)
            c.req(n is not None and same(n, size, o.facts), "length", w,
                  lambda: "content length %s, body of %s bytes\n%s" % (n and show(n), show(size), describe(o)))
            c.req(b"transfer-encoding" not in hs, "length", w, "Transfer-Encoding is announced")
            texts = serialized(o)
            ismain = len(texts) == 1 and not texts[0][3] and tuple(body) == (("all", texts[0][0]),)
            gz = bool(body) and all(is_gz(p) for p in body)
            c.req(ismain or gz, "body", w, lambda: "body is %s\n%s" % (text.showps(body), describe(o)))
            coll = [e for e, l in whole(o) if e[0] == "opaque" and e[1] == COLLECT]
            c.req(len(coll) == 1 and len(texts) == 1 and texts[0][1] == ("call", COLLECT, coll[0][2], coll[0][3]), "body", w,
                  lambda: "the serialized metrics are not the collected ones\n" + describe(o))
            ce = hs.get(b"content-encoding", [])
            c.req(len(ce) == (1 if gz else 0) and (not gz or litval(ce[0]) == b"gzip"), "encoding", w, d)
            c.req(not (ce or gz) or accepts_gzip(o), "accept", w, d)
            if ismain:
                plainpaths += not accepts_gzip(o)
            c.sample("%s: %s; body %s" % (c.config, ", ".join(sorted(h.decode() for h in hs)), text.showps(body)))
        c.req(plainpaths > 0, "identity", w, "no path sends the plain text")
    c.assumptions += ["mg_printf and mg_write send exactly the given bytes on a working connection (third party code)",
                      "parameters after the media type and q values of Accept-Encoding are not interpreted by the repository"]


# ---- the compressor ---------------------------------------------------------------------

def c21(c):
    c.rule("init", "the stream is set up as gzip (deflate method, window bits 24..31) with default allocators")
    c.rule("input", "before the first step the input is the whole text: its first byte, and its size without truncation; "
                    "between steps nothing but the compressor changes them")
    c.rule("finish", "every step runs with Z_FINISH on that stream")
    c.rule("room", "before each step there is room for at least one byte and the room lies inside the output buffer, "
                   "directly behind what has been produced so far")
    c.rule("repeat", "another step is taken only after Z_OK")
    c.rule("complete", "the compressed form is sent only on paths where the last step has returned Z_STREAM_END, and what is "
                       "sent is exactly the output of all steps in order")
    c.rule("fallback", "on every other path the plain text is sent")
    c.rule("release", "after a successful set up the stream is released exactly once, after the last step; never otherwise")
    c.rule("used", "some path uses the compressor")
    n = 0
    for f, r in requests(c):
        w = c.where(f)
        for o in r.rets:
            if not chunks(o):
                continue
            n += 1
            try:
                gzpath(c, f, o)
            except Mismatch as x:
                c.req(False, "complete", w, lambda: "%s\n%s" % (x, describe(o)))
    c.req(n > 0, "used", c.where(f), "no path uses the compressor")
    c.assumptions += ["deflate consumes at most avail_in bytes from next_in, writes at most avail_out bytes to next_out and updates "
                      "the four counters accordingly; it returns Z_STREAM_END only once all input is consumed (zlib's contract)"]


def gzpath(c, f, o):
    w = c.where(f)
    d = lambda: describe(o)
    ev = chunks(o)
    init = [(e, l) for e, l in ev if e[1].startswith("deflateInit")]
    c.req(len(init) == 1 and not init[0][1] and ev[0] is init[0] or ev[0] == init[0], "init", w, d)
    if len(init) != 1:
        return
    e0 = init[0][0]
    s = dict(e0[6])
    zs = s["zs"]
    for k in ("zalloc", "zfree", "opaque"):
        c.req(iszero(s[k]), "init", evsite(e0), "%s is %s" % (k, show(s[k])))
    if e0[1] == "deflateInit2_":
        wb = e0[2][3]
        c.req(e0[2][2] == ("i", 8) and wb[0] == "i" and 24 < wb[1] <= 31, "init", evsite(e0), "not a gzip stream: window bits %s" % show(wb))
    else:
        c.req(False, "init", evsite(e0), "%s sets up a zlib stream, not gzip" % e0[1])
    ret0 = ("call", e0[1], e0[2], e0[3])
    ok = rng(ret0, o.facts) == ZERO
    bad = rng(ret0, o.facts).inter(ZERO).empty()
    c.req(ok or bad, "init", evsite(e0), "the result of setting up the stream is not examined\n" + describe(o))
    texts = serialized(o)
    status, hs, body = parse_response([p for s_, e, ps in wire(o) for p in ps])
    isplain = len(texts) == 1 and tuple(body) == (("all", texts[0][0]),)
    ends = [(e, l) for e, l in ev if e[1] in ("deflateEnd",)]
    steps = [(e, l) for e, l in ev if e[1] == "deflate"]
    other = [e for e, l in ev if e[1] not in ("deflate", "deflateEnd") and e is not e0]
    c.req(not other, "finish", w, lambda: "%s is not understood" % other[0][1])
    if not ok:
        c.req(not ends and not steps, "release", w, d)
        c.req(isplain, "fallback", w, d)
        return
    c.req(len(ends) == 1 and not ends[0][1] and ev[-1][0] is ends[0][0] and dict(ends[0][0][6])["zs"] == zs, "release", evsite(e0),
          lambda: "the stream is not released exactly once after its last use\n" + describe(o))
    body_src = texts[0][0] if texts else None
    size = ("size", body_src)
    tops = [e for e, l in steps if not l]
    c.req(bool(tops), "complete", w, "no step is taken on the straight path\n" + describe(o)) if not isplain else None
    want = []
    started = False
    for e in o.events:
        if e[0] == "loop":
            ls = [x for x in steps if x[1] and x[1][0][0] is e[1]]
            if not ls:
                continue
            S = e[1]
            c.req(all(len(l) == 1 for x, l in ls), "finish", S.site, "steps in nested loops")
            for t in S.trans:
                ds = [x for x in t.events if x[0] == "ext" and x[1] == "deflate"]
                c.req(len(ds) == 1, "repeat", S.site, "%d steps in one round" % len(ds))
                for x in ds:
                    step(c, o, x, zs, t.facts, S, body_src, size)
                    c.req(rng(("call", x[1], x[2], x[3]), t.facts) == ZERO, "repeat", evsite(x),
                          "another step may follow a result other than Z_OK")
            want.append(("L", S))
            started = True
        elif e[0] == "ext" and e[1] == "deflate":
            step(c, o, e, zs, o.facts, None if not want else want[0][1] if want[0][0] == "L" else None, body_src, size, bool(want))
            if e is not tops[-1]:
                c.req(rng(("call", e[1], e[2], e[3]), o.facts) == ZERO, "repeat", evsite(e), "another step may follow a result other than Z_OK")
            want.append(("E", e))
    if isplain:
        return
    last = tops[-1] if tops else None
    c.req(last is not None and rng(("call", last[1], last[2], last[3]), o.facts) == IntSet.of(1), "complete", evsite(last) if last else w,
          lambda: "the compressed form is sent although the last step did not return Z_STREAM_END\n" + describe(o))
    got = []
    for p in body:
        if p[0] == "loop":
            got.append(("L", p[1]))
            for t in p[1].trans:
                ps = t.parts.get(p[2], ())
                ds = [x for x in t.events if x[0] == "ext" and x[1] == "deflate"]
                c.req(len(ds) == len(ps) == 1 and full_chunk(ps[0], ds[0]), "complete", p[1].site,
                      lambda: "a round does not keep exactly its output: " + text.showps(ps))
            if p[3] != "n" and p[3] != "k":
                c.req(False, "complete", p[1].site, "mode")
        else:
            es = [x for x in tops if full_chunk(p, x)]
            if es:
                got.append(("E", es[0]))
            else:
                got.append(("?", p))
    key = lambda l: [(k, id(x)) if k != "?" else (k, show(x)) for k, x in l]
    c.req(key(got) == key(want), "complete", w, lambda: "the body is %s\n%s" % (text.showps(body), describe(o)))


def full_chunk(p, e):
    return p[0] == "sub" and p[1] == ("gz", e[3]) and p[2] == ("i", 0) and p[3] == ("zout", e[3])


def step(c, o, e, zs, fa, S, src, size, later=False):
    s = dict(e[6])
    site = evsite(e)
    c.req(s["zs"] == zs, "finish", site, "another stream is used")
    c.req(len(e[2]) == 2 and e[2][1] == ("i", 4), "finish", site, "flush mode %s" % show(e[2][1]))
    # room
    out = s["out"]
    good = out is not None and out[0][0] in "vth" and s["off"] is not None and s["size"] is not None
    ao = s["avail_out"]
    c.req(good and rng(ao, fa).subset(IntSet([(1, 2 ** 32 - 1)])), "room", site, "room for %s bytes" % show(ao))
    if good:
        need = sub(sub(s["size"], s["off"]), ao)
        c.req(rng(need, fa).min() >= 0, "room", site,
              "the buffer has %s bytes, the step may write from %s up to %s more" % (show(s["size"]), show(s["off"]), show(ao)))
        c.req(same(s["off"], s["total_out"], fa) or s["off"] == s["total_out"], "room", site,
              "the step does not continue behind the output of the previous ones: %s" % show(s["off"]))
    # input
    ni, ai = s["next_in"], s["avail_in"]
    if ni[0] == "phi" and ai[0] == "phi":
        c.req(S is not None and phi_step(S, ni, "next_in") and phi_step(S, ai, "avail_in"), "input", site,
              "the input is changed between steps")
        if S is not None:
            source(c, o, site, S.phis.get(ni[2]), S.phis.get(ai[2]), src, size, fa)
    elif not later and S is None:
        source(c, o, site, ni, ai, src, size, fa)
    else:
        # straight line continuation of a previous step
        c.req(continued(o, e, ni, ai), "input", site, "the input does not continue where the last step stopped")


def continued(o, e, ni, ai):
    prev = None
    for x in o.events:
        if x is e:
            break
        if x[0] == "ext" and x[1] == "deflate":
            prev = x
    if prev is None:
        return False
    s = dict(prev[6])
    u = prev[3]
    return ai == sub(s["avail_in"], ("zin", u)) and ni == ("ptradd", s["next_in"], ("zin", u))


def phi_step(S, t, what):
    """the loop variable t changes only by what the compressor consumes"""
    for tr in S.trans:
        ds = [x for x in tr.events if x[0] == "ext" and x[1] == "deflate"]
        if len(ds) != 1:
            return False
        nxt = tr.phi.get(t[2])
        u = ("zin", ds[0][3])
        if what == "avail_in" and nxt != sub(t, u):
            return False
        if what == "next_in" and nxt != ("ptradd", t, u):
            return False
    return True


def source(c, o, site, ni, ai, src, size, fa):
    c.req(src is not None and ni is not None and ni[0] == "cstr" and ni[1] == src, "input", site,
          lambda: "the input is %s" % (ni and show(ni)))
    c.req(ai is not None and same(ai, size, o.facts), "input", site, lambda: "the input size is %s instead of %s" % (ai and show(ai), show(size)))



# ---- authentication ----------------------------------------------------------------------

BASIC = NS + "BasicAuthHandler"
DECODE = NS + "detail::base64_decode"
EP = NS + "detail::Endpoint"
WATCH = (BASIC, HANDLER, "CivetServer", EP)


def roles_of_ctor(c, clskey, nargs, opaque=()):
    """the fields a constructor fills with its arguments: (fn, run, {argument number: field})"""
    f = c.fn(clskey + "::" + clskey.rsplit("::", 1)[1], nargs)
    r = c.run(f, opaque=opaque)
    roles = {}
    for o in r.rets:
        v = fields_after(o)
        if v[0] != "obj":
            raise AnalysisError("the constructor of %s is not understood" % clskey)
        m = {}
        for fn, x in v[2]:
            for n in range(nargs):
                if x in (arg(n), ("sym", "arg%d" % n)):
                    m[n] = fn
        for n in range(nargs):
            roles.setdefault(n, set()).add(m.get(n))
    return f, r, {n: (sorted(x)[0] if len(x) == 1 and None not in x else None) for n, x in roles.items()}


def first_colon(o, D, pos):
    """pos is the position of the first ':' in D on this path"""
    if pos[0] == "sfind" and pos[1] in ("find", "find_first_of") and pos[2] == D and lit_char(pos[3]) == 58 and pos[4] == ("i", 0):
        return rng(pos, o.facts).inter(IntSet.of(NPOS64)).empty()
    if rng(("elem", D, pos), o.facts) == IntSet.of(58):
        for e in o.events:
            if e[0] == "loop" and e[1].n is not None and e[1].n == ("size", D) and pos == e[1].K():
                return all(not rng(("elem", D, e[1].K()), t.facts).inter(IntSet.of(58)).r for t in e[1].trans)
    return False


def lit_char(v):
    if v[0] == "i":
        return v[1]
    l = lit_of(v)
    if l is None and v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "one":
        return v[1][0][1][1] if v[1][0][1][0] == "i" else None
    return l[0] if l is not None and len(l) == 1 else None


def substring(v, src, lo, hi):
    """v is src[lo, hi)"""
    if v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "sub":
        p = v[1][0]
        return p[1] == src and p[2] == lo and p[3] == hi
    return v == src and lo == ("i", 0) and hi == ("size", src)


def auth_headers(o):
    return [("call", e[1], e[2], e[3]) for e, l in whole(o)
            if e[0] == "ext" and e[1] == "mg_get_header" and e[2][0] == CONN and str_is(e[2][1], b"authorization")]


def scheme(o, h, want):
    """the header is known (not) to start with the scheme"""
    c = ("cstrof", h)
    for t in all_terms(o.facts):
        if t[0] == "pre" and t[1] == c and t[2] == ("i", 0) and lit_of_pre(t[3]) == b"Basic ":
            if rng(t, o.facts) == (ONE if want else ZERO):
                return True
    if not want and rng(("size", c), o.facts).max() < 6:
        return True
    return False


def lit_of_pre(v):
    return v if isinstance(v, bytes) else lit_of(v)


ONE = IntSet.of(1)


def c22(c):
    c.rule("accept", "authorize returns true only on paths where the Authorization header is present and starts with 'Basic ', "
                     "the rest of it has been decoded, the callback of this handler was called exactly once with the decoded "
                     "text before its first colon and the decoded text after it, and returned true")
    c.rule("deny", "authorize returns false only where the header is missing, the scheme is not Basic, decoding has failed, "
                   "there is no colon or the callback has refused")
    c.rule("challenge", "on every path that returns false exactly one response is written: 401, WWW-Authenticate with scheme "
                        "Basic and this handler's realm, no body; on paths that return true nothing is written")
    c.rule("contained", "no exception leaves authorize except one thrown by the callback")
    c.rule("configured", "the handler keeps the callback and realm given to its constructor; the one installed by an endpoint "
                         "has been given the caller's")
    f, r, roles = roles_of_ctor(c, BASIC, 2)
    c.req(roles.get(0) and roles.get(1), "configured", c.where(f), "the constructor does not store the callback and the realm")
    cb, realm = fld(roles.get(0) or "callback_"), fld(roles.get(1) or "realm_")
    f = c.fn(BASIC + "::authorize", 2)
    w = c.where(f)
    r = c.run(f, opaque=(DECODE,), mode="cb", nojoin=True)
    yes = 0
    for o in r.outs:
        d = lambda: describe(o)
        cbs = [(e, l) for e, l in walk(o.events) if e[0] == "cb"]
        if o.kind != "ret":
            c.req(cbs and o.events[-1][0] == "throws" and o.events[-1][1] == "cb" and o.events[-2] == cbs[-1][0], "contained", w, d)
            c.req(not [e for e, l in whole(o) if e[0] == "ext" and e[1] in ("mg_write", "mg_printf")], "challenge", w, d)
            continue
        v = rng(retval(o), o.facts)
        decs = [e for e, l in whole(o) if e[0] == "opaque" and e[1] == DECODE]
        hs = auth_headers(o)
        try:
            ps = [p for s, e, q in wire(o) for p in q]
        except Mismatch as x:
            c.req(False, "challenge", w, "%s" % x)
            continue
        for e, l in cbs:
            # whatever the outcome, the callback sees exactly the decoded credentials
            c.req(not l and e[1] == cb and credentials(o, e, decs, hs), "accept", evsite(e), d)
        if v == ONE:
            yes += 1
            c.req(len(cbs) == 1 and rng(cbresult(cbs[0][0]), o.facts) == ONE, "accept", w, d)
            c.req(not ps, "challenge", w, d)
            continue
        if v != ZERO:
            # the result of the callback is returned without a test
            c.req(False, "deny", w, lambda: "the result is %s\n%s" % (show(retval(o)), describe(o)))
            continue
        why = None
        if not hs:
            why = None
        elif isnull(o.facts, hs[0]):
            why = "no header"
        elif scheme(o, hs[0], False):
            why = "other scheme"
        elif decs and any(e[0] == "catch" for e in o.events) and decoded_arg(decs[0], hs[0]) and not cbs:
            why = "undecodable"
        elif decs and decoded_arg(decs[0], hs[0]) and no_colon(o, ("call", decs[0][1], decs[0][2], decs[0][3])):
            why = "no colon"
        elif len(cbs) == 1 and rng(cbresult(cbs[0][0]), o.facts) == ZERO:
            why = "refused"
        c.req(why, "deny", w, d)
        c.sample("denied: %s" % why)
        try:
            status, hd, body = parse_response(ps)
        except Mismatch as x:
            c.req(False, "challenge", w, lambda: "%s\n%s" % (x, describe(o)))
            continue
        ch = hd.get(b"www-authenticate", [])
        good = len(ch) == 1 and len(ch[0]) == 3 and ch[0][0] == ("lit", b'Basic realm="') and ch[0][2][0] == "lit" \
            and ch[0][2][1].startswith(b'"') and ch[0][1] == ("all", realm)
        c.req(status == b"401" and good, "challenge", w, lambda: "status %r, challenge %s" % (status, text.showps(ch[0]) if ch else None))
        cl = hd.get(b"content-length", [])
        c.req(not body and (not cl or len(cl) == 1 and number(cl[0], o.facts) == ("i", 0)), "challenge", w, d)
        c.req(bool(cl) or [litval(x) for x in hd.get(b"connection", [])] == [b"close"], "challenge", w, "the end of the response is not determined")
    c.req(yes > 0, "accept", w, "no path authorizes a request")
    # installed by the endpoint
    f = c.fn(EP + "::RegisterAuth", 2)
    for o in c.run(f, watch=WATCH).rets:
        adds = [e for e, l in whole(o) if e[0] == "ext" and e[1] == "CivetServer::addAuthHandler"]
        c.req(len(adds) == 1, "configured", c.where(f), lambda: describe(o))
        for e in adds:
            h = e[2][2]
            v = o.st.get(h[1]) if h[0] == "ptr" else ("?",)
            m = dict(v[2]) if v[0] == "obj" else {}
            c.req(m.get(roles.get(0)) == arg(0) and m.get(roles.get(1)) == arg(1), "configured", evsite(e),
                  lambda: "the installed handler is %s" % show(v))
    c.assumptions += ["civetweb calls the registered authorize for every request to the URI and serves it only after true",
                      "a realm is configuration: it contains no quote, CR or LF"]


def cbresult(e):
    return ("call", "callback", (e[1],) + tuple(e[2]), e[3])


def decoded_arg(dec, h):
    return len(dec[2]) == 1 and substring(dec[2][0], ("cstrof", h), ("i", 6), ("size", ("cstrof", h)))


def no_colon(o, D):
    for t in all_terms(o.facts):
        if t[0] == "sfind" and t[1] in ("find", "find_first_of") and t[2] == D and lit_char(t[3]) == 58 and t[4] == ("i", 0) \
                and rng(t, o.facts) == IntSet.of(NPOS64):
            return True
    for e in o.events:
        if e[0] == "loop" and e[2] == "n" and e[1].n == ("size", D) and e[1].trans and \
                all(not rng(("elem", D, e[1].K()), t.facts).inter(IntSet.of(58)).r for t in e[1].trans):
            return True
    return False


def credentials(o, e, decs, hs):
    if len(decs) != 1 or len(hs) != 1 or len(e[2]) != 2:
        return False
    D = ("call", decs[0][1], decs[0][2], decs[0][3])
    if not (nonnull(o.facts, hs[0]) and scheme(o, hs[0], True) and decoded_arg(decs[0], hs[0])):
        return False
    u, p = e[2]
    if u[0] != "seq" or len(u[1]) != 1 or u[1][0][0] != "sub":
        return False
    pos = u[1][0][3]
    return substring(u, D, ("i", 0), pos) and substring(p, D, add(pos, ("i", 1)), ("size", D)) and first_colon(o, D, pos)



# ---- life time of the handlers -------------------------------------------------------------

def owned_handlers(c):
    """fields of Endpoint that own its request and its authentication handler"""
    req, auth = [], []
    for fl in c.P.cls(EP)["fields"]:
        t = fl["t"]
        if t.qn in ("std::unique_ptr", "std::shared_ptr") and t.ta:
            if t.ta[0].qn == HANDLER:
                req.append((fl["name"], t.qn))
            elif t.ta[0].qn == BASIC:
                auth.append((fl["name"], t.qn))
    if len(req) != 1 or len(auth) != 1:
        raise AnalysisError("the handlers of %s are not each owned by one smart pointer" % EP)
    return req[0][0], auth[0][0]


CIV = "CivetServer::"


class Slots:
    """which handlers the server may call, while the events of a path happen"""

    def __init__(self, c, rule, server, uri, req, auth, alive):
        self.c, self.rule, self.server, self.uri = c, rule, server, uri
        self.slot = {"req": req, "auth": auth}
        self.alive = alive

    def event(self, e, o, inctor=False):
        k = e[0]
        c = self.c
        if k == "ext" and e[1].startswith(CIV):
            n = e[1][len(CIV):]
            which = "auth" if "Auth" in n else "req"
            if n in ("ctor", "getListeningPorts", "getListeningPortsFull", "getContext"):
                return
            if n not in ("addHandler", "addAuthHandler", "removeHandler", "removeAuthHandler"):
                c.req(False, "server", evsite(e), "call of %s is not understood" % e[1])
                return
            c.req(e[2][0] == self.server and e[2][1] == self.uri, "server", evsite(e),
                  lambda: "%s is called on %s for %s" % (n, show(e[2][0]), show(e[2][1])))
            if n.startswith("add"):
                h = e[2][2]
                c.req(h != NULL and h not in self.dead(), "alive", evsite(e), lambda: "the handler %s is registered" % show(h))
                self.slot[which] = h
            else:
                self.slot[which] = None
        elif k == "del":
            for w, h in self.slot.items():
                c.req(h is None or h != e[1], self.rule, evsite(e) if evsite(e) != "?" else c.where(o[0]),
                      lambda: "%s is destroyed while the server may still call it\n%s" % (show(e[1]), describe(o[1])))
            self.alive.add(e[1])

    def dead(self):
        return self.alive


def c23(c):
    c.rule("server", "every registration call is made on the server and the URI of the endpoint")
    c.rule("alive", "what is registered is a live object, fully constructed: handler constructors do not talk to the server")
    c.rule("order", "no handler is destroyed while the server holds it: along every path (including those that fail) it is "
                    "removed or replaced first")
    c.rule("kept", "at the end of every endpoint operation the server holds exactly the handlers the endpoint owns")
    c.rule("gap", "no operation of an endpoint removes its authentication or request handler, except its destructor")
    c.rule("teardown", "an exposer destroys every endpoint before it destroys the server, and each endpoint removes its handlers")
    rq, au = owned_handlers(c)
    # constructors of the handlers
    for k in (HANDLER, BASIC):
        for f in [f for f in c.P.fns.values() if f.kind == "ctor" and f.cls == k and f.body is not None and not f.implicit]:
            for o in c.run(f, opaque=(NS + "Registry::Add", NS + "Family::Add")).outs:
                bad = [e for e, l in walk(o.events) if e[0] == "ext" and "CivetServer" in e[1]]
                c.req(not bad, "alive", c.where(f), lambda: describe(o))
    # the constructor of the endpoint
    f = c.fn(EP + "::Endpoint", 2)
    r = c.run(f, mode="all", opaque=(NS + "Registry::Add", NS + "Family::Add"), watch=WATCH)
    srv, uri = None, None
    for o in r.rets:
        v = fields_after(o)
        m = dict(v[2]) if v[0] == "obj" else {}
        for fn, x in m.items():
            if x in (arg(0), ("sym", "arg0")):
                srv = fn
            if x == arg(1):
                uri = fn
    if srv is None or uri is None:
        c.req(False, "server", c.where(f), "the endpoint does not keep its server and URI")
        return
    n = 0
    for o in r.outs:
        n += 1
        S = Slots(c, "order", None, None, None, None, set())
        S.server, S.uri = ("sym", "arg0"), arg(1)
        run_slots(c, S, f, o)
        if o.kind == "ret":
            m = dict(fields_after(o)[2])
            c.req(S.slot["req"] == m.get(rq) and S.slot["req"] is not None, "kept", c.where(f), lambda: describe(o))
            c.req(owned(S.slot["auth"], m.get(au)), "kept", c.where(f), lambda: describe(o))
        else:
            c.req(S.slot["req"] is None and S.slot["auth"] is None, "order", c.where(f),
                  lambda: "construction fails and destroys the handler after it was registered\n" + describe(o))
    # operations of the endpoint
    fs = [f for f in c.P.fns.values() if f.cls == EP and f.kind == "method" and f.body is not None and not f.implicit]
    for f in fs:
        for o in c.run(f, mode="all", watch=WATCH, opaque=(HANDLER + "::RegisterCollectable", HANDLER + "::RemoveCollectable")).outs:
            S = Slots(c, "order", fld(srv), fld(uri), fld(rq), None if isnull(o.facts, fld(au)) else fld(au), set())
            removed = run_slots(c, S, f, o)
            c.req(not removed, "gap", c.where(f), lambda: describe(o))
            c.req(S.slot["req"] == o.st.get(thisloc(rq)), "kept", c.where(f), lambda: describe(o))
            c.req(owned(S.slot["auth"], o.st.get(thisloc(au))), "kept", c.where(f), lambda: describe(o))
            for x in (srv, uri):
                c.req(o.st.get(thisloc(x)) == fld(x), "server", c.where(f), "%s changes" % x)
    # its destruction
    for o in c.destroy(EP, watch=WATCH).outs:
        f = c.fn(EP + "::~Endpoint")
        S = Slots(c, "order", fld(srv), fld(uri), fld(rq), None if isnull(o.facts, fld(au)) else fld(au), set())
        if isnull(o.facts, fld(rq)):
            continue
        run_slots(c, S, f, o)
        c.req(S.slot["req"] is None and S.slot["auth"] is None, "order", c.where(f),
              lambda: "the server keeps a handler of the destroyed endpoint\n" + describe(o))
        c.req(any(e[0] == "del" and e[1] == fld(rq) for e in o.events), "teardown", c.where(f), "the handler is never destroyed")
    # destruction of the exposer
    ex = NS + "Exposer"
    eps, sv = exposer_fields(c)
    for o in c.destroy(ex, watch=WATCH).outs:
        f = c.fn(ex + "::~Exposer")
        gone = False
        done = False
        for e, l in walk(o.events):
            if e[0] == "del" and e[1] == fld(sv):
                gone = True
                c.req(done or rng(("size", fld(eps)), o.facts) == ZERO, "teardown", c.where(f),
                      lambda: "the server is destroyed before the endpoints\n" + describe(o))
            elif gone:
                c.req(not (e[0] == "ext" and "CivetServer" in e[1]), "teardown", evsite(e),
                      lambda: "the server is used after its destruction\n" + describe(o))
            elif e[0] == "loop" and e[2] == "n" and e[1].n is not None and same(e[1].n, ("size", fld(eps)), o.facts):
                S = e[1]
                el = ("elem", fld(eps), S.K())
                good = all(isnull(t.facts, el) or any(x[0] == "del" and x[1] == el for x in t.events) for t in S.trans)
                done = done or good
        c.req(gone or isnull(o.facts, fld(sv)), "teardown", c.where(f), "the server is not destroyed")
    c.sample("handlers %s and %s of the endpoint, server %s of the exposer" % (rq, au, sv))
    c.assumptions += ["a call of CivetServer::addHandler or addAuthHandler that throws has not registered anything",
                      "civetweb stops calling a handler when it has been removed or replaced (requests in flight inside "
                      "civetweb are third party behaviour)"]


def owned(h, v):
    return h == v or h is None and v in (NULL, None) or h is None and v is not None and v[0] == "null"


def exposer_fields(c):
    eps, sv = [], []
    for fl in c.P.cls(NS + "Exposer")["fields"]:
        t = fl["t"]
        if t.ta and getattr(t.ta[0], "qn", None) == "CivetServer":
            sv.append(fl["name"])
        elif t.ta and getattr(t.ta[0], "ta", None) and getattr(t.ta[0].ta[0], "qn", None) == EP:
            eps.append(fl["name"])
    if len(eps) != 1 or len(sv) != 1:
        raise AnalysisError("server and endpoints of the exposer are not understood")
    return eps[0], sv[0]


def run_slots(c, S, f, o):
    """follows the events of a path; whether a handler was removed"""
    removed = False
    evs = list(o.events)
    for i, e in enumerate(evs):
        if e[0] == "loop":
            bad = [x for x, l in walk([e]) if x[0] == "ext" and x[1].startswith(CIV)]
            c.req(not bad, "server", e[1].site, "the server is called in a loop")
            continue
        if e[0] == "ext" and e[1].startswith(CIV) and i + 1 < len(evs) and evs[i + 1][0] == "throws" and evsite(evs[i + 1]) == evsite(e) \
                and e[1].startswith(CIV + "add"):
            continue
        if e[0] == "ext" and e[1].startswith(CIV + "remove"):
            removed = True
        S.event(e, (f, o))
    return removed


# ---- collecting ---------------------------------------------------------------------------

COLL = NS + "Collectable"
COLLFN = COLL + "::Collect"


def locks_of(fa, e):
    """the results of locking the weak pointer e that the facts mention"""
    return [t for t in all_terms(fa) if t[0] == "lock" and t[1] == e]


def isexpired(fa, e):
    for t in all_terms(fa):
        if t[0] == "expired" and t[1] == e and rng(t, fa) == ONE:
            return True
    return any(isnull(fa, p) for p in locks_of(fa, e))


def survivors(c, rule, w, o, ps, V, weak, dropok, keepok):
    """ps are the elements of V without some; dropok(facts, weak pointer) and keepok decide each of them"""
    if not ps and rng(("size", V), o.facts) == ZERO:
        return True
    if len(ps) == 1 and ps[0] == ("all", V):
        return c.req(keepok is None, rule, w, lambda: "nothing is removed\n" + describe(o))
    if len(ps) != 1 or ps[0][0] != "loop":
        return c.req(False, rule, w, lambda: "what remains is %s\n%s" % (text.showps(ps), describe(o)))
    from families import per_element
    q = per_element(ps[0], V, o.facts)
    if q is None:
        return c.req(False, rule, w, lambda: "not every element is considered\n" + describe(o))
    e, outs, S = q
    wk = weak(e)
    for fa, qs in outs:
        if not qs:
            c.req(dropok(fa, wk), rule, S.site, lambda: "an element is dropped although %r" % fa)
        else:
            c.req(tuple(qs) == (("one", e),), rule, S.site, lambda: "an element is replaced by %s" % text.showps(qs))
            c.req(keepok is None or keepok(fa, wk), rule, S.site, lambda: "an element is kept although %r" % fa)
    return True


def weak_field(c, clskey):
    """the field with the registered collectables: (name, weak(element))"""
    out = []
    for fl in c.P.cls(clskey)["fields"]:
        t = fl["t"]
        if not t.ta or not hasattr(t.ta[0], "qn"):
            continue
        a = t.ta[0]
        if a.qn == "std::weak_ptr" and a.ta[0].qn == COLL:
            out.append((fl["name"], lambda e: e))
        elif a.qn == "std::pair" and getattr(a.ta[0], "qn", "") == "std::weak_ptr" and a.ta[0].ta[0].qn == COLL:
            out.append((fl["name"], lambda e: ("fld", e, "first")))
        elif a.qn in c.P.classes:
            for g in c.P.cls(a.qn)["fields"]:
                if g["t"].qn == "std::weak_ptr" and g["t"].ta[0].qn == COLL:
                    out.append((fl["name"], lambda e, n=g["name"]: ("fld", e, n)))
    if len(out) != 1:
        raise AnalysisError("no unique container of collectables in " + clskey)
    return out[0]


def each_once(c, f, o, V, weak, use):
    """every element of V that is alive is collected exactly once, in order"""
    w = c.where(f)
    loops = [e for e in o.events if e[0] == "loop" and any(x[0] == "vcall" and x[1] == COLLFN for x, l in walk([e]))]
    tops = [e for e in o.events if e[0] == "vcall" and e[1] == COLLFN]
    if rng(("size", V), o.facts) == ZERO and not loops and not tops:
        return None
    ok = len(loops) == 1 and loops[0][1].n is not None and same(loops[0][1].n, ("size", V), o.facts)
    c.req(ok, "each", w, lambda: "not every registered collectable is consulted in one pass\n" + describe(o))
    if not ok:
        return None
    S, mode = loops[0][1], loops[0][2]
    el = weak(("elem", V, S.K()))
    for t in S.trans:
        one_element(c, S.site, t.events, t.facts, el, use)
    if mode == "n":
        c.req(not tops, "each", w, lambda: "a collectable is collected outside the pass\n" + describe(o))
    else:
        c.req(bool(tops), "each", S.site, lambda: "the pass ends at an element that is not collected\n" + describe(o))
        i = o.events.index(loops[0])
        one_element(c, S.site, o.events[i + 1:], o.facts, el, use)
    return S, mode


def one_element(c, site, events, fa, el, use):
    vc = [e for e in events if e[0] == "vcall" and e[1] == COLLFN]
    inner = [e for x in events if x[0] == "loop" for e, l in walk([x]) if e[0] == "vcall" and e[1] == COLLFN]
    c.req(not inner, "each", site, "a collectable is collected in an inner loop")
    if isexpired(fa, el):
        c.req(not vc, "each", site, "an expired collectable is consulted")
        return
    c.req(len(vc) == 1, "each", site, lambda: "a collectable that may be alive is consulted %d times (if %r)" % (len(vc), fa))
    for e in vc:
        i = list(events).index(e)
        ps = [("lock", x[1], x[2]) for x in events[:i] if x[0] == "wlock" and x[1] == el]
        p = e[2]
        c.req(p in ps and nonnull(fa, p), "held", evsite(e), lambda: "Collect is called on %s, not on a successfully locked pointer" % show(p))
        c.req(not any(x[0] == "drop" and x[1] == p for x in events[:i]), "held", evsite(e),
              "the collectable is not held alive while it is consulted")
        use(e, events, fa)


def c24(c):
    c.rule("each", "one pass visits every element of the container in order; every non-expired one is collected exactly once, "
                   "expired ones not at all")
    c.rule("held", "Collect is called on the pointer obtained by locking the element, and it is not released before")
    c.rule("unmodified", "the families each collectable reports are appended completely and unmodified, in that order, and "
                         "handed on to the serializer")
    c.rule("register", "registering appends exactly the given collectable behind the others and drops only expired ones")
    c.rule("remove", "removing drops exactly the given collectable and expired ones")
    # pull
    f = c.fn(COLLECT, 1)
    V, same_ = arg(0), lambda e: e
    V = ("deref", ("sym", "arg0"))
    for o in c.run(f, watch=(COLL,)).rets:
        used = []
        r = each_once(c, f, o, V, same_, lambda e, ev, fa: None)
        if r is None:
            continue
        S, mode = r
        c.req(mode == "n", "each", S.site, "the pass may stop early")
        v = retval(o)
        ps = parts(v) if v[0] == "seq" else (("all", v),)
        good = len(ps) == 1 and ps[0][0] == "loop" and ps[0][1] is S
        c.req(good, "unmodified", c.where(f), lambda: "the result is %s" % show(v))
        if good:
            for t in S.trans:
                vc = [e for e in t.events if e[0] == "vcall" and e[1] == COLLFN]
                want = tuple(("all", vcall_result(e)) for e in vc)
                got = tuple(("all", deref_all(p[1])) if p[0] == "all" else p for p in t.parts.get(ps[0][2], ()))
                c.req(got == want, "unmodified", S.site, lambda: "an iteration appends %s" % text.showps(got))
    for f, r in requests(c):
        name, weak = weak_field(c, HANDLER)
        for o in r.rets:
            ev = [(e, l) for e, l in whole(o) if e[0] == "opaque" and e[1] == COLLECT]
            c.req(len(ev) == 1 and not ev[0][1] and ev[0][0][2] == (fld(name),), "each", c.where(f), lambda: describe(o))
            tx = serialized(o)
            c.req(len(ev) == 1 and len(tx) == 1 and tx[0][1] == ("call", COLLECT, ev[0][0][2], ev[0][0][3]), "unmodified", c.where(f), lambda: describe(o))
    # push
    GW = NS + "Gateway"
    gname, gweak = weak_field(c, GW)
    HTTP = NS + "detail::CurlWrapper::performHttpRequest"
    for fname in ("Push", "AsyncPush", "PushAdd", "AsyncPushAdd"):
        f = c.fn(GW + "::" + fname, 0)
        for o in c.run(f, opaque=(SER, HTTP), watch=(COLL,)).rets:
            def use(e, events, fa):
                sers = [x for x in events if x[0] == "opaque" and x[1] == SER]
                reqs = [x for x in events if x[0] == "opaque" and x[1] == HTTP]
                c.req(len(sers) == 1 and deref_all(sers[0][2][-1]) == vcall_result(e), "unmodified", evsite(e),
                      lambda: "serialized is %s" % [show(x[2][-1]) for x in sers])
                c.req(len(reqs) == 1 and len(sers) == 1 and body_of(reqs[0]) == ("written", SER, sers[0][3]), "unmodified", evsite(e),
                      lambda: "sent is %s" % [show(body_of(x)) for x in reqs])
            each_once(c, f, o, fld(gname), gweak, use)
    # registering
    for k, name, weak, nargs in ((HANDLER,) + weak_field(c, HANDLER) + (1,), (GW, gname, gweak, 2)):
        f = c.fn(k + "::RegisterCollectable", nargs)
        w = c.where(f)
        rets = c.run(f, opaque=(NS + "detail::encodeLabel",)).rets
        c.req(bool(rets), "register", w, "no path returns")
        for o in rets:
            v = o.st.get(thisloc(name))
            ps = list(parts(v)) if v[0] == "seq" else [("all", v)]
            last = ps.pop() if ps else None
            probe = weak(("E",))
            good = last is not None and last[0] == "one" and (
                last[1] == ("deref", ("sym", "arg0")) if probe == ("E",) else
                last[1][0] == "obj" and dict(last[1][2]).get(probe[2]) == ("deref", ("sym", "arg0")))
            c.req(good, "register", w, lambda: "what is added is %s" % text.showps([last] if last else []))
            survivors(c, "register", w, o, ps, fld(name), weak, isexpired, None)
            c.req(not [m for m in store_mods(o) if m.loc != thisloc(name)], "register", w, lambda: describe(o))
    f = c.fn(HANDLER + "::RemoveCollectable", 1)
    name, weak = weak_field(c, HANDLER)
    given = ("deref", ("sym", "arg0"))
    for o in c.run(f, nojoin=True).rets:
        v = o.st.get(thisloc(name))
        ps = list(parts(v)) if v[0] == "seq" else [("all", v)]

        def equal_ptr(fa, e):
            return any(getrel(fa, a, b, REL) == frozenset("=") for a in locks_of(fa, given) for b in locks_of(fa, e))

        def dropok(fa, e):
            return equal_ptr(fa, e) or isexpired(fa, e)

        def keepok(fa, e):
            return any("=" not in getrel(fa, a, b, REL) for a in locks_of(fa, given) for b in locks_of(fa, e))
        survivors(c, "remove", c.where(f), o, ps, fld(name), weak, dropok, keepok)
        c.req(not [m for m in store_mods(o) if m.loc != thisloc(name)], "remove", c.where(f), lambda: describe(o))


def vcall_result(e):
    return ("call", e[1], (e[2],) + tuple(e[3]), e[4])


def deref_all(t):
    while t[0] in ("deref", "moved"):
        t = t[1]
    return t


def body_of(e):
    b = e[2][-1]
    if b[0] == "seq" and len(b[1]) == 1 and b[1][0][0] == "all":
        b = b[1][0][1]
    return b


# ---- the exposer's own metrics ---------------------------------------------------------------

def own_metrics(c):
    """fields of the handler bound to the three metrics by its constructor: {metric name: field}"""
    f = c.fn(HANDLER + "::MetricsHandler", 1)
    r = c.run(f, opaque=(NS + "Registry::Add", NS + "Family::Add"))
    out = {}
    for o in r.rets:
        v = fields_after(o)
        if v[0] != "obj":
            raise AnalysisError("the constructor of the handler is not understood")
        for fn, x in v[2]:
            x = deref_all(x)
            if x[0] == "call" and x[1] == NS + "Family::Add":
                fam_ = deref_all(x[2][0])
                if fam_[0] == "call" and fam_[1] == NS + "Registry::Add" and deref_all(fam_[2][0]) in (("sym", "arg0"),):
                    n = lit_of(fam_[2][1])
                    out.setdefault(n, []).append((fn, x))
    return f, out


def c34(c):
    c.rule("bound", "the handler's counters and summary are metrics of the families exposer_scrapes_total, "
                    "exposer_transferred_bytes_total and exposer_request_latencies of the registry it is given")
    c.rule("scrapes", "each served scrape increments exactly one time, by one, the scrape counter")
    c.rule("bytes", "and adds exactly once the number of body bytes written to the byte counter")
    c.rule("latency", "and records exactly one latency: the difference of a steady clock read before anything else and one read "
                      "after the last byte was written, in microseconds")
    c.rule("exposed", "every endpoint collects that registry: it is registered with the endpoint's own handler on construction")
    f, m = own_metrics(c)
    w = c.where(f)
    fields = {}
    for n in (b"exposer_scrapes_total", b"exposer_transferred_bytes_total", b"exposer_request_latencies"):
        c.req(len(m.get(n, [])) == 1, "bound", w, "no metric of the family %s" % n.decode())
        fields[n] = m[n][0][0] if m.get(n) else None
    for f, r in requests(c):
        w = c.where(f)
        for o in r.rets:
            d = lambda: describe(o)
            inc = [(e, l) for e, l in whole(o) if e[0] in ("opaque", "ext") and e[1] == INCREMENT]
            obs = [(e, l) for e, l in whole(o) if e[0] in ("opaque", "ext") and e[1] == OBSERVE]
            sc = [e for e, l in inc if metric_of(e) == fields[b"exposer_scrapes_total"] and not l]
            by = [e for e, l in inc if metric_of(e) == fields[b"exposer_transferred_bytes_total"] and not l]
            c.req(len(sc) == 1 and (len(sc[0][2]) == 1 or plain_int(sc[0][2][1]) in ([("i", 1)], [("f", 1.0)])), "scrapes", w, d)
            c.req(len(inc) == len(sc) + len(by), "scrapes", w, d)
            try:
                ws = wire(o)
                status, hs, body = parse_response([p for s, e, ps in ws for p in ps])
            except Mismatch as x:
                c.req(False, "bytes", w, lambda: "%s\n%s" % (x, describe(o)))
                continue
            n = plain_int(by[0][2][1]) if len(by) == 1 and len(by[0][2]) == 2 else None
            size = bodysize(body)
            c.req(n is not None and sum_eq(n, size, o.facts), "bytes", w,
                  lambda: "%s is added, %s bytes are sent\n%s" % (n and [show(x) for x in n], show(size), describe(o)))
            c.req(len(obs) == 1 and not obs[0][1] and metric_of(obs[0][0]) == fields[b"exposer_request_latencies"], "latency", w, d)
            if len(obs) == 1:
                evs = list(o.events)
                nows = [(i, e) for i, e in enumerate(evs) if e[0] == "now"]
                last = max([i for i, e in enumerate(evs) if e[0] == "ext" and e[1].startswith("mg_")] or [0])
                good = latency(obs[0][0][2][1], nows, last)
                c.req(good, "latency", evsite(obs[0][0]), lambda: "recorded is %s\n%s" % (show(obs[0][0][2][1]), describe(o)))
                c.req(evs and evs[0][0] == "now", "latency", w, lambda: "the clock is not read first\n" + describe(o))
    # exposed
    f = c.fn(EP + "::Endpoint", 2)
    REG = HANDLER + "::RegisterCollectable"
    for o in c.run(f, opaque=(NS + "Registry::Add", NS + "Family::Add", REG)).rets:
        evs = [e for e, l in whole(o)]
        reg = [e for e in evs if e[0] == "opaque" and e[1] == REG]
        adds = [e for e in evs if e[0] == "opaque" and e[1] == NS + "Registry::Add"]
        hadd = [e for e in evs if e[0] == "ext" and e[1] == CIV + "addHandler"]
        own = {e[2][0] for e in adds}
        c.req(len(own) == 1 and len(reg) == 1 and len(hadd) == 1 and reg[0][2][0] == hadd[0][2][2] and reg[0][2][1] in own, "exposed",
              c.where(f), lambda: describe(o))
        held = [x for n, x in dict_fields(o) if x in own]
        c.req(bool(held), "exposed", c.where(f), "the endpoint does not keep the registry alive")


def dict_fields(o):
    v = fields_after(o)
    return list(v[2]) if v[0] == "obj" else []


def metric_of(e):
    t = deref_all(e[2][0])
    return t[2] if t[0] == "fld" and t[1] == THIS else None


def sum_eq(ps, size, fa):
    t = ("i", 0)
    for p in ps:
        if p[0] == "f":
            return False
        t = add(t, p)
    return same(t, size, fa)


def latency(v, nows, last):
    if v[0] == "i2f":
        v = v[1]
    if v[0] == "op" and v[1] == "/" and v[3] == ("i", 1000):
        d = v[2]
    elif v[0] == "fop" and v[1] == "/" and v[3] == ("f", 1000.0) and v[2][0] == "i2f":
        d = v[2][1]
    else:
        return False
    for i, a in nows:
        for j, b in nows:
            ta, tb = ("now", a[1], a[2]), ("now", b[1], b[2])
            if i == 0 and j > last and d == sub(tb, ta) and a[1] == b[1] == "std::chrono::steady_clock::now":
                return True
    return False


# ---- endpoints --------------------------------------------------------------------------------

def c36(c):
    c.rule("found", "an existing endpoint is used only where its URI equals the given one")
    c.rule("created", "a new endpoint is created only after the URIs of all endpoints were found different; it gets this exposer's "
                      "server and the given URI and is appended, the others stay")
    c.rule("forward", "the operation reaches exactly one endpoint, once, with the caller's arguments unchanged")
    c.rule("atomic", "lookup, creation and forwarding are one critical section")
    c.rule("uri", "the endpoint keeps the given URI and server, registers its handlers under that URI and removes them under it")
    c.rule("passed", "the endpoint passes collectables on to its own handler unchanged")
    ex = NS + "Exposer"
    eps, sv = exposer_fields(c)
    rq, au = owned_handlers(c)
    V = fld(eps)
    # the endpoint
    f = c.fn(EP + "::Endpoint", 2)
    REG, REM = HANDLER + "::RegisterCollectable", HANDLER + "::RemoveCollectable"
    uri = srv = None
    for o in c.run(f, opaque=(NS + "Registry::Add", NS + "Family::Add", REG)).rets:
        m = dict(dict_fields(o))
        us = [n for n, x in m.items() if x == arg(1)]
        ss = [n for n, x in m.items() if x in (("sym", "arg0"), arg(0))]
        c.req(len(us) == 1 and len(ss) == 1, "uri", c.where(f), lambda: describe(o))
        uri, srv = us[0] if us else None, ss[0] if ss else None
        calls_ = [e for e, l in whole(o) if e[0] == "ext" and e[1].startswith(CIV)]
        c.req(len(calls_) == 1 and calls_[0][1] == CIV + "addHandler" and calls_[0][2][0] == ("sym", "arg0") and calls_[0][2][1] == arg(1),
              "uri", c.where(f), lambda: describe(o))
    if uri is None or srv is None:
        return
    for n in ("RegisterCollectable", "RemoveCollectable"):
        f = c.fn(EP + "::" + n, 1)
        for o in c.run(f, opaque=(REG, REM)).rets:
            ev = [e for e, l in whole(o) if e[0] == "opaque"]
            c.req(len(ev) == 1 and ev[0][1] == HANDLER + "::" + n and ev[0][2] == (fld(rq), ("deref", ("sym", "arg0"))) and not store_mods(o),
                  "passed", c.where(f), lambda: describe(o))
    f = c.fn(EP + "::RegisterAuth", 2)
    for o in c.run(f, watch=WATCH).rets:
        ev = [e for e, l in whole(o) if e[0] == "ext" and e[1].startswith(CIV)]
        c.req(len(ev) == 1 and ev[0][1] == CIV + "addAuthHandler" and ev[0][2][:2] == (fld(srv), fld(uri)), "uri", c.where(f), lambda: describe(o))
    for o in c.destroy(EP, watch=WATCH).outs:
        ev = [e for e, l in whole(o) if e[0] == "ext" and e[1].startswith(CIV)]
        c.req(bool(ev) and all(e[2] == (fld(srv), fld(uri)) for e in ev), "uri", c.where(c.fn(EP + "::~Endpoint")), lambda: describe(o))
    # the exposer
    ops = tuple(EP + "::" + n for n in ("RegisterCollectable", "RegisterAuth", "RemoveCollectable", "Endpoint"))
    for n, na in (("RegisterCollectable", 2), ("RegisterAuth", 3), ("RemoveCollectable", 2)):
        f = c.fn(ex + "::" + n, na)
        w = c.where(f)
        U = ("deref", ("sym", "arg%d" % (na - 1)))
        r = c.run(f, opaque=ops)
        kinds = set()
        for o in r.rets:
            d = lambda: describe(o)
            ev = [(e, l) for e, l in whole(o) if e[0] == "opaque"]
            good = len(ev) == 1 and not ev[0][1] and ev[0][0][1] == EP + "::" + n
            c.req(good, "forward", w, d)
            if not good:
                continue
            e = ev[0][0]
            want = tuple(("deref", ("sym", "arg%d" % i)) for i in range(na - 1))
            c.req(tuple(e[2][1:]) == want, "forward", evsite(e), lambda: "passed on: %s" % [show(x) for x in e[2][1:]])
            target = e[2][0]
            locks = [x for x, l in walk(o.events) if x[0] == "lock"]
            c.req(len(locks) == 1 and o.events[0] == locks[0] and bool(e[4]), "atomic", w, d)
            v = o.st.get(thisloc(eps))
            if target[0] == "elem" and target[1] == V:
                kinds.add("found")
                c.req(streq(o.facts, U, ("fld", ("deref", target), uri)), "found", w, d)
                c.req(v == V, "found", w, lambda: "the endpoints change\n" + describe(o))
            else:
                kinds.add("created")
                ok = target[0] == "ptr" and v[0] == "seq" and v[1] == (("all", V), ("one", target))
                c.req(ok or rng(("size", V), o.facts) == ZERO and v == ("seq", (("one", target),)), "created", w, lambda: "endpoints: %s\n%s" % (show(v), describe(o)))
                obj = o.st.get(target[1]) if target[0] == "ptr" else ("?",)
                c.req(obj[0] == "newobj" and obj[1] == EP + "::Endpoint" and tuple(obj[2]) in
                      ((("deref", fld(sv)), U), (fld(sv), U)), "created", w, lambda: "the new endpoint is %s" % show(obj))
                seen = rng(("size", V), o.facts) == ZERO
                for x in o.events:
                    if x[0] == "loop" and x[2] == "n" and x[1].n is not None and same(x[1].n, ("size", V), o.facts):
                        S = x[1]
                        seen = seen or bool(S.trans) and all(strne(t.facts, U, ("fld", ("deref", ("elem", V, S.K())), uri)) for t in S.trans)
                c.req(seen, "created", w, lambda: "not all endpoints were compared\n" + describe(o))
            c.req(not [m for m in store_mods(o) if m.loc[1][:1] != (("f", eps),)], "forward", w, d)
        c.req(kinds == {"found", "created"}, "found", w, "an existing endpoint is never %s" % ("used" if "found" not in kinds else "created"))


def streq(fa, a, b):
    return getrel(fa, a, b, REL_F) == frozenset("=") or getrel(fa, a, b, REL) == frozenset("=")


def strne(fa, a, b):
    return "=" not in getrel(fa, a, b, REL_F)


CHECKS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C34": c34, "C36": c36}
