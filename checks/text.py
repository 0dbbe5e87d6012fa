"""C17-C19: the text exposition format."""
from chk import *
from names import metric_type

NS = "prometheus::"
OUT = (("p", ("sym", "arg0")), ())
CONTENT = (OUT[0], (("f", "@content"),))
TYPES = {"Counter": "counter", "Gauge": "gauge", "Summary": "summary", "Histogram": "histogram", "Info": "gauge", "Untyped": "untyped"}
NAN_, PINF, NINF = frozenset(["nan"]), frozenset(["+inf"]), frozenset(["-inf"])
FINITE = frozenset(["zero", "pos", "neg"])
NL, BS, DQ = 10, 92, 34


class Mismatch(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)


def showps(ps, n=6):
    return " ".join(showpart(p) for p in ps[:n])


def showpart(p):
    if p[0] == "lit":
        return repr(p[1])[1:]
    if p[0] == "all":
        return "<%s>" % show(p[1])
    if p[0] == "num":
        return "num(%s)" % show(p[2])
    if p[0] == "one":
        return "char(%s)" % show(p[1])
    if p[0] == "loop":
        return "loop@%s" % p[1].site
    return p[0]


class Cur:
    """reading position in a list of sequence parts"""

    def __init__(self, ps):
        ps = list(ps)
        self.ps = [p for p in ps if not (p[0] == "lit" and not p[1])]
        self.i = self.o = 0

    def mark(self):
        return self.i, self.o

    def reset(self, m):
        self.i, self.o = m

    def end(self):
        return self.i >= len(self.ps)

    def peek(self):
        return None if self.end() else self.ps[self.i]

    def lit(self, b, must=True):
        m = self.mark()
        for ch in b:
            p = self.peek()
            if p is None or p[0] == "one" and p[1] != ("i", ch) or p[0] not in ("lit", "one") or p[0] == "lit" and p[1][self.o] != ch:
                self.reset(m)
                if must:
                    raise Mismatch("expected %r before %s" % (b.decode(), self.rest()))
                return False
            if p[0] == "one":
                self.i += 1
                continue
            self.o += 1
            if self.o == len(p[1]):
                self.i, self.o = self.i + 1, 0
        return True

    def byte(self):
        """next literal byte or None"""
        p = self.peek()
        return p[1][self.o] if p is not None and p[0] == "lit" else None

    def word(self, stop):
        """literal bytes up to one of the stop bytes"""
        out = b""
        while self.byte() is not None and self.byte() not in stop:
            out += bytes([self.byte()])
            self.o += 1
            if self.o == len(self.peek()[1]):
                self.i, self.o = self.i + 1, 0
        return out

    def take(self):
        p = self.peek()
        if self.o:
            raise Mismatch("unexpected text %s" % self.rest())
        self.i += 1
        return p

    def rest(self):
        if self.end():
            return "the end"
        p = self.peek()
        r = ([("lit", p[1][self.o:])] if p[0] == "lit" else [p]) + self.ps[self.i + 1:]
        return showps(r)


def trans_of(p):
    """[(facts, parts, src head)] of a loop part"""
    return [(t.facts, t.parts.get(p[2], ()), t) for t in p[1].trans]


def loop_over(p, fa):
    """container that a loop part visits completely (by trip count), or None"""
    S = p[1]
    if p[3] != "n" or S.n is None:
        return None
    return S.n


def raw(cur, want=None):
    """a string inserted unchanged: its value"""
    p = cur.peek()
    if p is None or p[0] != "all" or want is not None and p[1] != want:
        raise Mismatch("expected %s before %s" % (show(want) if want else "a string", cur.rest()))
    cur.i += 1
    return p[1]


def chars_of(p):
    """the string that a loop part writes character by character: (value, [(set, parts, elem)]) or None"""
    S = p[1]
    if p[3] != "n" or S.n is None or S.n[0] != "size" or not S.trans:
        return None
    v = S.n[1]
    e = ("elem", v, S.K())
    out = []
    for t in S.trans:
        out.append((t.facts.dom.get(e, IntSet([(-128, 127)])), t.parts.get(p[2], ()), e))
    return v, out


def escape_error(chars, quote):
    """None when each character is written as the format wants it, else the reason; quote: True must, None may"""
    for dom, ps, e in chars:
        for ch in (NL, BS, DQ, None):
            if ch is None:
                other = dom.minus(IntSet.of(NL, BS, DQ))
                if other.empty():
                    continue
                if list(ps) != [("one", e)] and not (len(ps) == 1 and ps[0][0] == "lit" and len(ps[0][1]) == 1 and other == IntSet.of(ps[0][1][0])):
                    return "characters %s are written as %s" % (other, showps(ps))
                continue
            if ch not in dom:
                continue
            got = b""
            for q in ps:
                if q[0] == "lit":
                    got += q[1]
                elif q[0] == "one" and q[1] == e:
                    got += bytes([ch])
                elif q[0] == "one" and q[1][0] == "i":
                    got += bytes([q[1][1] & 255])
                else:
                    return "character %r is written as %s" % (chr(ch), showps(ps))
            want = b"\\n" if ch == NL else bytes([BS, ch])
            if got == want or ch == DQ and not quote and got == b'"':
                continue
            return "character %r is written as %r" % (chr(ch), got.decode("latin1"))
    return None


# ---- C17: every output is a sequence of well formed lines ------------------------------

class Form:
    def __init__(self, c, w):
        self.c, self.w = c, w
        self.lines_seen = 0

    def bad(self, rule, msg, site=None):
        self.c.req(False, rule, site or self.w, msg)

    def ok(self, rule):
        self.c.req(True, rule, self.w)

    def lines(self, ps, fa):
        cur = Cur(ps)
        while not cur.end():
            p = cur.peek()
            if p[0] == "loop" and self.is_lines(p):
                cur.i += 1
                for tf, tp, t in trans_of(p):
                    try:
                        self.lines(tp, tf)
                    except Mismatch as x:
                        self.bad("line", "%s in %s" % (x, showps(tp, 12)), p[1].site)
                continue
            self.line(cur, fa)

    def is_lines(self, p):
        for tf, tp, t in trans_of(p):
            if tp:
                l = [q for q in tp if not (q[0] == "lit" and not q[1])]
                return l[-1][0] == "loop" and self.is_lines(l[-1]) or l[-1][0] == "lit" and l[-1][1].endswith(b"\n")
        return False

    def name(self, cur):
        v = raw(cur)
        self.c.req(v[0] == "fld" and v[2] == "name", "raw", self.w,
                   lambda: "%s is written without escaping" % show(v))

    def line(self, cur, fa):
        self.lines_seen += 1
        if cur.lit(b"# HELP ", False):
            self.name(cur)
            cur.lit(b" ")
            p = cur.peek()
            if p is not None and p[0] == "loop" and chars_of(p):
                cur.take()
                why = escape_error(chars_of(p)[1], None)
                self.c.req(why is None, "escape", p[1].site, "help text: %s" % why)
            elif p is not None and p[0] == "all":
                cur.i += 1
                self.bad("escape", "the help text %s is written without escaping" % show(p[1]))
            cur.lit(b"\n")
        elif cur.lit(b"# TYPE ", False):
            self.name(cur)
            cur.lit(b" ")
            w = cur.word(b" \n")
            if not w:
                raise Mismatch("no type name before %s" % cur.rest())
            cur.lit(b"\n")
        else:
            self.name(cur)
            cur.word(b" {\n")
            if cur.lit(b"{", False):
                self.block(cur, fa)
            cur.lit(b" ")
            self.value(cur, b" \n")
            if cur.lit(b" ", False):
                self.value(cur, b" \n")
            cur.lit(b"\n")
        self.ok("line")

    def value(self, cur, stop):
        p = cur.peek()
        if p is not None and p[0] == "num":
            cur.take()
        elif not cur.word(stop):
            raise Mismatch("no value before %s" % cur.rest())

    def quoted(self, cur, fa):
        """label value with its quotes"""
        cur.lit(b'"')
        p = cur.peek()
        if p is not None and p[0] == "num":
            cur.take()
        elif p is not None and p[0] == "loop" and chars_of(p):
            cur.take()
            why = escape_error(chars_of(p)[1], True)
            self.c.req(why is None, "escape", p[1].site, "label value: %s" % why)
        elif p is not None and p[0] == "all":
            cur.i += 1
            self.bad("escape", "the label value %s is written without escaping" % show(p[1]))
        else:
            cur.word(b'"\\\n')
        cur.lit(b'"')

    def item(self, cur, fa):
        """[,] name="value" [,]: (leading comma, trailing comma)"""
        lead = cur.lit(b",", False)
        if cur.peek() is not None and cur.peek()[0] == "all":
            self.name(cur)
        else:
            w = cur.word(b'=",} \n')
            if not w:
                raise Mismatch("no label name before %s" % cur.rest())
        cur.lit(b"=")
        self.quoted(cur, fa)
        return lead

    def block(self, cur, fa):
        groups = []      # (may be empty, style): style 'first'/'lead'/'trail'/'sep'
        while not cur.lit(b"}", False):
            p = cur.peek()
            if p is not None and p[0] == "loop" and not cur.o:
                cur.take()
                groups.append(self.labels_loop(p, fa))
            else:
                lead = self.item(cur, fa)
                trail = False
                m = cur.mark()
                if cur.lit(b",", False):
                    q = cur.peek()
                    if q is not None and q[0] == "loop" and not cur.o and chars_of(q) is None:
                        trail = True          # the comma belongs to this item
                    else:
                        cur.reset(m)
                groups.append((False, lead, trail))
        ok = bool(groups)
        started = False          # an item certainly precedes
        maybe = False            # an item possibly precedes
        pending = False          # a trailing comma certainly/possibly written
        for empty, lead, trail in groups:
            if lead == "rest":            # separators inside, none before the first
                if maybe and not pending:
                    ok = False
                lead = False
            if started and not (lead or pending) or lead and not started or lead and pending:
                ok = False
            if maybe and not started and not pending and not lead:
                ok = False
            if not empty:
                started = True
            maybe = True
            pending = trail
        if pending:
            ok = False
        if not started:
            ok = False
        self.c.req(ok, "block", self.w, lambda: "labels are not separated by single commas inside non-empty braces: %s" % (groups,))

    def labels_loop(self, p, fa):
        S = p[1]
        n = S.n
        if p[3] != "n" or n is None:
            raise Mismatch("a loop over labels ends early")
        empty = 0 in rng(n, fa)
        style = set()
        K = S.K()
        incoming = {t.dst for t in S.trans}
        for tf, tp, t in trans_of(p):
            cur = Cur(tp)
            lead = self.item(cur, tf)
            trail = cur.lit(b",", False)
            if not cur.end():
                raise Mismatch("more than one label per iteration: %s" % cur.rest())
            kr = rng(K, tf)
            first = 0 in kr and (not S.heads or t.src == S.heads[0])
            nonfirst = kr.max() >= 1 and t.src in incoming
            lr = rng(sub(sub(n, ("i", 1)), K), tf)
            last, nonlast = 0 in lr, lr.max() > 0
            style.add((lead, trail, first, nonfirst, last, nonlast))
        if all(not s[1] and s[0] != s[2] and (s[0] or not s[3]) for s in style):
            return empty, "rest", False
        if all(s[1] and not s[0] for s in style):
            return empty, False, True
        if all(s[0] and not s[1] for s in style):
            return empty, True, False
        if all(not s[0] and (not s[4] if s[1] else not s[5]) for s in style):
            return empty, "rest", False
        if len(style) == 1 and not list(style)[0][0] and rng(n, fa) == IntSet.of(1):
            return empty, "rest", False
        self.bad("block", "labels are not separated by single commas", S.site)
        return empty, "rest", False


def output(c, o):
    """parts of what is written to the stream on a path"""
    v = o.st.get(CONTENT)
    old = proj(State().get(OUT), ("f", "@content"))
    ps = list(v[1]) if v[0] == "seq" else [("all", v)]
    if ps and ps[0] == ("all", old):
        return ps[1:]
    return None


def serialize(c):
    f = c.fn(NS + "TextSerializer::Serialize", 2)
    return f, c.run(f)


def c17(c):
    c.rule("line", "everything that is written is a sequence of lines: help line, type line or sample with exactly one line "
                   "feed at its end, and one space between name (with labels), value and timestamp")
    c.rule("raw", "only metric and label names are written unescaped outside of quotes")
    c.rule("escape", "for each possible character of a help text or label value, line feed and backslash (and double quote "
                     "in label values) are written escaped, and every other character is written unchanged")
    c.rule("block", "label values are in double quotes; labels are separated by single commas in one pair of braces, which "
                    "are only written when there is a label")
    f, r = serialize(c)
    w = c.where(f)
    for o in r.outs:
        if not c.req(o.kind == "ret", "line", w, lambda: "serialization fails\n" + describe(o)):
            continue
        ps = output(c, o)
        if not c.req(ps is not None, "line", w, "earlier content of the stream is changed"):
            continue
        F = Form(c, w)
        try:
            F.lines(ps, o.facts)
        except Mismatch as x:
            F.bad("line", "%s" % x)
        c.req(F.lines_seen, "line", w, "nothing is written")


# ---- C18: the expected samples ----------------------------------------------------------

class Match:
    def __init__(self, c, w):
        self.c, self.w = c, w
        self.samples = 0

    # values ---------------------------------------------------------------
    def fvalue(self, cur, v, fa, stop):
        cl = fcls(v, fa)
        p = cur.peek()
        if p is not None and p[0] == "num":
            if p[1][0] not in "ft" or p[2] != v:
                raise Mismatch("%s is written instead of %s" % (show(p[2]), show(v)))
            if not cl <= FINITE:
                raise Mismatch("%s may be %s and is written as a number" % (show(v), "|".join(sorted(cl - FINITE))))
            cur.take()
            return
        w = cur.word(stop)
        for s, k in ((b"Nan", NAN_), (b"NaN", NAN_), (b"+Inf", PINF), (b"-Inf", NINF)):
            if w == s:
                if not cl <= k:
                    raise Mismatch("%s may be %s and is written as %s" % (show(v), "|".join(sorted(cl - k)), s.decode()))
                return
        raise Mismatch("%r is written instead of %s" % (w.decode("latin1"), show(v)))

    def ivalue(self, cur, v, fa):
        p = cur.peek()
        if p is None or p[0] != "num" or p[1] != "i" or p[2] != v:
            raise Mismatch("expected the number %s before %s" % (show(v), cur.rest()))
        cur.take()

    def value(self, cur, x, fa, stop):
        if x[0] == "F":
            self.fvalue(cur, x[1], fa, stop)
        elif x[0] == "I":
            self.ivalue(cur, x[1], fa)
        else:
            cur.lit(x[1])

    # samples ----------------------------------------------------------------
    def sample(self, cur, fam, m, s, fa):
        """s = (suffix, (extra label name, value) or None, value)"""
        suffix, extra, val = s
        raw(cur, ("fld", fam, "name"))
        m0 = cur.mark()
        w = cur.word(b" {\n")
        if w != suffix:
            cur.reset(m0)
            raise Mismatch("suffix %r instead of %r" % (w.decode("latin1"), suffix.decode()))
        L = ("fld", m, "label")
        n = rng(("size", L), fa)
        if n == ZERO and extra is None:
            pass
        else:
            cur.lit(b"{")
            p = cur.peek()
            if n != ZERO or p is not None and p[0] == "loop":
                self.labels(cur, L, fa)
            if extra is not None:
                cur.lit(b",", False)
                cur.lit(extra[0] + b'="')
                self.value(cur, extra[1], fa, b'"')
                cur.lit(b'"')
            cur.lit(b"}")
        cur.lit(b" ")
        self.value(cur, val, fa, b" \n")
        ts = ("fld", m, "timestamp_ms")
        t = rng(ts, fa)
        if cur.lit(b" ", False):
            self.ivalue(cur, ts, fa)
            if 0 in t:
                raise Mismatch("a zero timestamp is written")
        elif t != ZERO:
            raise Mismatch("a timestamp may be missing")
        cur.lit(b"\n")
        self.samples += 1

    def labels(self, cur, L, fa):
        p = cur.peek()
        if p is None or p[0] != "loop" or p[3] != "n" or p[1].n is None or not same(p[1].n, ("size", L), fa):
            raise Mismatch("the labels %s are not all written before %s" % (show(L), cur.rest()))
        cur.take()
        e = ("elem", L, p[1].K())
        for tf, tp, t in trans_of(p):
            k = Cur(tp)
            k.lit(b",", False)
            raw(k, ("fld", e, "name"))
            k.lit(b'="')
            q = k.peek()
            v = ("fld", e, "value")
            ch = chars_of(q) if q is not None and q[0] == "loop" else None
            if not (ch and ch[0] == v or q == ("all", v)):
                raise Mismatch("the value of label %s is not written before %s" % (show(e), k.rest()))
            k.take()
            k.lit(b'"')
            k.lit(b",", False)
            if not k.end():
                raise Mismatch("extra text in label: %s" % k.rest())

    # expected content ---------------------------------------------------------
    def items(self, kind, m):
        d = lambda *fs: proj_all(m, fs)
        k = kind.lower()
        if kind in ("Counter", "Gauge", "Info", "Untyped"):
            return [("one", (b"_info" if kind == "Info" else b"", None, ("F", d(k, "value"))))]
        if kind == "Summary":
            q = d("summary", "quantile")
            return [("one", (b"_count", None, ("I", d("summary", "sample_count")))),
                    ("one", (b"_sum", None, ("F", d("summary", "sample_sum")))),
                    ("each", q, lambda e: (b"", (b"quantile", ("F", ("fld", e, "quantile"))), ("F", ("fld", e, "value"))))]
        b = d("histogram", "bucket")
        return [("one", (b"_count", None, ("I", d("histogram", "sample_count")))),
                ("one", (b"_sum", None, ("F", d("histogram", "sample_sum")))),
                ("each", b, lambda e: (b"_bucket", (b"le", ("F", ("fld", e, "upper_bound"))), ("I", ("fld", e, "cumulative_count")))),
                ("inf", b, (b"_bucket", (b"le", ("L", b"+Inf")), ("I", d("histogram", "sample_count"))))]

    def metric(self, ps, fam, m, kind, fa):
        """all samples of one metric, in any order"""
        todo = self.items(kind, m)
        cur = Cur(ps)
        while todo:
            err = None
            for it in todo:
                m0 = cur.mark()
                try:
                    if self.item(cur, it, fam, m, fa):
                        todo.remove(it)
                        break
                except Mismatch as x:
                    err = err or x
                cur.reset(m0)
            else:
                raise err or Mismatch("samples are missing: %s" % [i[1][0] if i[0] == "one" else i[0] for i in todo])
        if not cur.end():
            raise Mismatch("unexpected output: %s" % cur.rest())

    def item(self, cur, it, fam, m, fa):
        if it[0] == "one":
            self.sample(cur, fam, m, it[1], fa)
            return True
        if it[0] == "each":
            M = it[1]
            if rng(("size", M), fa) == ZERO:
                return True
            p = cur.peek()
            if p is None or p[0] != "loop" or p[3] != "n" or p[1].n is None or not same(p[1].n, ("size", M), fa):
                raise Mismatch("no sample for each element of %s before %s" % (show(M), cur.rest()))
            cur.take()
            e = ("elem", M, p[1].K())
            for tf, tp, t in trans_of(p):
                k = Cur(tp)
                try:
                    self.sample(k, fam, m, it[2](e), tf)
                    if not k.end():
                        raise Mismatch("unexpected output %s" % k.rest())
                except Mismatch as x:
                    raise Mismatch("%s in %s" % (x, showps(tp, 12)))
            return True
        # the +Inf bucket, unless the last bound is infinite
        M = it[1]
        lastb = ("fld", ("elem", M, sub(("size", M), ("i", 1))), "upper_bound")
        n = rng(("size", M), fa)
        cl = fcls(lastb, fa)
        m0 = cur.mark()
        try:
            self.sample(cur, fam, m, it[2], fa)
            if n != ZERO and "+inf" in cl:
                raise Mismatch("a second +Inf bucket may be written")
        except Mismatch:
            cur.reset(m0)
            if 0 in n or not cl <= PINF:
                raise
        return True

    def family(self, ps, fam, fa):
        cur = Cur(ps)
        h = ("fld", fam, "help")
        n = rng(("size", h), fa)
        helped = cur.lit(b"# HELP ", False)
        if helped:
            raw(cur, ("fld", fam, "name"))
            cur.lit(b" ")
            p = cur.peek()
            ch = chars_of(p) if p is not None and p[0] == "loop" else None
            if not (ch and ch[0] == h or p == ("all", h)):
                raise Mismatch("the help text is not written before %s" % cur.rest())
            cur.take()
            cur.lit(b"\n")
            if 0 in n:
                raise Mismatch("a help line is written without help text")
        elif n != ZERO:
            raise Mismatch("the help text may be missing")
        T = ("fld", fam, "type")
        ty = rng(T, fa)
        kinds = [k for k in TYPES if self.types[k] in ty]
        if not kinds or not ty.subset(IntSet.of(*self.types.values())):
            raise Mismatch("unknown type %s" % ty)
        self.kinds |= set(kinds)
        cur.lit(b"# TYPE ")
        raw(cur, ("fld", fam, "name"))
        cur.lit(b" ")
        word = cur.word(b" \n").decode("latin1")
        bad = [k for k in kinds if TYPES[k] != word]
        if bad:
            raise Mismatch("the type line of a %s says %r" % ("/".join(bad), word))
        cur.lit(b"\n")
        M = ("fld", fam, "metric")
        if cur.end() and rng(("size", M), fa) == ZERO:
            return
        p = cur.peek()
        if p is None or p[0] != "loop" or p[3] != "n" or p[1].n is None or not same(p[1].n, ("size", M), fa):
            raise Mismatch("the metrics of a %s are not all written before %s" % ("/".join(kinds), cur.rest()))
        cur.take()
        e = ("elem", M, p[1].K())
        for kind in kinds:
            seen = False
            for tf, tp, t in trans_of(p):
                tf = refine(tf, "==", T, ("i", self.types[kind]))
                if tf is None:
                    continue
                seen = True
                try:
                    self.metric(tp, fam, e, kind, tf)
                    self.c.req(True, "sample", p[1].site)
                except Mismatch as x:
                    self.c.req(False, "sample", p[1].site, "%s: %s in %s\n    if %r" % (kind, x, showps(tp, 40), tf))
            self.c.req(seen, "sample", p[1].site, "the metrics of a %s are not written" % kind)
        if not cur.end():
            raise Mismatch("unexpected output after the metrics: %s" % cur.rest())


def refine(fa, op, a, b):
    """facts with a condition added, or None when it cannot hold"""
    st = State()
    st.facts = fa.copy()
    st = assume_int(st, op, a, b)
    return None if st is None else st.facts


def proj_all(v, fs):
    for f in fs:
        v = ("fld", v, f)
    return v


def c18(c):
    c.rule("family", "each family, in order, is written as help line (exactly if there is help text), one type line and the "
                     "samples of each of its metrics in order")
    c.rule("sample", "each metric is written as exactly the samples of its type, each with the family's name and the right "
                     "suffix, all labels of the metric, the number of that sample, and the timestamp exactly if it is not zero")
    c.rule("string", "the form that returns a string returns exactly what the stream form writes to an empty stream")
    f, r = serialize(c)
    w = c.where(f)
    fams = arg(1)
    en = c.P.enums.get(NS + "MetricType")
    if not en or any(k not in en for k in TYPES):
        raise AnalysisError("anchor MetricType not found")
    kinds = set()
    for o in r.outs:
        if o.kind != "ret":
            c.req(False, "family", w, "serialization fails\n" + describe(o))
            continue
        ps = output(c, o)
        if ps is not None and not ps and rng(("size", fams), o.facts) == ZERO:
            continue
        ok = ps is not None and len(ps) == 1 and ps[0][0] == "loop" and ps[0][3] == "n" and ps[0][1].n is not None and \
            same(ps[0][1].n, ("size", fams), o.facts)
        if not c.req(ok, "family", w, lambda: "the families are not each written once, in order:\n" + describe(o)):
            continue
        e = ("elem", fams, ps[0][1].K())
        for tf, tp, t in trans_of(ps[0]):
            M = Match(c, w)
            M.kinds = kinds
            M.types = {k: int(v) for k, v in en.items()}
            try:
                M.family(tp, e, tf)
                c.req(True, "family", w)
            except Mismatch as x:
                c.req(False, "family", ps[0][1].site, "%s in %s\n    if %r" % (x, showps(tp, 20), tf))
    c.req(kinds == set(TYPES), "family", w, "no output for types %s" % sorted(set(TYPES) - kinds))
    for k in TYPES:
        if k != "Untyped":
            c.req(metric_type(c, k) == int(en[k]), "family", w, "the metric type of %s is %s" % (k, metric_type(c, k)))
    f = c.fn(NS + "Serializer::Serialize", 1)
    w = c.where(f)
    for o in c.run(f, opaque=(NS + "TextSerializer::Serialize", NS + "Serializer::Serialize")).outs:
        ev = [e for e, l in walk(o.events) if e[0] in ("vcall", "opaque")]
        c.req(o.kind == "ret" and len(ev) == 1, "string", w, lambda: "not exactly one serialization\n" + describe(o))
        if o.kind != "ret" or len(ev) != 1:
            continue
        c.req(string_form(o, ev[0]), "string", w, lambda: "the result %s is not what was written\n%s" % (show(retval(o)), describe(o)))


def string_form(o, e):
    """the result is the content that one call has written to a fresh stream"""
    args = e[3] if e[0] == "vcall" else e[2][1:]
    this = e[2] if e[0] == "vcall" else e[2][0]
    v = retval(o)
    if len(args) != 2 or args[1] not in (("sym", "arg0"), arg(0)):
        return False
    return v[0] == "written" or v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "all" and v[1][0][1][0] == "written"


# ---- C19 ----------------------------------------------------------------------------------

DEC, FIXED, SCI, HEX, OCT, SHOWPOINT, SHOWPOS = 0x2, 0x4, 0x100, 0x8, 0x40, 0x400, 0x800
UPPER = 0x4000


def numbers(ps, fa, site):
    for p in ps:
        if p[0] == "num":
            yield p, fa, site
        elif p[0] == "pad":
            yield p, fa, site
        elif p[0] == "loop":
            for t in p[1].trans:
                yield from numbers(t.parts.get(p[2], ()), t.facts, p[1].site)


def c19(c):
    c.rule("number", "at every insertion of a number the stream has the classic locale, a precision of at least 16 digits, "
                     "default floating point notation, decimal base and no sign, point or field width option in force")
    c.rule("restore", "on every path that returns, locale, precision and format flags are those of the entry")
    f, r = serialize(c)
    w = c.where(f)
    seen = 0
    for o in r.outs:
        ps = output(c, o)
        if not c.req(ps is not None, "number", w, "earlier content of the stream is changed"):
            continue
        for p, fa, site in numbers(ps, o.facts, w):
            seen += 1
            if p[0] == "pad":
                c.req(False, "number", site, "output is padded to a field width: %s" % (p,))
                continue
            kind, prec, fl, loc = p[1], p[3], p[4], p[5]
            what = show(p[2])
            if kind not in ("f", "i"):
                c.req(kind == "i", "number", site, "%s is written with printf formatting" % what)
                continue
            c.req(loc in (("deref", ("classic",)), ("classic",)), "number", site, "%s is written in locale %s" % (what, show(loc)))
            ok = fl[0] == "i" and not fl[1] & (HEX | OCT | SHOWPOS)
            if kind == "f":
                c.req(rng(prec, fa).min() >= 16 and rng(prec, fa).max() <= 60, "number", site, "%s is written with precision %s" % (what, show(prec)))
                ok = ok and not fl[1] & (FIXED | SCI | SHOWPOINT)
            c.req(ok, "number", site, "%s is written with format flags %s" % (what, show(fl)))
        if o.kind != "ret":
            continue
        old = State().get(OUT)
        for fn, what in (("@loc", "locale"), ("@prec", "precision"), ("@flags", "format flags")):
            v = o.st.get((OUT[0], (("f", fn),)))
            same_ = v == proj(old, ("f", fn)) or v == ("deref", proj(old, ("f", fn)))
            c.req(same_, "restore", w, lambda: "the %s is %s afterwards" % (what, show(v)))
    c.req(seen, "number", w, "no number is written")


CHECKS = {"C17": c17, "C18": c18, "C19": c19}
