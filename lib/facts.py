"""Abstract domains used by the analyser: integer interval sets, four-way
orderings (with `unordered` for NaN), floating point classes, and the product of
them that is attached to an abstract state (class Facts)."""

INF = float("inf")


class IntSet:
    """A finite union of integer intervals (sorted, disjoint, non adjacent)."""
    __slots__ = ("r",)

    def __init__(self, ranges=()):
        rs = sorted((lo, hi) for lo, hi in ranges if lo <= hi)
        out = []
        for lo, hi in rs:
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        self.r = tuple(out)

    @staticmethod
    def of(*vals):
        return IntSet((v, v) for v in vals)

    def __eq__(self, o):
        return isinstance(o, IntSet) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        def n(x):
            return "inf" if x > 1 << 60 and x < 1 << 63 else "-inf" if -(1 << 63) < x < -(1 << 60) else str(x)
        return "{" + ",".join("%s..%s" % (n(a), n(b)) if a != b else n(a) for a, b in self.r) + "}"

    def empty(self):
        return not self.r

    def inter(self, o):
        out = []
        for a, b in self.r:
            for c, d in o.r:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return IntSet(out)

    def union(self, o):
        return IntSet(self.r + o.r)

    def compl(self):
        out, lo = [], -INF
        for a, b in self.r:
            if lo < a:
                out.append((lo, a - 1))
            lo = b + 1
        if lo < INF:
            out.append((lo, INF))
        if not self.r:
            return TOP
        return IntSet(out)

    def minus(self, o):
        return self.inter(o.compl())

    def subset(self, o):
        return self.minus(o).empty()

    def single(self):
        return self.r[0][0] if len(self.r) == 1 and self.r[0][0] == self.r[0][1] else None

    def shift(self, c):
        return IntSet((a + c, b + c) for a, b in self.r)

    def neg(self):
        return IntSet((-b, -a) for a, b in self.r)

    def values(self):
        for a, b in self.r:
            for v in range(int(a), int(b) + 1):
                yield v

    def finite(self):
        return all(a > -INF and b < INF for a, b in self.r)

    def min(self):
        return self.r[0][0]

    def max(self):
        return self.r[-1][1]

    def __contains__(self, v):
        return any(a <= v <= b for a, b in self.r)


TOP = IntSet([(-INF, INF)])
NONNEG = IntSet([(0, INF)])
POS = IntSet([(1, INF)])
ZERO = IntSet.of(0)
BOOL = IntSet([(0, 1)])

REL_F = frozenset("<=>u")   # floating point: includes unordered
REL = frozenset("<=>")
FLIP = {"<": ">", ">": "<", "=": "=", "u": "u"}
OPREL = {"<": frozenset("<"), "<=": frozenset("<="), ">": frozenset(">"),
         ">=": frozenset(">="), "==": frozenset("="), "!=": frozenset("<>u")}

FCLS = ("nan", "-inf", "neg", "zero", "pos", "+inf")
FALL = frozenset(FCLS)


def const_cls(x):
    if x != x:
        return "nan"
    if x == INF:
        return "+inf"
    if x == -INF:
        return "-inf"
    return "zero" if x == 0 else ("pos" if x > 0 else "neg")


def fcls_cmp(op, c):
    """(classes that may satisfy `x op c`, classes that may not satisfy it)."""
    rank = {"-inf": -INF, "neg": None, "zero": 0.0, "pos": None, "+inf": INF}
    may_t, may_f = set(), set()
    for k in FCLS:
        if k == "nan" or c != c:
            (may_t if op == "!=" else may_f).add(k)
            continue
        pts = {"-inf": [-INF], "+inf": [INF], "zero": [0.0],
               "neg": [-1.7e308, -5e-324], "pos": [5e-324, 1.7e308]}[k]
        # c itself if it belongs to the class, and neighbours
        if k == "neg" and -INF < c < 0 or k == "pos" and 0 < c < INF:
            pts = pts + [c]
        for x in pts:
            t = {"<": x < c, "<=": x <= c, ">": x > c, ">=": x >= c, "==": x == c, "!=": x != c}[op]
            (may_t if t else may_f).add(k)
    return frozenset(may_t), frozenset(may_f)


def on_element(t, containers):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "elem" and t[1] in containers:
            return True
        return any(on_element(x, containers) for x in t)
    return False


class Facts:
    __slots__ = ("rel", "dom", "lit", "fc")

    def __init__(self, rel=None, dom=None, lit=None, fc=None):
        self.rel = rel or {}
        self.dom = dom or {}
        self.lit = lit or {}
        self.fc = fc or {}

    def copy(self):
        return Facts(dict(self.rel), dict(self.dom), dict(self.lit), dict(self.fc))

    def key(self):
        return (frozenset(self.rel.items()), frozenset(self.dom.items()),
                frozenset(self.lit.items()), frozenset(self.fc.items()))

    def join(self, o):
        f = Facts()
        for k, v in self.rel.items():
            if k in o.rel:
                f.rel[k] = v | o.rel[k]
        for k, v in self.dom.items():
            if k in o.dom:
                f.dom[k] = v.union(o.dom[k])
        for k, v in self.lit.items():
            if o.lit.get(k) == v:
                f.lit[k] = v
        for k, v in self.fc.items():
            if k in o.fc:
                f.fc[k] = v | o.fc[k]
        # facts on elements of a container that is empty on the other side hold there vacuously
        for x, y in ((self, o), (o, self)):
            empty = {k[1] for k, v in y.dom.items() if k[0] == "size" and v.r == ((0, 0),)}
            empty = {m for m in empty if x.dom.get(("size", m)) is None or x.dom[("size", m)].r != ((0, 0),)}
            if empty:
                for a, b, c in ((x.rel, y.rel, f.rel), (x.dom, y.dom, f.dom), (x.fc, y.fc, f.fc)):
                    for k, v in a.items():
                        if k not in b and on_element(k, empty):
                            c[k] = v
        return f

    def diff(self, base):
        """facts here that base does not have (for reports and summaries)"""
        f = Facts()
        for a, b, c in ((self.rel, base.rel, f.rel), (self.dom, base.dom, f.dom),
                        (self.lit, base.lit, f.lit), (self.fc, base.fc, f.fc)):
            for k, v in a.items():
                if k not in b or b[k] != v:
                    c[k] = v
        return f

    def __repr__(self):
        out = []
        for (a, b), v in self.rel.items():
            out.append("%s %s %s" % (show(a), "".join(sorted(v)), show(b)))
        for k, v in self.dom.items():
            out.append("%s in %r" % (show(k), v))
        for k, v in self.lit.items():
            out.append(("" if v else "!") + show(k))
        for k, v in self.fc.items():
            out.append("%s is %s" % (show(k), "|".join(sorted(v))))
        return "; ".join(out)


def show(t):
    """Readable form of a term, for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    try:
        if k in ("i", "f"):
            return str(t[1])
        if k == "s":
            return repr(t[1].decode("latin1"))
        if k == "null":
            return "nullptr"
        if k == "sym":
            return t[1]
        if k == "deref":
            return "*" + show(t[1]) if t[1] != ("sym", "this") else "(*this)"
        if k == "fld":
            return ("%s.%s" % (show(t[1]), t[2])).replace("(*this).", "this->")
        if k == "elem":
            return "%s[%s]" % (show(t[1]), show(t[2]))
        if k == "size":
            return "size(%s)" % show(t[1])
        if k == "k":
            return "k"
        if k == "ptr":
            return "&" + showloc(t[1])
        if k == "it":
            return "iter(%s,%s)" % (showloc(t[1]), show(t[2]))
        if k == "lin":
            s = "+".join(("%s*" % c if c != 1 else "") + show(x) for x, c in t[2])
            return "(%s%s)" % (s, ("%+d" % t[1]) if t[1] else "")
        if k == "ald":
            return "load(%s)" % showloc(t[1])
        if k == "lock":
            return "lock(%s)" % show(t[1])
        if k == "seq":
            return "[" + " ".join(showpart(p) for p in t[1]) + "]"
        if k == "obj":
            return "{" + ", ".join("%s=%s" % (f, show(v)) for f, v in t[2]) + "}"
        if k == "call":
            return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
        if k == "phi":
            return "phi(%s)" % showloc(t[2])
        if k in ("op", "fop"):
            return "(%s %s)" % (t[1], " ".join(show(x) for x in t[2:]))
        if k == "cmp":
            return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
        if k == "lam":
            return "lambda"
        return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:] if not isinstance(x, int)))
    except Exception:
        return repr(t)


def showpart(p):
    if p[0] == "lit":
        return repr(p[1].decode("latin1"))
    if p[0] == "one":
        return show(p[1])
    if p[0] == "all":
        return "*" + show(p[1])
    if p[0] == "loop":
        return "loop%s" % (p[1].describe(p[2]))
    return "%s(%s)" % (p[0], ",".join(show(x) if isinstance(x, tuple) else str(x) for x in p[1:]))


def showloc(l):
    root, path = l
    if root[0] == "p":
        s = show(root[1])
        s = "this" if root[1] == ("sym", "this") else s
        first = True
        for st in path:
            if st[0] == "f":
                s += ("->" if first else ".") + st[1]
            else:
                s += "[%s]" % show(st[1])
            first = False
        return s if path else "*" + s
    s = {"v": "local", "g": "global", "t": "tmp", "h": "heap"}.get(root[0], root[0])
    if root[0] == "g":
        s = root[1]
    for st in path:
        s += ".%s" % st[1] if st[0] == "f" else "[%s]" % show(st[1])
    return s
