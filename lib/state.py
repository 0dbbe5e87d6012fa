"""Abstract states: a store of value trees, facts, an effect trace, held locks."""
from facts import *
from terms import *


class AnalysisLimit(Exception):
    pass


# ---- interned effect traces -------------------------------------------------

class Tr:
    """cons cell of an effect trace, interned so that equality is identity"""
    __slots__ = ("prev", "ev", "n")
    table = {}

    @staticmethod
    def add(prev, ev):
        k = (id(prev), ev)
        c = Tr.table.get(k)
        if c is None:
            c = Tr()
            c.prev, c.ev, c.n = prev, ev, (prev.n + 1 if prev else 1)
            Tr.table[k] = c
        return c

    @staticmethod
    def items(t, base=None):
        out = []
        while t is not None and t is not base:
            out.append(t.ev)
            t = t.prev
        out.reverse()
        return out


# ---- value trees --------------------------------------------------------------

ZEROV = ("zero",)


def part_size(p):
    k = p[0]
    if k == "lit":
        return ("i", len(p[1]))
    if k == "one":
        return ("i", 1)
    if k == "all":
        return sizeof(p[1])
    if k == "rep":
        return p[1]
    if k == "sub":
        return sub(p[3], p[2])
    if k == "map":
        return p[2]
    if k == "loop" and p[3] == "n" and p[1].n is not None and p[1].uniform(p[2]) is not None:
        u = p[1].uniform(p[2])
        return mul(p[1].n, ("i", u))
    return SIZES.get(("seq", (p,))) or ("size", ("seq", (p,)))


def sizeof(v):
    if v[0] == "seq":
        r = ("i", 0)
        for p in v[1]:
            r = add(r, part_size(p))
        return r
    if v[0] == "s":
        return ("i", len(v[1]))
    if v[0] == "zero":
        return ("i", 0)
    if v[0] == "upd":
        return sizeof(v[1])
    if v[0] == "obj" and v[1].startswith("[") :
        return ("i", len(v[2]))
    if v[0] in ("mins", "merase"):
        return add(sizeof(v[1]), ("i", 1 if v[0] == "mins" else -1))
    if v[0] == "phi" and v in MAPPHI:
        return sizeof(MAPPHI[v][0])
    return SIZES.get(v) or ("size", v)


MAPPHI = {}    # containers that a loop changes in place at its own index only: phi -> (initial value, index)

SIZES = {}     # sizes that a class invariant fixes: container value -> term


def idx_diff(a, b):
    """a - b when it is a known constant, else None"""
    d = sub(a, b)
    return d[1] if d[0] == "i" else None


def proj(v, step):
    k = v[0]
    if k == "zero":
        return v
    if step[0] == "f":
        n = step[1]
        if k == "obj":
            for f, x in v[2]:
                if f == n:
                    return x
            return ("undef", n)
        if k == "upd":
            for s, x in v[2]:
                if s == step:
                    return x
            return proj(v[1], step)
        if k == "moved":
            return ("moved", proj(v[1], step))
        return ("fld", v, n)
    i = step[1]
    if k == "phi" and v in MAPPHI and i == MAPPHI[v][1]:
        return proj(MAPPHI[v][0], step)
    if k == "upd":
        for s, x in reversed(v[2]):
            if s[0] != "x":
                continue
            d = idx_diff(s[1], i)
            if d == 0:
                return x
            if d is None:
                return ("sel", v, i)
        return proj(v[1], step)
    if k == "obj" and i[0] == "i":
        for f, x in v[2]:
            if f == i[1]:
                return x
        return ("undef", i)
    if k == "s":
        if i[0] == "i":
            b = v[1] + b"\0"
            return ("i", b[i[1]] - 256 if 0 <= i[1] < len(b) and b[i[1]] > 127 else
                    b[i[1]] if 0 <= i[1] < len(b) else 0)
        return ("elem", v, i)
    if k == "seq":
        off = ("i", 0)
        for p in v[1]:
            d = idx_diff(i, off)
            if p[0] == "one" and d == 0:
                return p[1]
            if p[0] == "lit" and d is not None and 0 <= d < len(p[1]):
                c = p[1][d]
                return ("i", c - 256 if c > 127 else c)
            if p[0] == "rep" and d is not None and p[1][0] == "i" and 0 <= d < p[1][1]:
                return p[2]
            if p[0] == "rep" and len(v[1]) == 1:
                return p[2]
            if p[0] == "all" and len(v[1]) > 1:
                # index relative to the whole part when it provably is inside it
                d2 = sub(i, off)
                if d2[0] == "i" and d2[1] == 0 and False:
                    return proj(p[1], ("x", d2))
            if p[0] == "map" and len(v[1]) == 1:
                return subst(p[1], {("k", p[3]): i})
            off = add(off, part_size(p))
        return ("elem", v, i)
    if k == "mins" and i == findt(v, v[2]):
        return ("obj", "pair", (("first", v[2]), ("second", v[3])))
    return ("elem", v, i)


def update(v, path, new):
    if not path:
        return new
    step, rest = path[0], path[1:]
    inner = update(proj(v, step), rest, new) if rest else new
    k = v[0]
    if k == "obj":
        key = step[1]
        if step[0] == "x":
            if key[0] != "i":
                return ("upd", v, ((step, inner),))
            key = key[1]
        fs, hit = [], False
        for f, x in v[2]:
            if f == key:
                fs.append((f, inner))
                hit = True
            else:
                fs.append((f, x))
        if not hit:
            fs.append((key, inner))
        return ("obj", v[1], tuple(fs))
    if k == "seq" and step[0] == "x":
        off, out, hit = ("i", 0), [], False
        for p in v[1]:
            d = idx_diff(step[1], off)
            if not hit and p[0] == "one" and d == 0:
                out.append(("one", inner))
                hit = True
            elif not hit and p[0] == "lit" and d is not None and 0 <= d < len(p[1]) and inner[0] == "i":
                out.append(("lit", p[1][:d] + bytes([inner[1] & 255]) + p[1][d + 1:]))
                hit = True
            else:
                out.append(p)
            off = add(off, part_size(p))
        if hit:
            return mkseq(out)
    if k == "mins" and step == ("x", findt(v, v[2])):
        return ("mins", v[1], v[2], proj(inner, ("f", "second")))
    if k == "upd":
        m = tuple((s, x) for s, x in v[2] if s != step) + ((step, inner),)
        if step[0] == "f":
            m = tuple(sorted(m, key=repr))
        base = v[1]
    else:
        m, base = ((step, inner),), v
    # writing back what was there
    if all(proj(base, s) == x for s, x in m):
        return base
    return ("upd", base, m)


def leafdiff(a, b, path=()):
    """paths where two value trees differ"""
    if a == b:
        return []
    if a[0] == "obj" and b[0] == "obj" and a[1] == b[1] and not a[1].startswith("["):
        fa, fb = dict(a[2]), dict(b[2])
        out = []
        for f in fa:
            if f in fb:
                out += leafdiff(fa[f], fb[f], path + (("f", f),))
            else:
                return [path]
        return out if set(fa) == set(fb) else [path]
    if "upd" in (a[0], b[0]):
        ba = a[1] if a[0] == "upd" else a
        bb = b[1] if b[0] == "upd" else b
        ma = dict(a[2]) if a[0] == "upd" else {}
        mb = dict(b[2]) if b[0] == "upd" else {}
        if ba == bb and all(s[0] == "f" for s in list(ma) + list(mb)):
            out = []
            for s in list(ma) + [s for s in mb if s not in ma]:
                out += leafdiff(ma.get(s) if s in ma else proj(ba, s),
                                mb.get(s) if s in mb else proj(bb, s), path + (s,))
            return out
        return [path]
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        return [path + (("@idx",),)]
    return [path]


def vget(v, path):
    for s in path:
        if s[0] == "@idx":
            return v[2] if v[0] == "it" else ("itidx", v)
        v = proj(v, s)
    return v


def vset(v, path, new):
    if path and path[-1][0] == "@idx":
        it = vget(v, path[:-1])
        return vset(v, path[:-1], ("it", it[1], new))
    return update(v, path, new)


class State:
    __slots__ = ("store", "facts", "trace", "locks", "live", "cnt", "temps")

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.trace = None
        self.locks = ()
        self.live = ()
        self.cnt = {}
        self.temps = ()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = self.facts
        s.trace, s.locks, s.live, s.temps = self.trace, self.locks, self.live, self.temps
        s.cnt = self.cnt
        return s

    def key(self):
        return (frozenset(self.store.items()), id(self.trace), self.locks, self.live, self.temps)

    def init(self, root):
        k = root[0]
        if k == "p":
            return ("deref", root[1])
        if k == "c":
            return ("s", root[1])
        if k == "g":
            return CONSTG.get(root[1], ("glob", root[1]))
        return ("undef", root)

    def get(self, loc):
        root, path = loc
        v = self.store.get(root)
        if v is None:
            v = self.init(root)
        for s in path:
            v = vget(v, (s,)) if s[0] == "@idx" else proj(v, s)
        return v

    def set(self, loc, val):
        """returns a new state"""
        s = self.copy()
        root, path = loc
        v = s.store.get(root)
        if v is None:
            v = s.init(root)
        n = vset(v, path, val)
        if root[0] == "p" and n == s.init(root):
            s.store.pop(root, None)
        else:
            s.store[root] = n
        return s

    def ev(self, *ev):
        s = self.copy()
        s.trace = Tr.add(self.trace, ev)
        return s

    def uid(self, site):
        """(state, fresh id): deterministic per site and occurrence"""
        n = self.cnt.get(site, 0)
        s = self.copy()
        s.cnt = dict(self.cnt)
        s.cnt[site] = n + 1
        return s, (site, n) if n else site

    def events(self, base=None):
        return Tr.items(self.trace, base)

    # -- facts -------------------------------------------------------------

    def nf(self):
        s = self.copy()
        s.facts = self.facts.copy()
        return s


NOJOIN = [False]


def merge(outs):
    """outs: [(state, x)]; joins states that differ in their facts only"""
    if len(outs) < 2:
        return outs
    d, order = {}, []
    for st, x in outs:
        try:
            k = (st.key(), x) if not NOJOIN[0] else (st.key(), st.facts.key(), x)
            hash(k)
        except TypeError:
            order.append((st, x))
            continue
        if k in d:
            o = d[k]
            st0 = o[0].copy()
            st0.facts = st0.facts.join(st.facts)
            if st.cnt != st0.cnt:
                c = dict(st0.cnt)
                for a, b in st.cnt.items():
                    if c.get(a, 0) < b:
                        c[a] = b
                st0.cnt = c
            o[0] = st0
        else:
            o = [st, x]
            d[k] = o
            order.append(o)
    return [(o[0], o[1]) for o in order]


# ---- facts: ranges, comparisons ------------------------------------------------

NAT = {}   # natural ranges of integer terms, by type


def width_range(w, sg):
    if not w:
        return TOP
    return IntSet([(-(1 << (w - 1)), (1 << (w - 1)) - 1)]) if sg else IntSet([(0, (1 << w) - 1)])


SIZERANGE = IntSet([(0, 1 << 62)])


def natural(t):
    k = t[0]
    if k == "i":
        return IntSet.of(t[1])
    if k in ("size", "k"):
        return SIZERANGE
    if k == "rt":
        return NONNEG
    if k == "cmp" or k == "not":
        return BOOL
    if k == "cvt":
        return width_range(t[1], t[2])
    if k == "op":
        if t[1] == "%" and t[3][0] == "i" and t[3][1]:
            m = abs(t[3][1]) - 1
            lo = natural(t[2])
            return IntSet([(0 if lo.subset(NONNEG) else -m, m)])
        if t[1] == "&":
            for x in t[2:]:
                if x[0] == "i" and x[1] >= 0:
                    return IntSet([(0, x[1])])
        if t[1] == ">>" and t[3][0] == "i":
            r = natural(t[2])
            if r.subset(NONNEG) and r.finite():
                return IntSet([(0, r.max() >> t[3][1])])
        if t[1] in ("/", ">>", "|", "*") and all(natural(x).subset(NONNEG) for x in t[2:]):
            return NONNEG
    return NAT.get(t, TOP)


def rng(t, fa):
    """set of possible values of an integer term"""
    if t[0] == "i":
        return IntSet.of(t[1])
    if t[0] == "lin":
        lo, hi = t[1], t[1]
        for x, c in t[2]:
            r = rng(x, fa)
            if r.empty():
                return r
            a, b = r.min() * c, r.max() * c
            lo, hi = lo + min(a, b), hi + max(a, b)
        if len(t[2]) == 1 and abs(t[2][0][1]) == 1:
            r = rng(t[2][0][0], fa)
            r = (r if t[2][0][1] == 1 else r.neg()).shift(t[1])
        else:
            r = IntSet([(lo, hi)])
        key, sgn = canon(t)
        d = fa.dom.get(key)
        if d is not None:
            r = r.inter((d if sgn > 0 else d.neg()).shift(t[1]))
        return r
    r = natural(t)
    d = fa.dom.get(t)
    return r.inter(d) if d is not None else r


def canon(t):
    """(form without constant and with positive first coefficient, sign)"""
    if t[0] != "lin":
        return t, 1
    items = t[2]
    s = 1 if items[0][1] > 0 else -1
    return mklin(0, {k: v * s for k, v in items}), s


RELOP = {"==": ZERO, "!=": ZERO.compl(), "<": IntSet([(-INF, -1)]), "<=": IntSet([(-INF, 0)]),
         ">": POS, ">=": NONNEG}
NEGOP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


NPOS_ = (1 << 64) - 1


def assume_int(st, op, a, b):
    """state refined by `a op b`, or None when impossible"""
    d = sub(a, b)
    want = RELOP[op]
    r = rng(d, st.facts)
    n = r.inter(want)
    if n.empty():
        return None
    if n == r:
        return st
    s = st.nf()
    key, sgn = canon(d)
    c = d[1] if d[0] == "lin" else 0
    dd = n.shift(-c)
    if sgn < 0:
        dd = dd.neg()
    old = s.facts.dom.get(key)
    if old is None:
        old = natural(key) if key[0] != "lin" else TOP
    if key[0] == "lin" and len(key[2]) == 1 and key[2][0][1] != 1:
        # m*t in dd: keep the form, it is still sound
        pass
    s.facts.dom[key] = old.inter(dd)
    if key[0] == "sfind" and NPOS_ in old and NPOS_ not in s.facts.dom[key]:
        # a position that was found leaves room for the needle
        s = assume_int(s, "<=", add(key, sizeof(key[3])), sizeof(key[2]))
        if s is None:
            return None
    if key[0] == "cvt" and key[1] and not key[2] and key[1] <= 64:
        # the operand of a conversion to unsigned, when it is within one period
        x, m = key[3], 1 << key[1]
        rx = rng(x, s.facts)
        if not rx.empty() and rx.min() >= -m and rx.max() < m:
            v = s.facts.dom[key]
            pre = rx.inter(v.inter(IntSet([(0, m - 1)])).union(v.shift(-m).inter(IntSet([(-m, -1)]))))
            if pre.empty():
                return None
            if pre != rx:
                kx, sx = canon(x)
                cx = x[1] if x[0] == "lin" else 0
                p2 = pre.shift(-cx)
                s.facts.dom[kx] = p2.neg() if sx < 0 else p2
    # x - y == 0 propagates single values
    if op == "==" and key[0] == "lin" and len(key[2]) == 2:
        (x, cx), (y, cy) = key[2]
        if cx == 1 and cy == -1 and dd.single() is not None:
            k = dd.single()
            rx, ry = rng(x, s.facts), rng(y, s.facts)
            ix = rx.inter(ry.shift(k))
            if ix.empty():
                return None
            if ix != rx and x[0] != "lin":
                s.facts.dom[x] = ix
            iy = ry.inter(ix.shift(-k))
            if iy != ry and y[0] != "lin":
                s.facts.dom[y] = iy
    if key[0] == "lin" and len(key[2]) == 2 and op != "!=":
        # bounds propagation for x - y
        (x, cx), (y, cy) = key[2]
        if cx == 1 and cy == -1 and not dd.empty():
            rx, ry = rng(x, s.facts), rng(y, s.facts)
            if not rx.empty() and not ry.empty():
                nx = rx.inter(IntSet([(ry.min() + dd.min(), ry.max() + dd.max())]))
                ny = ry.inter(IntSet([(rx.min() - dd.max(), rx.max() - dd.min())]))
                if nx.empty() or ny.empty():
                    return None
                if nx != rx:
                    s.facts.dom[x] = nx
                if ny != ry:
                    s.facts.dom[y] = ny
    return s


def fcls(t, fa):
    if t[0] == "f":
        return frozenset([const_cls(t[1])])
    if t[0] == "fneg":
        m = {"nan": "nan", "-inf": "+inf", "+inf": "-inf", "neg": "pos", "pos": "neg", "zero": "zero"}
        return frozenset(m[c] for c in fcls(t[1], fa))
    if t[0] == "i2f":
        r = rng(t[1], fa)
        s = set()
        if 0 in r:
            s.add("zero")
        if not r.empty() and r.max() > 0:
            s.add("pos")
        if not r.empty() and r.min() < 0:
            s.add("neg")
        return frozenset(s)
    return fa.fc.get(t, FALL)


def relkey(a, b):
    """canonical pair and whether it was flipped"""
    return ((a, b), False) if trepr(a) <= trepr(b) else ((b, a), True)


def getrel(fa, a, b, full):
    if a == b:
        # equal unless unordered (NaN)
        r = frozenset("=")
        if "u" in full and "nan" in fcls(a, fa):
            r = frozenset("=u") if fcls(a, fa) != frozenset(["nan"]) else frozenset("u")
        return r
    (x, y), fl = relkey(a, b)
    r = fa.rel.get((x, y), full)
    return frozenset(FLIP[c] for c in r) if fl else r


def setrel(fa, a, b, r):
    (x, y), fl = relkey(a, b)
    fa.rel[(x, y)] = frozenset(FLIP[c] for c in r) if fl else frozenset(r)


def assume_f(st, op, a, b, truth):
    """floating comparison (truth: whether it is assumed to hold)"""
    if a[0] == "f" and b[0] == "f":
        x, y = a[1], b[1]
        v = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        return st if v == truth else None
    if a[0] == "f":
        a, b, op = b, a, SWAP[op]
    ca, cb = fcls(a, st.facts), fcls(b, st.facts)
    s = st
    if b[0] == "f":
        t, f = fcls_cmp(op, b[1])
        want = (t if truth else f) & ca
        if not want:
            return None
        if want != ca:
            s = s.nf()
            base = a[1] if a[0] == "fneg" else a
            if a[0] == "fneg":
                m = {"nan": "nan", "-inf": "+inf", "+inf": "-inf", "neg": "pos", "pos": "neg", "zero": "zero"}
                want2 = frozenset(m[c] for c in want)
            else:
                want2 = want
            if base[0] != "i2f":
                s.facts.fc[base] = want2
            ca = want
    r = OPREL[op]
    if not truth:
        r = REL_F - r
    cur = getrel(s.facts, a, b, REL_F)
    if "nan" not in ca and "nan" not in cb:
        cur = cur - {"u"}
    if ca == {"nan"} or cb == {"nan"}:
        cur = cur & {"u"}
    n = cur & r
    if not n:
        return None
    if a == b:
        # x == x decides NaN-ness
        s = s.nf()
        if n == {"u"}:
            s.facts.fc[a] = frozenset(["nan"])
        elif n == {"="}:
            s.facts.fc[a] = fcls(a, s.facts) - {"nan"}
        return s
    if b[0] == "f" and r & REL_F == r:
        pass
    s = s.nf()
    setrel(s.facts, a, b, n)
    if "u" not in n:
        for x in (a, b):
            c = fcls(x, s.facts)
            if "nan" in c and x[0] not in ("f", "fneg", "i2f"):
                s.facts.fc[x] = c - {"nan"}
    return s


CONSTG = {}      # local static constants -> value

NONNULLK = ("ptr", "s", "cstr", "lam", "fnptr", "functor", "ptradd", "f", "obj", "seq")


def assume_p(st, op, a, b, truth):
    """pointer / generic equality and order"""
    r = OPREL[op] & REL
    if not truth:
        r = REL - r
    if a == b:
        return st if "=" in r else None
    if is_const(a) and is_const(b):
        ne = REL - {"="}
        return st if r & ne else None
    for x, y in ((a, b), (b, a)):
        if y == NULL and x[0] in NONNULLK:
            return st if r & {"<", ">"} else None
    if a[0] == "ptr" and b[0] == "ptr":
        # different locations
        if a[1][0] != b[1][0] and (a[1][0][0] in "vth" or b[1][0][0] in "vth"):
            return st if r & {"<", ">"} else None
    for x, y in ((a, b), (b, a)):
        # a pointer to a fresh object never equals an older pointer value
        if x[0] == "ptr" and x[1][0][0] in "vh" and y[0] not in ("ptr", "phi", "sel"):
            return st if r & {"<", ">"} else None
    cur = getrel(st.facts, a, b, REL)
    n = cur & r
    if not n:
        return None
    if n == cur:
        return st
    s = st.nf()
    if n == {"<", ">"} or n == {"="} or True:
        setrel(s.facts, a, b, n)
    # p == q and q known (non)null
    if n == {"="}:
        for x, y in ((a, b), (b, a)):
            rn = getrel(st.facts, y, NULL, REL) if y != NULL else None
            if rn is not None and rn != REL and x[0] not in NONNULLK:
                cur2 = getrel(s.facts, x, NULL, REL) & rn
                if not cur2:
                    return None
                setrel(s.facts, x, NULL, cur2)
    return s
