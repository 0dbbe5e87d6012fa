"""Model of the standard library and of the C libraries the program uses:
transfer functions over the abstract state, one per class family."""
from fractions import Fraction
from engine import *

NPOS = (1 << 64) - 1
STREAM = "@stream"
FLAGMASK = {"std::dec": (0x4a, 0x2), "std::hex": (0x4a, 0x8), "std::oct": (0x4a, 0x40),
            "std::fixed": (0x104, 0x4), "std::scientific": (0x104, 0x100), "std::defaultfloat": (0x104, 0),
            "std::hexfloat": (0x104, 0x104), "std::left": (0xb0, 0x20), "std::right": (0xb0, 0x80),
            "std::internal": (0xb0, 0x10), "std::boolalpha": (1, 1), "std::noboolalpha": (1, 0),
            "std::showbase": (0x200, 0x200), "std::noshowbase": (0x200, 0), "std::showpos": (0x800, 0x800),
            "std::noshowpos": (0x800, 0), "std::showpoint": (0x400, 0x400), "std::noshowpoint": (0x400, 0),
            "std::uppercase": (0x4000, 0x4000), "std::nouppercase": (0x4000, 0), "std::skipws": (0x1000, 0x1000),
            "std::noskipws": (0x1000, 0), "std::unitbuf": (0x2000, 0x2000), "std::nounitbuf": (0x2000, 0)}
DEFFLAGS = 0x1002

CMPF = {"std::less": "<", "std::greater": ">", "std::less_equal": "<=", "std::greater_equal": ">=",
        "std::equal_to": "==", "std::not_equal_to": "!="}
# the classes that do not depend on the locale
CTYPE = {"isdigit": [(48, 57)], "isxdigit": [(48, 57), (65, 70), (97, 102)]}
MUTATING = ()


def pairv(a, b):
    return ("obj", "pair", (("first", a), ("second", b)))


class Interp(Engine):

    # ---- helpers ------------------------------------------------------------

    def resize(self, st, o, v, n, x, e):
        """sequence v at o gets n elements, new ones are x"""
        d = sub(n, sizeof(v))
        if rng(d, st.facts).max() <= 0:
            return [(self.wr(st, o, self.slice(st, v, ("i", 0), n), e), (V, ("void",)))]
        out = []
        for s, grow in self.split(st, self.cmp(">=" if rng(d, st.facts).min() >= 0 else ">", d, ("i", 0), "i")):
            nv = mkseq(parts(v) + (("rep", d, x),)) if grow else self.slice(s, v, ("i", 0), n)
            out.append((self.wr(s, o, nv, e), (V, ("void",))))
        return out

    def alloc(self, st, e):
        if self.throws == "all":
            self.may_throw(st, "lib", self.site(e))

    def fresh(self, st, tag, e):
        return st.uid((tag,) + self.nid(e))

    def locknames(self, st):
        return tuple(m for m, _, _ in st.locks)

    def ext(self, st, qn, vals, e, snap=()):
        """an external library call: (state, result value)"""
        st, u = self.fresh(st, "e", e)
        st = st.ev("ext", qn, tuple(vals), u, self.locknames(st), self.site(e), tuple(snap))
        return st, ("call", qn, tuple(vals), u)

    def objty(self, e):
        o = e.get("obj") if isinstance(e, dict) else None
        if o is None:
            return None
        t = o["t"]
        if e.get("objarrow") and t.k == "ptr":
            t = t.pt
        return t.strip()

    def elty(self, t):
        if t is None:
            return None
        t = t.strip()
        if t.k == "array":
            return t.pt
        f = self.family(t)
        if f in ("vec", "sp", "wp", "it", "rit", "atomic", "opt", "chrono", "future"):
            for a in t.ta:
                if isinstance(a, Ty):
                    return a
        if f == "str":
            for a in t.ta:
                if isinstance(a, Ty):
                    return a
        return None

    def child(self, loc, idx):
        return (loc[0], loc[1] + (("x", idx),))

    def fld(self, loc, f):
        return (loc[0], loc[1] + (("f", f),))

    def cval(self, st, v, e=None):
        """string denoted by a char pointer value"""
        if self.mem:
            self.deref(st, v, e, False)
        if v[0] == "s":
            b = v[1]
            return ("s", b.split(b"\0")[0])
        if v[0] == "cstr":
            c = cstr(v[1])
            if c is not None and b"\0" not in c:
                return ("s", c)
            return ("ntcs", v[1])
        if v[0] == "ptradd" and v[1][0] == "s" and v[2][0] == "i" and 0 <= v[2][1] <= len(v[1][1]):
            return ("s", v[1][1][v[2][1]:].split(b"\0")[0])
        if v[0] == "glob":
            g = self.globval(v[1])
            if g is not None and g[0] == "s":
                return g
        return ("cstrof", v)

    def isstr(self, t):
        t = t.strip() if t is not None else None
        return t is not None and (t.k in ("ptr", "array") and t.pt is not None and t.pt.char or self.family(t) == "str")

    def sval(self, st, a, e=None):
        """string value of an argument (std::string, string_view, char*, char)"""
        v = self.aval(st, a, e)
        t = a[2].strip() if a[2] is not None else None
        if t is None or self.family(t) == "str":
            return v if v[0] != "zero" else EMPTY
        if t.k in ("ptr", "array"):
            return self.cval(st, v, e)
        if t.k == "int":
            return mkseq((self.onechar(v),))
        if t.k == "rec" and self.family(t) == "vec":
            return v
        return v

    def onechar(self, v):
        return ("lit", bytes([v[1] & 255])) if v[0] == "i" else ("one", v)

    def bufval(self, st, p, n):
        """bytes [p, p+n)"""
        if p[0] == "cstr":
            return self.slice(st, p[1], ("i", 0), n)
        if p[0] == "s":
            if n[0] == "i":
                return ("s", p[1][:n[1]])
            return ("seq", (("sub", p, ("i", 0), n),))
        base, off = self.ptrbase(p)
        if base[0] == "ptr" and off is not None:
            v = st.get(base[1])
            if v[0] not in ("undef",):
                return self.slice(st, v, off, add(off, n))
        return ("buf", p, n)

    def slice(self, st, v, lo, hi):
        """v[lo..hi) as a value"""
        if lo == hi:
            return EMPTY
        if v[0] == "s":
            if lo[0] == "i" and hi[0] == "i":
                return ("s", v[1][lo[1]:hi[1]])
        n = sizeof(v)
        if lo == ("i", 0) and (hi == n or idx_diff(hi, n) == 0):
            return v
        if v[0] == "seq":
            offs = [("i", 0)]
            for p in v[1]:
                offs.append(add(offs[-1], part_size(p)))
            a = b = None
            extra_a = extra_b = 0
            for i, o in enumerate(offs):
                if a is None and idx_diff(lo, o) == 0:
                    a = i
                if idx_diff(hi, o) == 0:
                    b = i
            if a is not None and b is not None and a <= b:
                return mkseq(v[1][a:b])
            # constant offsets inside literal parts
            out, ok = [], True
            for i, p in enumerate(v[1]):
                o = offs[i]
                dl, dh = idx_diff(lo, o), idx_diff(hi, o)
                z = part_size(p)
                if p[0] in ("lit", "one") or p[0] == "rep":
                    size = z
                    if size[0] == "i" and dl is not None and dh is not None:
                        x, y = max(0, dl), min(size[1], dh)
                        if x < y:
                            out.append(("lit", p[1][x:y]) if p[0] == "lit" else p if p[0] == "one" else
                                       ("rep", ("i", y - x), p[2]))
                        continue
                    if dl is None or dh is None:
                        # known order only through parts positions
                        if a is not None and i < a:
                            continue
                        if b is not None and i >= b:
                            continue
                ok = False
                break
            if ok:
                return mkseq(out)
            if len(v[1]) == 1 and v[1][0][0] == "sub":
                _, t, l0, h0 = v[1][0]
                return self.slice(st, t, add(l0, lo), add(l0, hi))
            if len(v[1]) == 1 and v[1][0][0] == "rep":
                return mkseq((("rep", sub(hi, lo), v[1][0][2]),))
        if idx_diff(hi, lo) == 1:
            return mkseq((("one", proj(v, ("x", lo))),))
        return ("seq", (("sub", v, lo, hi),))

    def clamp(self, st, v, pos, n):
        """end position of substr(pos, n)"""
        size = sizeof(v)
        if n[0] == "i" and n[1] >= NPOS - 1:
            return [(st, size)]
        end = add(pos, n)
        d = sub(size, end)
        r = rng(d, st.facts)
        if not r.empty() and r.min() >= 0:
            return [(st, end)]
        if not r.empty() and r.max() < 0:
            return [(st, size)]
        if cstr(v) is not None and end[0] == "i":
            return [(st, ("i", min(len(cstr(v)), end[1])))]
        return [(st, ("min", end, size))]

    # ---- comparisons -----------------------------------------------------------

    def compare(self, st, op, a, ta, b, tb, e):
        """[(state, boolean term)] of `a op b` by type"""
        ta = ta.strip() if ta is not None else None
        tb = tb.strip() if tb is not None else ta
        fa = self.family(ta)
        fb = self.family(tb)
        if ta is not None and ta.k == "float" or tb is not None and tb.k == "float":
            return [(st, self.cmp(op, a, b, "f"))]
        if ta is not None and ta.k in ("int", "bool", "enum"):
            out = []
            for s, x in self.debool(st, a, ta):
                for s2, y in self.debool(s, b, tb):
                    out.append((s2, self.cmp(op, x, y, "i")))
            return out
        if fa == "it" or fa == "rit" or a[0] in ("it", "rit") or "gone" in (a[0], b[0]):
            a, b = self.unmv(a), self.unmv(b)
            if a[0] == b[0] and a[0] in ("it", "rit") and a[1] == b[1]:
                x, y = (a[2], b[2]) if a[0] == "it" else (b[2], a[2])
                return [(st, self.cmp(op, x, y, "i"))]
            return [(st, self.cmp(op, a, b, "p"))]
        if fa == "str" or fb == "str" or self.isstr(ta) and self.isstr(tb) and fa:
            x = a if fa == "str" else self.cval(st, a)
            y = b if fb == "str" else self.cval(st, b)
            if op == "==":
                return [(st, self.streq(x, y))]
            if op == "!=":
                return [(st, self.neg(self.streq(x, y)))]
            return [(st, ("cmp", op, ("scmp", x, y), ("i", 0), "i"))]
        if fa == "chrono":
            pa, pb = self.period(ta), self.period(tb)
            if pa != pb and pa and pb:
                if (pa / pb).denominator == 1:
                    a = mul(a, ("i", int(pa / pb)))
                else:
                    b = mul(b, ("i", int(pb / pa)))
            return [(st, self.cmp(op, strip(a), strip(b), "i"))]
        if fa == "pair" and a[0] == "obj" and b[0] == "obj" and op in ("==", "!="):
            outs = []
            cur = [st]
            tys = [t for t in ta.ta if isinstance(t, Ty)]
            for n, ((f, x), (g, y)) in enumerate(zip(a[2], b[2])):
                t = tys[n].strip() if n < len(tys) else None
                nxt = []
                for s in cur:
                    # references inside tuples: values were taken already
                    for s2, c in self.compare(s, "==", x, t, y, t, e):
                        for s3, ok in self.split(s2, c):
                            if ok:
                                nxt.append(s3)
                            else:
                                outs.append((s3, ("i", int(op == "!="))))
                cur = [x for x, _ in merge([(x, None) for x in nxt])]
            return merge(outs + [(s, ("i", int(op == "=="))) for s in cur])
        if fa in ("sp", "wp", "func") or ta is not None and ta.k in ("ptr", "nullptr"):
            return [(st, self.cmp(op, a, b, "p"))]
        if fa in ("vec", "map", "pair"):
            if op == "!=":
                x, y = sorted((a, b), key=repr)
                return [(st, self.neg(("cmp", "==", x, y, "p") if x != y else ("i", 1)))]
            if op == "==":
                x, y = sorted((a, b), key=repr)
                return [(st, ("cmp", "==", x, y, "p") if x != y else ("i", 1))]
            return [(st, ("cmp", op, a, b, "p"))]
        # operators of project classes
        if ta is not None and ta.k == "rec":
            for f in self.P.fns.values():
                if f.name == "operator" + op and f.params and f.kind == "func" and len(f.params) == 2 and \
                        f.params[0]["t"].strip().qn == ta.qn and f.params[0]["t"].strip().s.replace("const ", "") == self.clskey(ta):
                    out = []
                    for s, r in self.invoke(f, st, None, [(V, a, ta, None), (V, b, tb, None)], e):
                        out.append((s, r[1] if r[0] == V else s.get(r[1])))
                    return out
                if f.name == "operator" + op and f.cls == self.clskey(ta) and len(f.params) == 1:
                    st, u = st.uid(("co",) + self.nid(e))
                    st = st.set((("t", u), ()), a)
                    out = []
                    for s, r in self.invoke(f, st, ("ptr", (("t", u), ())), [(V, b, tb, None)], e):
                        out.append((s, r[1] if r[0] == V else s.get(r[1])))
                    return out
        if op in ("==", "!="):
            x, y = sorted((a, b), key=repr)
            t = ("cmp", "==", x, y, "p") if x != y else ("i", 1)
            return [(st, t if op == "==" else self.neg(t))]
        return [(st, ("cmp", op, a, b, "p"))]

    def assume(self, st, t, truth):
        if t[0] == "fin":       # ("fin", value, classes): value is in one of the classes
            c = fcls(t[1], st.facts)
            want = frozenset(t[2])
            n = c & want if truth else c - want
            if not n:
                return None
            if n == c:
                return st
            s = st.nf()
            x = t[1]
            if x[0] == "fneg":
                m = {"nan": "nan", "-inf": "+inf", "+inf": "-inf", "neg": "pos", "pos": "neg", "zero": "zero"}
                n, x = frozenset(m[k] for k in n), x[1]
            if x[0] not in ("i2f", "f"):
                s.facts.fc[x] = n
            return s
        if t[0] == "in":        # ("in", int term, IntSet): membership
            r = rng(t[1], st.facts)
            n = r.inter(t[2] if truth else t[2].compl())
            if n.empty():
                return None
            if n == r:
                return st
            s = st.nf()
            key, sgn = canon(t[1])
            c = t[1][1] if t[1][0] == "lin" else 0
            d = n.shift(-c)
            if sgn < 0:
                d = d.neg()
            old = s.facts.dom.get(key)
            s.facts.dom[key] = d if old is None else old.inter(d)
            return s
        return Engine.assume(self, st, t, truth)

    def boolval(self, st, r):
        """[(state, bool)] of a call result"""
        if r[0] == L:
            v = st.get(r[1])
        else:
            v = r[1]
        return self.split(st, v)

    def period(self, t):
        """tick period of a duration or time_point type"""
        if t is None:
            return None
        if t.qn == "std::chrono::time_point":
            for a in t.ta[1:]:
                if isinstance(a, Ty) and a.qn == "std::chrono::duration":
                    return self.period(a)
            return Fraction(1, 10 ** 9)
        if t.qn == "std::chrono::duration":
            p = t.ta[1] if len(t.ta) > 1 else None
            if isinstance(p, Ty) and p.qn == "std::ratio" and len(p.ta) >= 1:
                return Fraction(int(p.ta[0]), int(p.ta[1]) if len(p.ta) > 1 else 1)
            return Fraction(1)
        return None

    def rescale(self, v, pf, pt):
        if pf is None or pt is None or pf == pt:
            return v
        r = pf / pt
        if r.denominator == 1:
            return mul(strip(v), ("i", r.numerator))
        if r.numerator == 1:
            return binint("/", strip(v), ("i", r.denominator))
        return ("dur", r.numerator, r.denominator, v)

    def durconv(self, v, tf, tt):
        """a duration or time point of type tf as one of type tt"""
        pf, pt = self.period(tf), self.period(tt)
        ff, ft = self.isfloatdur(tf), self.isfloatdur(tt)
        if not ff and not ft:
            return self.rescale(v, pf, pt)
        if not ff:
            v = self.i2f(strip(v))
        if pf is not None and pt is not None and pf != pt:
            r = pf / pt
            v = binfl("/", v, ("f", float(r.denominator))) if r.numerator == 1 else \
                binfl("*", v, ("f", float(r.numerator))) if r.denominator == 1 else ("dur", r.numerator, r.denominator, v)
        return v if ft else ("f2i", 64, True, v)

    def isfloatdur(self, t):
        if t is not None and t.qn == "std::chrono::time_point":
            return any(isinstance(a, Ty) and self.isfloatdur(a.strip()) for a in t.ta[1:])
        return t is not None and self.family(t) == "chrono" and t.ta and isinstance(t.ta[0], Ty) and t.ta[0].k == "float"

    # ---- iterators --------------------------------------------------------------

    def unmv(self, v):
        v = self.valid(v)
        return v[1] if v[0] == "mvit" else v

    def itloc(self, st, it):
        """location an iterator or element pointer denotes"""
        it = self.unmv(it)
        if it[0] == "it":
            return self.child(it[1], it[2])
        if it[0] == "rit":
            return self.child(it[1], add(it[2], ("i", -1)))
        return self.as_loc(it)

    def range(self, st, a, b):
        """(container location, lo, hi, moved) of an iterator pair, or None"""
        mv = a[0] == "mvit"
        a, b = self.unmv(a), self.unmv(b)
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            return a[1], a[2], b[2], mv
        if a[0] in ("ptr", "ptradd", "s", "cstr") and b[0] in ("ptr", "ptradd", "s", "cstr"):
            la, lb = self.as_loc(a), self.as_loc(b)
            if la[0] == lb[0] and la[1][:-1] == lb[1][:-1] and la[1] and lb[1] and la[1][-1][0] == "x":
                return (la[0], la[1][:-1]), la[1][-1][1], lb[1][-1][1], mv
        if a[0] == "rit" and b[0] == "rit" and a[1] == b[1]:
            return None
        ba, oa = self.ptrbase(a)
        bb, ob = self.ptrbase(b)
        if ba == bb and a[0] not in ("it", "rit"):
            l = self.as_loc(ba)
            return l, oa, ob, mv
        return None

    def rangeval(self, st, r, e):
        """value of the elements of a range"""
        loc, lo, hi, mv = r
        v = st.get(loc)
        self.rec(st, loc, "r", e)
        return self.slice(st, v, lo, hi)

    def mkit(self, st, loc, idx, like=None):
        """iterator of the same kind as `like`"""
        if like is not None and self.unmv(like)[0] in ("ptr", "ptradd", "s", "cstr"):
            return self.ptradd(("ptr", (loc[0], loc[1] + (("x", ("i", 0)),))), idx)
        it = ("it", loc, idx)
        return ("mvit", it) if like is not None and like[0] == "mvit" else it

    def itadd(self, it, n):
        if it[0] == "mvit":
            return ("mvit", self.itadd(it[1], n))
        if it[0] == "it":
            return ("it", it[1], add(it[2], n))
        if it[0] == "rit":
            return ("rit", it[1], sub(it[2], n))
        return self.ptradd(it, n)

    def each(self, st, tag, n, body, e):
        """body(state, k) -> [(state, None | result)] for k in 0..n-1, leaving
        the loop with the first result; [(state, result | None)]"""
        kroot = ("v", self.fr.ctx, ("ek", tag, e.get("i", 0) if isinstance(e, dict) else 0))
        kloc = (kroot, ())
        st = st.set(kloc, ("i", 0))

        def it(z):
            conts, exits = [], []
            k = z.get(kloc)
            for s1, b in self.split(z, self.cmp("<", k, n, "i")):
                if not b:
                    exits.append((s1, "end"))
                    continue
                for s2, r in body(s1, k):
                    if r is None:
                        conts.append(s2.set(kloc, add(k, ("i", 1))))
                    else:
                        exits.append((s2, ("ret", r)))
            return conts, exits
        out = []
        for s, c in self.loop(st, ("each", tag) + self.nid(e), it, e):
            s = s.copy()
            s.store.pop(kroot, None)
            out.append((s, c[1] if c is not None else None))
        return merge(out)

    def algrange(self, st, a, b, e):
        r = self.range(st, a, b)
        if r is None:
            self.bad("iterator range", e)
        return r

    def elem(self, loc, lo, k, ty):
        return (L, self.child(loc, add(lo, k)), ty, "l")

    def itelty(self, t):
        """element type of an iterator type"""
        if t is None:
            return None
        t = t.strip()
        if t.k == "ptr":
            return t.pt
        for a in t.ta:
            if isinstance(a, Ty):
                if a.k == "ptr":
                    return a.pt
                if self.family(a) in ("it",):
                    return self.itelty(a)
                return a
        return None

    def pred(self, st, f, args, e):
        out = []
        for s, r in self.call_value(st, f, args, e, None):
            out += self.boolval(s, r)
        return merge(out)

    # ======================= construction =========================================

    def std_construct(self, st, loc, e):
        t = e["t"]
        fn = e["fn"]
        out = []
        for s, args in self.args(e["a"], st):
            out += self.build(s, loc, t, list(args), e, fn)
        return out

    def value_of_copy(self, st, a, e, move):
        """(state, value) for copying/moving from an argument"""
        if a[0] == V:
            return st, a[1]
        v = self.load(st, a[1], a[2], e)
        if move:
            st = self.moved_from(st, a[1], e)
        return st, v

    def is_rvalue(self, a):
        return a[0] == V or len(a) > 3 and a[3] == "x"

    def build(self, st, loc, t, args, e, fn=None):
        """[state]: an object of type t constructed at loc from evaluated arguments"""
        t = t.strip()
        # drop allocators and defaulted tags
        args = [a for a in args if not (a[2] is not None and a[2].strip().k == "rec" and a[2].strip().qn in
                                        ("std::allocator", "std::piecewise_construct_t"))]
        fam = self.family(t)
        n = len(args)
        if t.k != "rec":
            if n == 0:
                return [st.set(loc, self.typed(ZEROV, t))]
            v = self.aval(st, args[0], e)
            if t.k == "float" and args[0][2] is not None and args[0][2].strip().k == "int":
                v = self.i2f(v)
            return [st.set(loc, v)]
        same = n == 1 and args[0][2] is not None and (args[0][2].strip().qn == t.qn)
        if same and fam == "chrono" and (self.period(args[0][2].strip()) != self.period(t) or
                                         self.isfloatdur(args[0][2].strip()) != self.isfloatdur(t)):
            same = False
        if t.qn in CMPF or t.qn in ("std::hash", "std::plus", "std::minus", "std::allocator", "std::default_delete",
                                    "std::multiplies", "std::logical_not"):
            return [st.set(loc, ("functor", t.qn))]
        if same and (self.clsinfo(t) is not None or fam in ("vec", "str", "map", "func", "pair", "it", "rit", "wp", "chrono", "future", "locale", "bins", "opt", None)) or \
                same and fam == "sp":
            mv = self.is_rvalue(args[0])
            st2, v = self.value_of_copy(st, args[0], e, mv and args[0][0] == L)
            if fam in ("vec", "str", "map") and not mv:
                self.alloc(st, e)
            if args[0][0] == L and ("del", args[0][1]) in st.store:
                st2 = st2.copy()
                st2.store[("del", loc)] = st2.store[("del", args[0][1])]
            return [st2.set(loc, v)]
        if self.clsinfo(t) is not None:
            return self.build_project(st, loc, t, args, e)
        m = getattr(self, "mk_" + fam, None) if fam else None
        if m is not None:
            r = m(st, loc, t, args, e)
            if r is not None:
                return r
        if t.qn and (t.qn in EXC_BASES or t.qn == "std::exception"):
            self.alloc(st, e)
            return [st.set(loc, ("exc", t.qn, self.argvals(st, args)))]
        if n == 0 and (t.qn or "").startswith("std::"):
            return [st.set(loc, self.typed(ZEROV, t) if fam else ("newobj", t.qn, (), 0))]
        if n == 0:
            return [st.set(loc, ("undef", t.s))]
        self.unknown.add((t.qn, "ctor", self.site(e)))
        vals = self.argvals(st, args)
        st, r = self.ext(st, (t.qn or t.s) + "::ctor", vals, e)
        self.may_throw(st, "lib", self.site(e))
        return [st.set(loc, ("newobj", t.qn, vals, r[3]))]

    def build_project(self, st, loc, t, args, e):
        key = self.clskey(t)
        c = self.clsinfo(t)
        cands = []
        for f in self.P.methods_of(key):
            if f.kind != "ctor":
                continue
            req = sum(1 for p in f.params if p.get("def") is None)
            if req <= len(args) <= len(f.params):
                cands.append(f)
        if len(args) != 1 or args[0][2] is None or args[0][2].strip().qn != t.qn:
            cands = [f for f in cands if not (len(f.params) >= 1 and f.params[0]["t"].isref() and
                                              f.params[0]["t"].strip().qn == t.qn and len(args) == 1)]
        if len(cands) > 1:
            def fits(f):
                sc = 0
                for p, a in zip(f.params, args):
                    pt, at = p["t"].strip(), a[2].strip() if a[2] is not None else None
                    if at is None:
                        continue
                    if pt.k == at.k and pt.qn == at.qn:
                        sc += 2
                    elif pt.k in ("int", "float", "bool", "enum") and at.k in ("int", "float", "bool", "enum"):
                        sc += 1
                return sc
            cands.sort(key=fits, reverse=True)
            cands = cands[:1]
        if not cands:
            if not args:
                return self.default_fields(st, loc, t, True)
            # aggregate
            outs = [st.set(loc, ("obj", key, ()))]
            for fd, a in zip(c["fields"], args):
                outs = [s.set(self.fld(loc, fd["name"]), self.aval(s, a, e)) for s in outs]
            return outs
        f = cands[0]
        if f.body is None and not f.inits and f.implicit and not args:
            return self.default_fields(st, loc, t, True)
        return [s for s, _ in self.invoke(f, st, self.addr(loc) if loc[0][0] == "p" else ("ptr", loc),
                                          self.convargs(st, f, args, e), e)]

    def convargs(self, st, f, args, e):
        """arguments of forwarding calls, converted to the parameter types"""
        out = []
        for p, a in zip(f.params, args):
            pt = p["t"].strip()
            at = a[2].strip() if a[2] is not None else None
            if at is not None and pt.k == "float" and at.k in ("int", "bool", "enum"):
                out.append((V, self.i2f(self.aval(st, a, e)), pt, None))
            elif at is not None and self.family(pt) == "str" and self.isstr(at) and self.family(at) != "str":
                out.append((V, self.sval(st, a, e), pt, None))
            else:
                out.append(a)
        return out

    def mk_str(self, st, loc, t, args, e):
        n = len(args)
        if n == 0:
            return [st.set(loc, EMPTY)]
        self.alloc(st, e)
        a0 = args[0]
        t0 = a0[2].strip() if a0[2] is not None else None
        if n == 1:
            if self.family(t0) == "vec" and t0.qn == "std::initializer_list":
                v = self.aval(st, a0, e)
                return [st.set(loc, mkseq(tuple(self.onechar(p[1]) if p[0] == "one" else p for p in parts(v))))]
            return [st.set(loc, self.sval(st, a0, e))]
        if n == 2:
            v0, v1 = self.aval(st, a0, e), self.aval(st, args[1], e)
            if t0.k == "ptr" and args[1][2].strip().k == "int":
                return [st.set(loc, self.bufval(st, v0, strip(v1)))]
            if t0.k == "int":
                return [st.set(loc, mkseq((("rep", v0, v1),)))]
            if self.family(t0) == "str":
                v = v0
                return [s.set(loc, self.slice(s, v, v1, hi)) for s, hi in self.clamp(st, v, v1, ("i", NPOS))]
            r = self.range(st, v0, v1)
            if r is not None:
                return [st.set(loc, self.rangeval(st, r, e))]
        if n == 3 and self.family(t0) == "str":
            v, p, c = [self.aval(st, a, e) for a in args]
            return [s.set(loc, self.slice(s, v, p, hi)) for s, hi in self.clamp(st, v, p, c)]
        return None

    def mk_vec(self, st, loc, t, args, e):
        n = len(args)
        et = self.elty(t)
        if n == 0:
            return [st.set(loc, EMPTY)]
        self.alloc(st, e)
        t0 = args[0][2].strip() if args[0][2] is not None else None
        if n == 1:
            v = self.aval(st, args[0], e)
            if t0 is not None and t0.k == "int":
                return [st.set(loc, mkseq((("rep", v, self.typed(ZEROV, et)),)))]
            return [st.set(loc, v if v[0] != "zero" else EMPTY)]
        if n == 2:
            v0, v1 = self.aval(st, args[0], e), self.aval(st, args[1], e)
            if t0 is not None and t0.k in ("int", "enum"):
                return [st.set(loc, mkseq((("rep", v0, v1),)))]
            r = self.range(st, v0, v1)
            if r is not None:
                return [st.set(loc, self.rangeval(st, r, e))]
        return None

    def mk_map(self, st, loc, t, args, e):
        def plain(a):
            t = a[2].strip() if a[2] is not None else None
            if t is not None and t.k == "ref":
                t = t.pt.strip()
            return t is None or t.k != "rec" or t.qn not in ("std::less", "std::hash", "std::equal_to", "std::allocator")
        args = [a for a in args if plain(a)]
        if not args:
            return [st.set(loc, EMPTY)]
        self.alloc(st, e)
        if len(args) == 1 and (self.family(args[0][2]) == "vec" or args[0][2] is not None and args[0][2].strip().k == "array"):
            v = self.aval(st, args[0], e)
            cur = [st.set(loc, EMPTY)]
            if v == EMPTY or v[0] == "zero":
                return cur
            if v[0] == "seq" and all(p[0] == "one" for p in v[1]):
                for p in v[1]:
                    nxt = []
                    for s in cur:
                        k, x = (proj(p[1], ("f", "first")), proj(p[1], ("f", "second")))
                        for s2, pos, ins in self.map_insert(s, loc, k, x, e, quiet=True):
                            nxt.append(s2)
                    cur = nxt
                return cur
        if len(args) == 2:
            r = self.range(st, self.aval(st, args[0], e), self.aval(st, args[1], e))
            if r is not None:
                return [st.set(loc, self.rangeval(st, r, e))]
        return None

    def mk_sp(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, NULL)]
        a = args[0]
        at = a[2].strip() if a[2] is not None else None
        if t.qn == "std::reference_wrapper":
            s, l = self.aloc(st, a, self.nid(e))
            return [s.set(loc, self.addr(l))]
        v = self.aval(st, a, e)
        if v[0] == "zero" or at is not None and at.k == "nullptr":
            v = NULL
        if at is not None and self.family(at) == "sp" and a[0] == L and self.is_rvalue(a):
            if ("del", a[1]) in st.store:
                st = st.copy()
                st.store[("del", loc)] = st.store[("del", a[1])]
            st = self.moved_from(st, a[1], e)
        st = st.set(loc, v)
        if len(args) > 1:
            d = self.aval(st, args[1], e)
            st = st.copy()
            st.store[("del", loc)] = d
        if t.qn == "std::shared_ptr":
            self.alloc(st, e)
        return [st]

    def mk_wp(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, NULL)]
        return [st.set(loc, self.aval(st, args[0], e))]

    def mk_func(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, NULL)]
        self.alloc(st, e)
        st2, v = self.value_of_copy(st, args[0], e, self.is_rvalue(args[0]) and args[0][0] == L)
        return [st2.set(loc, v if v[0] != "zero" else NULL)]

    def mk_pair(self, st, loc, t, args, e):
        tys = [a for a in t.ta if isinstance(a, Ty)]
        names = ("first", "second") if t.qn == "std::pair" else tuple(range(len(tys)))
        tag = "pair" if t.qn == "std::pair" else "tuple"
        if not args:
            outs = [st.set(loc, ("obj", tag, ()))]
            for n, ty in zip(names, tys):
                outs = [s2 for s in outs for s2 in self.build(s, self.pf(loc, n), ty, [], e)]
            return outs
        if len(args) == 1 and len(tys) != 1:
            v = self.aval(st, args[0], e)
            return [st.set(loc, v)]
        outs = [st.set(loc, ("obj", tag, ()))]
        for n, ty, a in zip(names, tys, args):
            nxt = []
            for s in outs:
                if ty.isref():
                    nxt.append(s.set(self.pf(loc, n), self.addr(a[1]) if a[0] == L else a[1]))
                else:
                    nxt += self.build(s, self.pf(loc, n), ty, [a], e)
            outs = nxt
        return outs

    def pf(self, loc, n):
        return (loc[0], loc[1] + ((("f", n) if isinstance(n, str) else ("x", ("i", n))),))

    def mk_it(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("undef", loc))]
        v = self.aval(st, args[0], e)
        if t.qn == "std::move_iterator" and v[0] != "mvit":
            v = ("mvit", v)
        return [st.set(loc, v)]

    def mk_rit(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("undef", loc))]
        v = self.aval(st, args[0], e)
        if v[0] == "it":
            v = ("rit", v[1], v[2])
        return [st.set(loc, v)]

    def mk_bins(self, st, loc, t, args, e):
        s, l = self.aloc(st, args[0], self.nid(e))
        return [s.set(loc, ("bins", l))]

    def mk_atomic(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ZEROV)]
        return [st.set(loc, self.aval(st, args[0], e))]

    def mk_mutex(self, st, loc, t, args, e):
        return [st.set(loc, ZEROV)]

    def mk_chrono(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("i", 0))]
        v = self.aval(st, args[0], e)
        if v[0] == "zero":
            v = ("i", 0)
        at = args[0][2].strip() if args[0][2] is not None else None
        if self.family(at) == "chrono":
            v = self.durconv(v, at, t)
        elif at is not None and self.isfloatdur(t) and at.k == "int":
            v = self.i2f(strip(v))
        return [st.set(loc, v)]

    def mk_future(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("undef", "future"))]
        return [st.set(loc, self.aval(st, args[0], e))]

    def mk_locale(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("glocale",))]
        return [st.set(loc, ("locale", self.argvals(st, args)))]

    def mk_os(self, st, loc, t, args, e):
        c = EMPTY
        if args and self.isstr(args[0][2]):
            c = self.sval(st, args[0], e)
        self.alloc(st, e)
        return [st.set(loc, ("obj", STREAM, (("@content", c), ("@prec", ("i", 6)), ("@flags", ("i", DEFFLAGS)),
                                             ("@loc", ("glocale",)), ("@width", ("i", 0)), ("@fill", ("i", 32)))))]

    def mk_guard(self, st, loc, t, args, e):
        if not args:
            return [st.set(loc, ("guard", (), 0))]
        ms, mode, defer = [], "x", 0
        shared = t.qn == "std::shared_lock"
        for a in args:
            at = a[2].strip() if a[2] is not None else None
            if at is not None and at.k == "rec" and at.qn in ("std::adopt_lock_t", "std::defer_lock_t", "std::try_to_lock_t"):
                mode = at.qn
                continue
            if a[0] == L:
                ms.append(a[1])
            else:
                ms.append(self.as_loc(a[1]))
        if mode == "std::defer_lock_t":
            return [st.set(loc, ("guard", tuple(ms), 0))]
        if mode == "std::adopt_lock_t":
            return [st.set(loc, ("guard", tuple(ms), 1))]
        out = []
        if mode == "std::try_to_lock_t":
            out.append(st.set(loc, ("guard", tuple(ms), 0)))
        for m in ms:
            st = self.acquire(st, m, e, "s" if shared else "x")
        out.append(st.set(loc, ("guard", tuple(ms), 1)))
        return out

    def acquire(self, st, m, e, mode="x"):
        held = self.locknames(st)
        site = self.site(e)
        st = st.ev("lock", m, held, site, tuple(f.fn.qn for f in self.frames))
        st.locks = st.locks + ((m, None, mode),)
        self.onlock(m, held, st, site)
        return st

    def onlock(self, m, held, st, site):
        pass

    def release(self, st, m, e):
        for i in range(len(st.locks) - 1, -1, -1):
            if st.locks[i][0] == m:
                st = st.ev("unlock", m, self.site(e or {}))
                st.locks = st.locks[:i] + st.locks[i + 1:]
                return st
        return st.ev("badunlock", m, self.site(e or {}))

    def guard_release(self, st, loc, e):
        v = st.get(loc)
        if v[0] == "guard" and v[2]:
            for m in reversed(v[1]):
                st = self.release(st, m, e)
        return st

    # ======================= methods ================================================

    def std_method(self, st, fn, o, args, e):
        cls, name = fn["qn"].rsplit("::", 1)
        if " " in cls and "operator " in fn["qn"]:
            i = fn["qn"].index("::operator ")
            cls, name = fn["qn"][:i], fn["qn"][i + 2:]
        args = list(args)
        fam = self.FAMS.get(cls)
        if fam is None:
            fam = self.family(self.objty(e))
        if name.startswith("~"):
            return [(s, (V, ("void",))) for s in self.destroy(st, o, self.objty(e), e)]
        m = getattr(self, "m_" + fam, None) if fam else None
        if m is not None:
            r = m(st, fn, name, o, args, e)
            if r is not None:
                return r
        if cls in CMPF or cls in ("std::hash", "std::__str_hash_base", "std::plus", "std::minus", "std::default_delete") and name == "operator()":
            return self.call_functor(st, ("functor", cls), args, e)
        if cls.startswith("std::exception") or cls in EXC_BASES:
            return [(st, (V, ("what", st.get(o))))]
        return self.unknown_method(st, fn, o, args, e)

    def unknown_method(self, st, fn, o, args, e):
        qn = fn["qn"]
        std = qn.startswith(("std::", "__gnu_cxx::"))
        if std:
            self.unknown.add((qn, len(args), self.site(e)))
        vals = (self.addr(o),) + self.argvals(st, args)
        self.rec(st, o, "r" if fn.get("const") else "w", e)
        st, r = self.ext(st, qn, vals, e)
        if std and not fn.get("const"):
            st = st.set(o, ("havoc", qn, r[3]))
        if not qn.startswith("CivetServer::"):      # keeps the pointers it is given
            st = self.havoc_args(st, fn, args, r[3], e)
        self.may_throw(st, "lib", self.site(e))
        return [(st, self.resval(st, fn, r, e))]

    def resval(self, st, fn, r, e):
        t = e.get("t")
        if t is not None and t.k in ("int", "bool", "enum") and r not in NAT:
            NAT[r] = BOOL if t.k == "bool" else width_range(t.w or 32, t.sg if t.k == "int" else 1)
        return (V, r)

    def havoc_args(self, st, fn, args, u, e):
        ps = fn.get("params") or []
        for i, a in enumerate(args):
            pt = ps[i] if i < len(ps) else None
            if a[0] == L and pt is not None and pt.isref() and not pt.pt.const and pt.k == "ref":
                self.rec(st, a[1], "w", e)
                st = st.set(a[1], ("havoc", fn["qn"], (u, i)))
            elif a[0] == V and pt is not None and pt.k == "ptr" and pt.pt is not None and not pt.pt.const and \
                    a[1][0] in ("ptr", "ptradd") and pt.pt.k != "fn":
                l = self.as_loc(a[1])
                if l[1] and l[1][-1][0] == "x" and pt.pt.k in ("int", "float", "void"):
                    base = (l[0], l[1][:-1])
                    v = st.get(base)
                    self.rec(st, base, "w", e)
                    st = st.set(base, ("filled", v, fn["qn"], (u, i)))
                else:
                    self.rec(st, l, "w", e)
                    st = st.set(l, ("havoc", fn["qn"], (u, i)))
            elif a[0] == V and pt is None and a[1][0] == "ptr" and a[1][1][0][0] in "vt":
                # variadic out parameters
                t = a[2]
                if t is not None and t.k == "ptr" and t.pt is not None and not t.pt.const:
                    self.rec(st, a[1][1], "w", e)
                    h = ("havoc", fn["qn"], (u, i))
                    if t.pt.k == "int":
                        NAT[h] = width_range(t.pt.w, t.pt.sg)
                    st = st.set(a[1][1], h)
        return st

    def recsz(self, st, o, e):
        """reads the structure of a container, not its elements"""
        self.rec(st, (o[0], o[1] + (("f", "@size"),)), "r", e)

    def size_of(self, st, o, e):
        self.recsz(st, o, e)
        return sizeof(st.get(o))

    def m_common(self, st, fn, name, o, args, e):
        """operations shared by sequences, strings and maps"""
        if name in ("size", "length"):
            return [(st, (V, self.size_of(st, o, e)))]
        if name == "empty":
            return [(st, (V, self.cmp("==", self.size_of(st, o, e), ("i", 0), "i")))]
        if name in ("begin", "cbegin"):
            self.recsz(st, o, e)
            return [(st, (V, ("it", o, ("i", 0))))]
        if name in ("end", "cend"):
            return [(st, (V, ("it", o, self.size_of(st, o, e))))]
        if name in ("rbegin", "crbegin"):
            return [(st, (V, ("rit", o, self.size_of(st, o, e))))]
        if name in ("rend", "crend"):
            return [(st, (V, ("rit", o, ("i", 0))))]
        if name == "clear":
            return [(self.save(self.invalidate(st, o, e), o, EMPTY, e), (V, ("void",)))]
        if name in ("capacity", "max_size", "max_load_factor", "get_allocator"):
            st, u = self.fresh(st, "cap", e)
            return [(st, (V, ("call", fn["qn"], (), u)))]
        if name in ("shrink_to_fit", "reserve", "rehash"):
            self.rec(st, o, "w", e)
            self.alloc(st, e)
            if self.family(self.objty(e)) != "map":
                st = self.invalidate(st, o, e)
            return [(st, (V, ("void",)))]
        if name == "swap":
            l = args[0][1]
            a, b = st.get(o), st.get(l)
            return [(self.save(self.save(st, o, b, e), l, a, e), (V, ("void",)))]
        if name == "operator=":
            a = args[0]
            st2, v = self.value_of_copy(st, a, e, self.is_rvalue(a) and a[0] == L)
            if self.family(self.objty(e)) == "str":
                v = self.sval(st, a, e)
            if v[0] == "zero":
                v = EMPTY
            self.alloc(st, e)
            return [(self.save(self.invalidate(st2, o, e), o, v, e), (L, o))]
        return None

    def wr(self, st, o, v, e):
        self.alloc(st, e)
        return self.save(st, o, v, e)

    def present(self, st, i, n):
        st = assume_int(st, ">=", i, ("i", 0))
        return st and assume_int(st, "<", i, n)

    def m_vec(self, st, fn, name, o, args, e):
        t = self.objty(e)
        et = self.elty(t)
        arr = t is not None and t.qn == "std::array"
        if arr:
            self.stdarr[o[1][-1:] or o] = ("i", t.ta[1])
        if arr:
            n = t.ta[1] if len(t.ta) > 1 else 0
            if name == "size":
                return [(st, (V, ("i", n)))]
            if name in ("begin", "cbegin", "data"):
                return [(st, (V, ("ptr", self.child(o, ("i", 0)))))]
            if name in ("end", "cend"):
                return [(st, (V, ("ptr", self.child(o, ("i", n)))))]
            if name == "back":
                return [(st, (L, self.child(o, ("i", n - 1))))]
            if name == "empty":
                return [(st, (V, ("i", int(n == 0))))]
            if name == "fill":
                return [(self.save(st, o, mkseq((("rep", ("i", n), self.aval(st, args[0], e)),)), e), (V, ("void",)))]
        if name in ("operator[]", "at"):
            x = self.aval(st, args[0], e)
            l = self.child(o, strip(x))
            if not arr:
                self.recsz(st, o, e)
            st = st.ev("index", o, strip(x), ("i", t.ta[1]) if arr else sizeof(st.get(o)), self.site(e)) if self.log_index else st
            if name == "at":
                self.may_throw(st, "lib", self.site(e))
                if self.mem:
                    st = self.present(st, strip(x), ("i", t.ta[1]) if arr else sizeof(st.get(o)))
                    if st is None:
                        return []
            return [(st, (L, l))]
        if name == "front":
            return [(st, (L, self.child(o, ("i", 0))))]
        if name == "back":
            return [(st, (L, self.child(o, add(self.size_of(st, o, e), ("i", -1)))))]
        if name == "data":
            return [(st, (V, ("ptr", self.child(o, ("i", 0)))))]
        v = st.get(o)
        if name in ("push_back", "emplace_back"):
            out = []
            for s, x in self.newelem(st, et, args, e):
                s2 = self.wr(self.invalidate(s, o, e), o, mkseq(parts(s.get(o)) + (("one", x),)), e)
                n = sizeof(s.get(o))
                out.append((s2, (L, self.child(o, n)) if name == "emplace_back" else (V, ("void",))))
            return out
        if name == "pop_back":
            n = sizeof(v)
            self.within(st, o, ("i", 1), n, n, e)
            st = self.invalidate(st, o, e, add(n, ("i", -1)))
            return [(self.save(st, o, self.slice(st, v, ("i", 0), add(n, ("i", -1))), e), (V, ("void",)))]
        if name in ("insert", "emplace"):
            p = self.unmv(self.aval(st, args[0], e))
            if p[0] != "it":
                return None
            idx = p[2]
            self.within(st, o, idx, sizeof(v), sizeof(v), e)
            out = []
            if name == "insert" and len(args) == 3 and not (args[1][2].strip().k == "int"):
                r = self.range(st, self.aval(st, args[1], e), self.aval(st, args[2], e))
                if r is None:
                    self.bad("iterator range", e)
                x = self.rangeval(st, r, e)
                mid = parts(x)
                news = [(st, mid)]
                if r[3]:
                    news = [(self.save(st, r[0], ("moved", st.get(r[0])), e), mid)]
            elif name == "insert" and len(args) == 3:
                n = self.aval(st, args[1], e)
                news = [(st, (("rep", n, self.aval(st, args[2], e)),))]
            elif name == "insert" and self.family(args[1][2]) == "vec":
                news = [(st, parts(self.aval(st, args[1], e)))]
            else:
                news = [(s, (("one", x),)) for s, x in self.newelem(st, et, args[1:], e)]
            for s, mid in news:
                v = s.get(o)
                s = self.invalidate(s, o, e)
                pre = self.slice(s, v, ("i", 0), idx)
                suf = self.slice(s, v, idx, sizeof(v))
                out.append((self.wr(s, o, mkseq(parts(pre) + tuple(mid) + parts(suf)), e), (V, ("it", o, idx))))
            return out
        if name == "erase":
            a = self.unmv(self.aval(st, args[0], e))
            if a[0] != "it":
                return None
            lo = a[2]
            hi = self.unmv(self.aval(st, args[1], e))[2] if len(args) > 1 else add(lo, ("i", 1))
            self.within(st, o, lo, hi, sizeof(v), e)
            pre = self.slice(st, v, ("i", 0), lo)
            suf = self.slice(st, v, hi, sizeof(v))
            st = self.invalidate(st.ev("erase", o, lo, hi, self.site(e)), o, e, lo)
            own = self.owned(st, o, lo, e) if len(args) == 1 and self.mem else None
            if own is not None:
                st = self.freed(st, own, e)
            n = mkseq(parts(pre) + parts(suf))
            return [(self.save(st, o, n, e), (V, ("it", o, lo)))]
        if name in ("resize", "assign"):
            st = self.invalidate(st, o, e)
            if name == "assign" and len(args) == 2 and args[0][2].strip().k != "int":
                r = self.range(st, self.aval(st, args[0], e), self.aval(st, args[1], e))
                return [(self.wr(st, o, self.rangeval(st, r, e), e), (V, ("void",)))]
            n = strip(self.aval(st, args[0], e))
            x = self.aval(st, args[1], e) if len(args) > 1 else self.typed(ZEROV, et) if et is not None else ("i", 0)
            if name == "assign":
                return [(self.wr(st, o, mkseq((("rep", n, x),)), e), (V, ("void",)))]
            old = sizeof(v)
            if n == ("i", 0):
                return [(self.save(st, o, EMPTY, e), (V, ("void",)))]
            return self.resize(st, o, v, n, x, e)
        return self.m_common(st, fn, name, o, args, e)

    log_index = False

    def newelem(self, st, et, args, e):
        """[(state, value)] of a new element built from args"""
        if et is None:
            return [(st, self.aval(st, args[0], e))]
        st, u = self.fresh(st, "ne", e)
        root = ("t", u)
        out = []
        for s in self.build(st, (root, ()), et, list(args), e):
            v = s.get((root, ()))
            s = s.copy()
            s.store.pop(root, None)
            s.store.pop(("del", (root, ())), None)
            out.append((s, v))
        return out

    # ---- strings --------------------------------------------------------------

    def strarg(self, st, args, e):
        """[(state, string value)] for the (str | str,pos,n | cstr | cstr,n | n,c | it,it) overloads"""
        a = args[0]
        t = a[2].strip() if a[2] is not None else None
        if len(args) == 1:
            if self.family(t) == "vec":
                v = self.aval(st, a, e)
                return [(st, mkseq(tuple(self.onechar(p[1]) if p[0] == "one" else p for p in parts(v))))]
            return [(st, self.sval(st, a, e))]
        v = self.aval(st, a, e)
        b = self.aval(st, args[1], e)
        if self.family(t) == "str":
            n = self.aval(st, args[2], e) if len(args) > 2 else ("i", NPOS)
            return [(s, self.slice(s, v, b, hi)) for s, hi in self.clamp(st, v, b, n)]
        if t.k == "int":
            if v[0] == "i" and b[0] == "i" and v[1] < 10000:
                return [(st, ("s", bytes([b[1] & 255]) * v[1]))]
            if v == ("i", 1):
                return [(st, mkseq((self.onechar(b),)))]
            return [(st, mkseq((("rep", v, b),)))]
        r = self.range(st, v, b)
        if r is not None:
            return [(st, self.rangeval(st, r, e))]
        if t.k == "ptr":
            return [(st, self.bufval(st, v, strip(b)))]
        self.bad("string argument", e)

    def m_str(self, st, fn, name, o, args, e):
        v = st.get(o)
        if v[0] == "zero":
            v = EMPTY
        R = lambda: self.rec(st, o, "r", e)
        if name in ("operator[]", "at"):
            x = strip(self.aval(st, args[0], e))
            if name == "at":
                self.may_throw(st, "lib", self.site(e))
                if self.mem:
                    st = self.present(st, x, sizeof(v))
                    if st is None:
                        return []
            return [(st, (L, self.child(o, x)))]
        if name == "front":
            return [(st, (L, self.child(o, ("i", 0))))]
        if name == "back":
            return [(st, (L, self.child(o, add(sizeof(v), ("i", -1)))))]
        if name in ("c_str", "data"):
            R()
            return [(st, (V, ("cstr", v, o)))]
        if name in ("append", "operator+=", "push_back", "assign", "operator="):
            if name == "operator=" and self.family(args[0][2]) == "str" and args[0][0] == L and self.is_rvalue(args[0]):
                v2 = self.aval(st, args[0], e)
                s2 = self.moved_from(st, args[0][1], e)
                return [(self.save(s2, o, v2, e), (L, o))]
            out = []
            for s, x in self.strarg(st, args, e):
                base = () if name in ("assign", "operator=") else parts(s.get(o) if s.get(o)[0] != "zero" else EMPTY)
                out.append((self.wr(s, o, self.norm(mkseq(base + parts(x))), e), (L, o) if name != "push_back" else (V, ("void",))))
            return out
        if name == "pop_back":
            self.within(st, o, ("i", 1), sizeof(v), sizeof(v), e)
            return [(self.save(st, o, self.slice(st, v, ("i", 0), add(sizeof(v), ("i", -1))), e), (V, ("void",)))]
        if name == "substr":
            R()
            pos = strip(self.aval(st, args[0], e)) if args else ("i", 0)
            n = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", NPOS)
            if pos != ("i", 0):
                # substr throws when pos > size
                out = []
                for s, bad in self.split(st, self.cmp(">", pos, sizeof(v), "i")):
                    if bad:
                        self.throw(s.ev("throws", "own", self.site(e)), Exc("std::out_of_range", self.site(e), "own"))
                    else:
                        out += [(s2, (V, self.slice(s2, v, pos, hi))) for s2, hi in self.clamp(s, v, pos, n)]
                return out
            return [(s, (V, self.slice(s, v, pos, hi))) for s, hi in self.clamp(st, v, pos, n)]
        if name == "compare":
            R()
            if len(args) == 1:
                return [(st, (V, ("scmp", v, self.sval(st, args[0], e))))]
            pos, n = strip(self.aval(st, args[0], e)), strip(self.aval(st, args[1], e))
            out = []
            for s, hi in self.clamp(st, v, pos, n):
                x = self.slice(s, v, pos, hi)
                for s2, y in self.strarg(s, args[2:], e):
                    cx, cy = cstr(x), cstr(y)
                    r = ("scmp", x, y)
                    if cx is not None and cy is not None:
                        r = ("i", (cx > cy) - (cx < cy))
                    out.append((s2, (V, r)))
            return out
        if name in ("find", "rfind"):
            R()
            pos = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", 0 if name == "find" else NPOS)
            y = self.sval(st, args[0], e)
            if len(args) > 2:
                y = self.bufval(st, self.aval(st, args[0], e), self.aval(st, args[2], e))
            return self.sfind(st, name, v, y, pos, e)
        if name in ("find_first_not_of", "find_first_of", "find_last_of", "find_last_not_of"):
            R()
            y = self.sval(st, args[0], e)
            cs = cstr(y)
            pos = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", 0)
            if cs is not None and name.startswith("find_first"):
                S = IntSet([(b - 256 if b > 127 else b,) * 2 for b in set(cs)])
                want = name == "find_first_of"
                et = fn.get("et")

                def body(s, k):
                    out = []
                    p = add(pos, k)
                    c = self.typed(s.get(self.child(o, p)), self.chart())
                    for s2, b in self.split(s, ("in", c, S)):
                        out.append((s2, p if b == want else None))
                    return out
                out = []
                for s, r in self.each(st, ("ff", name), sub(sizeof(v), pos), body, e):
                    out.append((s, (V, r if r is not None else ("i", NPOS))))
                return out
            st, u = self.fresh(st, "sf", e)
            t = ("sfind", name, v, y, pos)
            NAT[t] = IntSet([(0, 1 << 62), (NPOS, NPOS)])
            return [(st, (V, t))]
        if name in ("starts_with", "ends_with", "contains"):
            R()
            y = self.sval(st, args[0], e)
            cy = cstr(y)
            if name == "starts_with" and cy is not None:
                return [(st, (V, ("pre", v, ("i", 0), cy) if cy else ("i", 1)))]
            return [(st, (V, ("strtest", name, v, y)))]
        if name == "erase":
            if args and self.family(args[0][2]) == "it":
                return self.m_vec_erase(st, o, v, args, e)
            pos = strip(self.aval(st, args[0], e)) if args else ("i", 0)
            n = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", NPOS)
            out = []
            for s, hi in self.clamp(st, v, pos, n):
                nv = mkseq(parts(self.slice(s, v, ("i", 0), pos)) + parts(self.slice(s, v, hi, sizeof(v))))
                out.append((self.save(s, o, nv, e), (L, o)))
            return out
        if name == "insert":
            p = self.aval(st, args[0], e)
            idx = p[2] if p[0] == "it" else strip(p)
            out = []
            for s, x in self.strarg(st, args[1:], e):
                nv = mkseq(parts(self.slice(s, v, ("i", 0), idx)) + parts(x) + parts(self.slice(s, v, idx, sizeof(v))))
                out.append((self.wr(s, o, nv, e), (L, o)))
            return out
        if name == "resize":
            n = strip(self.aval(st, args[0], e))
            c = self.aval(st, args[1], e) if len(args) > 1 else ("i", 0)
            return self.resize(st, o, v, n, c, e)
        if name == "replace" and len(args) >= 3:
            return None
        if name == "operator basic_string_view" or name.startswith("operator "):
            return [(st, (V, v))]
        return self.m_common(st, fn, name, o, args, e)

    _chart = None

    def chart(self):
        if Interp._chart is None:
            t = Ty()
            t.s, t.k, t.w, t.sg, t.char = "char", "int", 8, 1, 1
            Interp._chart = t
        return Interp._chart

    def norm(self, v):
        """joins neighbouring constant parts"""
        if v[0] != "seq":
            return v
        out = []
        for p in v[1]:
            if p[0] == "one" and p[1][0] == "i":
                p = ("lit", bytes([p[1][1] & 255]))
            if p[0] == "all" and p[1][0] == "s":
                p = ("lit", p[1][1])
            out.append(p)
        return mkseq(out)

    def sfind(self, st, name, v, y, pos, e):
        cv, cy = cstr(v), cstr(y)
        if cv is not None and cy is not None and pos[0] == "i":
            r = cv.find(cy, pos[1]) if name == "find" else cv.rfind(cy)
            return [(st, (V, ("i", r if r >= 0 else NPOS)))]
        if cv is not None and pos == ("i", 0) and name == "find" and y[0] == "seq" and len(y[1]) == 1 and y[1][0][0] == "one":
            # one character in a constant set of characters
            x = y[1][0][1]
            S = IntSet([(b - 256 if b > 127 else b,) * 2 for b in set(cv)])
            out = []
            for s, hit in self.split(st, ("in", x, S)):
                if hit:
                    t = ("sfind", name, v, y, pos)
                    NAT[t] = IntSet([(0, len(cv) - 1)])
                    out.append((s, (V, t)))
                else:
                    out.append((s, (V, ("i", NPOS))))
            return out
        if cy is not None and len(cy) >= 2 and pos == ("i", 0) and cstr(v) is None:
            # found at the start: a prefix test
            out = []
            t = ("sfind", name, v, y, pos)
            NAT[t] = IntSet([(0, 1 << 62), (NPOS, NPOS)]) if name == "find" else IntSet.of(0).union(IntSet.of(NPOS))
            for s, hit in self.split(st, ("pre", v, ("i", 0), cy)):
                if hit:
                    s = assume_int(s, "==", t, ("i", 0))
                    if s is not None:
                        out.append((s, (V, ("i", 0))))
                else:
                    s = assume_int(s, "!=", t, ("i", 0))
                    if s is not None:
                        out.append((s, (V, t if name == "find" else ("i", NPOS))))
            return out
        t = ("sfind", name, v, y, pos)
        lo = pos[1] if pos[0] == "i" and name == "find" else 0
        NAT[t] = IntSet([(lo, 1 << 62), (NPOS, NPOS)])
        return [(st, (V, t))]

    def owned(self, st, o, i, e):
        """the object owned by the element at i of the container at o, when that is a unique pointer"""
        t = self.objty(e)
        tys = [a for a in t.ta if isinstance(a, Ty)]
        m = self.family(t) == "map"
        x = tys[1:2] if m else tys[:1]
        if not x or x[0].strip().qn != "std::unique_ptr":
            return None
        v = proj(st.get(o), ("x", i))
        return proj(v, ("f", "second")) if m else v

    def m_vec_erase(self, st, o, v, args, e):
        a = self.unmv(self.aval(st, args[0], e))
        lo = a[2]
        hi = self.unmv(self.aval(st, args[1], e))[2] if len(args) > 1 else add(lo, ("i", 1))
        nv = mkseq(parts(self.slice(st, v, ("i", 0), lo)) + parts(self.slice(st, v, hi, sizeof(v))))
        st = self.invalidate(st, o, e, lo)
        return [(self.save(st, o, nv, e), (V, ("it", o, lo)))]

    # ---- maps -------------------------------------------------------------------

    def map_has(self, st, m, k):
        """[(state, bool)]"""
        if m[0] == "zero" or m == EMPTY:
            return [(st, False)]
        if m[0] == "mins":
            if m[2] == k:
                return [(st, True)]
            out = []
            for s, b in self.split(st, self.streq(m[2], k)):
                if b:
                    out.append((s, True))
                else:
                    out += self.map_has(s, m[1], k)
            return merge(out)
        if m[0] == "merase" and m[2] == findt(m[1], k):
            return [(st, False)]
        out = []
        for s, b in self.split(st, ("has", m, k)):
            f = findt(m, k)
            NAT[f] = NONNEG
            if b:
                s2 = assume_int(s, "<", f, sizeof(m))
                if s2 is None:
                    continue
                s = s2
            out.append((s, b))
        return out

    def map_insert(self, st, o, k, val, e, overwrite=False, quiet=False):
        """[(state, position, inserted)]"""
        out = []
        m = st.get(o)
        if m[0] == "zero":
            m = EMPTY
        for s, has in self.map_has(st, m, k):
            if has:
                pos = findt(m, k)
                if overwrite:
                    s = self.save(s, self.fld(self.child(o, pos), "second"), val, e)
                    if not quiet:
                        s = s.ev("mapset", o, k, val, self.site(e))
                out.append((s, pos, False))
            else:
                nm = ("mins", m, k, val)
                s = self.wr(s, o, nm, e)
                if not quiet:
                    s = s.ev("mapins", o, k, val, self.site(e))
                pos = findt(nm, k)
                NAT[pos] = NONNEG
                s2 = assume_int(s, "<", pos, sizeof(nm))
                out.append((s2 or s, pos, True))
        return out

    def m_map(self, st, fn, name, o, args, e):
        t = self.objty(e)
        isset = t is not None and (t.qn or "").endswith("set")
        tys = [a for a in (t.ta if t is not None else ()) if isinstance(a, Ty)]
        m = st.get(o)
        if m[0] == "zero":
            m = EMPTY
        if name in ("find", "count", "contains", "at", "operator[]", "equal_range") and args:
            k = self.aval(st, args[0], e)
            if self.isstr(args[0][2]):
                k = self.sval(st, args[0], e)
            self.rec(st, o, "r", e)
            out = []
            if name == "operator[]":
                dv = self.typed(ZEROV, tys[1]) if len(tys) > 1 else ZEROV
                for s, pos, ins in self.map_insert(st, o, k, dv, e):
                    out.append((s, (L, self.fld(self.child(o, pos), "second"))))
                return out
            for s, has in self.map_has(st, m, k):
                pos = findt(m, k)
                if name == "find":
                    out.append((s, (V, ("it", o, pos if has else sizeof(m)))))
                elif name in ("count", "contains"):
                    out.append((s, (V, ("i", int(has)))))
                elif name == "at":
                    if has:
                        out.append((s, (L, self.fld(self.child(o, pos), "second"))))
                    else:
                        self.throw(s.ev("throws", "own", self.site(e)), Exc("std::out_of_range", self.site(e), "own"))
                else:
                    return None
            return out
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign") and not (
                len(args) == 2 and self.family(args[0][2]) == "it"):
            if name == "insert" and len(args) == 1 and self.family(args[0][2]) == "vec":
                return None
            ins = []
            if isset:
                for s, x in self.newelem(st, tys[0], args, e):
                    ins.append((s, x, ("void",)))
            elif name in ("insert",) or len(args) == 1:
                s, p = self.value_of_copy(st, args[0], e, self.is_rvalue(args[0]) and args[0][0] == L)
                ins.append((s, proj(p, ("f", "first")), proj(p, ("f", "second"))))
            else:
                for s, k in self.newelem(st, tys[0], args[:1], e):
                    if name == "try_emplace":
                        for s1, has in self.map_has(s, m, k):
                            if has:
                                ins.append((s1, k, ZEROV))
                            else:
                                for s2, x in self.newelem(s1, tys[1], args[1:], e):
                                    ins.append((s2, k, x))
                    else:
                        for s2, x in self.newelem(s, tys[1], args[1:], e):
                            ins.append((s2, k, x))
            out = []
            for s, k, x in ins:
                for s2, pos, did in self.map_insert(s, o, k, x, e, name == "insert_or_assign"):
                    out.append((s2, (V, pairv(("it", o, pos), ("i", int(did))))))
                    if not did and x[0] == "ptr" and x[1][0][0] == "h":
                        out[-1] = (out[-1][0].ev("dropped", x, self.site(e)), out[-1][1])
            return out
        if name == "insert" and len(args) == 2:
            r = self.range(st, self.aval(st, args[0], e), self.aval(st, args[1], e))
            if r is None:
                return None
            x = self.rangeval(st, r, e)
            if m == EMPTY:
                return [(self.wr(st, o, x, e), (V, ("void",)))]
            return [(self.wr(st, o, ("munion", m, x), e), (V, ("void",)))]
        if name == "erase":
            a = self.unmv(self.aval(st, args[0], e))
            if a[0] == "it":
                lo = a[2]
                if len(args) > 1:
                    hi = self.unmv(self.aval(st, args[1], e))[2]
                    st = self.invalidate(st, o, e, lo)
                    if lo == ("i", 0) and idx_diff(hi, sizeof(m)) == 0:
                        return [(self.save(st, o, EMPTY, e), (V, ("it", o, ("i", 0))))]
                    nm = ("merase", m, lo, hi)
                else:
                    st = self.invalidate(st, o, e, only=lo)
                    nm = self.merase(m, lo)
                return [(self.save(st.ev("maperase", o, lo, m, self.site(e)), o, nm, e), (V, ("it", o, lo)))]
            out = []
            for s, has in self.map_has(st, m, a):
                if has:
                    pos = findt(m, a)
                    s = self.invalidate(s, o, e, only=pos)
                    s = self.save(s.ev("maperase", o, pos, m, self.site(e)), o, self.merase(m, pos), e)
                out.append((s, (V, ("i", int(has)))))
            return out
        if name in ("lower_bound", "upper_bound"):
            return None
        return self.m_common(st, fn, name, o, args, e)

    def merase(self, m, pos):
        if m[0] == "mins" and pos == findt(m, m[2]):
            return m[1]
        return ("merase", m, pos)

    # ---- iterators ----------------------------------------------------------------

    def m_it(self, st, fn, name, o, args, e):
        v = st.get(o)
        if name != "operator=":
            v = self.valid(v)
        if name == "operator*":
            return [(st, (L, self.itloc(st, v)))]
        if name == "operator->":
            return [(st, (V, self.addr(self.itloc(st, v)) if self.itloc(st, v)[0][0] == "p" else ("ptr", self.itloc(st, v))))]
        if name in ("operator++", "operator--"):
            n = self.itadd(v, ("i", 1 if name == "operator++" else -1))
            s = self.save(st, o, n, e)
            return [(s, (V, v) if args else (L, o))]
        if name in ("operator+=", "operator-="):
            d = strip(self.aval(st, args[0], e))
            s = self.save(st, o, self.itadd(v, d if name == "operator+=" else scale(d, -1)), e)
            return [(s, (L, o))]
        if name in ("operator+", "operator-"):
            b = self.aval(st, args[0], e)
            if b[0] in ("it", "rit", "mvit"):
                return self.itdiff(st, v, b, e)
            d = strip(b)
            return [(st, (V, self.itadd(v, d if name == "operator+" else scale(d, -1))))]
        if name == "operator=":
            return [(self.save(st, o, self.aval(st, args[0], e), e), (L, o))]
        if name == "operator[]":
            return [(st, (L, self.itloc(st, self.itadd(v, strip(self.aval(st, args[0], e))))))]
        if name == "base":
            if v[0] == "rit":
                return [(st, (V, ("it", v[1], v[2])))]
            return [(st, (V, self.unmv(v)))]
        if name in ("operator==", "operator!="):
            return [(s, (V, t)) for s, t in self.compare(st, name[8:], v, self.objty(e), self.aval(st, args[0], e), None, e)]
        return None

    m_rit = m_it

    def itdiff(self, st, a, b, e):
        a, b = self.unmv(a), self.unmv(b)
        if a[0] == b[0] == "it" and a[1] == b[1]:
            return [(st, (V, sub(a[2], b[2])))]
        if a[0] == b[0] == "rit" and a[1] == b[1]:
            return [(st, (V, sub(b[2], a[2])))]
        return [(st, (V, ("op", "-", a, b)))]

    def m_bins(self, st, fn, name, o, args, e):
        v = st.get(o)
        if name in ("operator*", "operator++"):
            return [(st, (L, o))]
        if name == "operator=":
            c = v[1]
            x = self.aval(st, args[0], e)
            return [(self.wr(st, c, mkseq(parts(st.get(c)) + (("one", x),)), e), (L, o))]
        return None

    # ---- smart pointers -------------------------------------------------------------

    def m_sp(self, st, fn, name, o, args, e):
        v = st.get(o)
        t = self.objty(e)
        self.rec(st, o, "r", e)
        if fn["qn"].startswith("std::reference_wrapper::"):
            if name == "get" or name.startswith("operator ") or name == "operator type":
                return [(st, (L, self.as_loc(v)))]
            if name == "operator()":
                return self.call_value(st, st.get(self.as_loc(v)), args, e, e.get("t"))
        if v[0] == "zero":
            v = NULL
        if name == "get":
            return [(st, (V, v))]
        if name == "operator->":
            return [(st, (V, v))]
        if name == "operator*":
            return [(st, (L, self.deref(st, v, e)))]
        if name == "operator[]":
            return [(st, (L, self.deref(st, self.ptradd(v, strip(self.aval(st, args[0], e))), e)))]
        if name == "operator bool":
            return [(st, (V, self.cmp("!=", v, NULL, "p")))]
        if name == "release":
            return [(self.save(st, o, NULL, e), (V, v))]
        if name in ("use_count",):
            st, u = self.fresh(st, "uc", e)
            return [(st, (V, ("call", fn["qn"], (v,), u)))]
        if name in ("reset", "operator="):
            s = st
            if args:
                n = self.aval(st, args[0], e)
                if n[0] == "zero":
                    n = NULL
                a = args[0]
                if a[0] == L and a[2] is not None and self.family(a[2]) == "sp" and self.is_rvalue(a):
                    s = self.moved_from(s, a[1], e)
                if a[2] is not None and a[2].strip().k == "nullptr":
                    n = NULL
            else:
                n = NULL
            # store the new pointer, then destroy the old object
            old = v
            s = self.save(s, o, n, e)
            s = s.ev("spset", o, old, n, self.site(e))
            outs = [s]
            if t is not None and t.qn == "std::unique_ptr" and old[0] not in ("null", "moved", "undef"):
                s2, u = self.fresh(s, "old", e)
                root = ("t", u)
                s2 = s2.set((root, ()), old)
                if ("del", o) in s2.store:
                    s2.store[("del", (root, ()))] = s2.store[("del", o)]
                outs = []
                for x in self.destroy_owned(s2, (root, ()), t, e):
                    x = x.copy()
                    x.store.pop(root, None)
                    outs.append(x)
            return [(x, (L, o) if name == "operator=" else (V, ("void",))) for x in outs]
        if name == "swap":
            return self.m_common(st, fn, name, o, args, e)
        if name == "get_deleter":
            return [(st, (V, st.store.get(("del", o), ("functor", "std::default_delete"))))]
        return None

    def destroy_owned(self, st, loc, t, e):
        """destroys the pointee of a unique_ptr value at loc, always leaving a del event"""
        if self.has_dtor(t):
            return self.destroy(st, loc, t, e)
        v = st.get(loc)
        out = []
        for s, nn in self.split(st, self.cmp("!=", v, NULL, "p")):
            out.append(s.ev("del", v, self.site(e)) if nn else s)
        return out

    def m_wp(self, st, fn, name, o, args, e):
        v = st.get(o)
        self.rec(st, o, "r", e)
        if name == "lock":
            st, u = self.fresh(st, "wl", e)
            r = ("lock", v, u)
            return [(st.ev("wlock", v, u, self.site(e)), (V, r))]
        if name == "expired":
            st, u = self.fresh(st, "wx", e)
            return [(st, (V, ("expired", v, u)))]
        if name in ("operator=",):
            return [(self.save(st, o, self.aval(st, args[0], e), e), (L, o))]
        if name == "reset":
            return [(self.save(st, o, NULL, e), (V, ("void",)))]
        if name == "owner_before":
            return [(st, (V, ("ownerlt", v, self.aval(st, args[0], e))))]
        if name == "use_count":
            st, u = self.fresh(st, "wx", e)
            return [(st, (V, ("usecount", v, u)))]
        return None

    def m_func(self, st, fn, name, o, args, e):
        self.rec(st, o, "r", e)
        v = st.get(o)
        if v[0] == "zero":
            v = NULL
        if name == "operator bool":
            return [(st, (V, self.cmp("!=", v, NULL, "p")))]
        if name == "operator()":
            if v == NULL:
                self.throw(st.ev("throws", "own", self.site(e)), Exc("std::bad_function_call", self.site(e), "own"))
                return []
            return self.call_value(st, v, args, e, e.get("t"))
        if name == "operator=":
            st2, x = self.value_of_copy(st, args[0], e, self.is_rvalue(args[0]) and args[0][0] == L)
            if x[0] == "zero" or args[0][2] is not None and args[0][2].strip().k == "nullptr":
                x = NULL
            return [(self.save(st2, o, x, e), (L, o))]
        if name == "swap":
            return self.m_common(st, fn, name, o, args, e)
        return None

    def m_pair(self, st, fn, name, o, args, e):
        if name == "operator=":
            a = args[0]
            v = self.aval(st, a, e)
            cur = st.get(o)
            if cur[0] == "obj" and cur[1] == "tieref":
                for n, (_, p) in enumerate(cur[2]):
                    f = ("f", ("first", "second")[n]) if v[0] == "obj" and v[1] == "pair" or n < 2 and v[0] != "obj" else ("x", ("i", n))
                    st = self.save(st, self.as_loc(p), proj(v, f), e)
                return [(st, (L, o))]
            return [(self.save(st, o, v, e), (L, o))]
        return None

    # ---- atomics, locks ----------------------------------------------------------------

    def m_atomic(self, st, fn, name, o, args, e):
        t = self.objty(e)
        vt = self.elty(t) if t is not None else None
        if vt is None and e.get("t") is not None:
            vt = e["t"].strip()

        def ald(s):
            s, u = self.fresh(s, "al", e)
            x = ("ald", o, u)
            if vt is not None and vt.k in ("int", "bool", "enum") and x not in NAT:
                NAT[x] = BOOL if vt.k == "bool" else width_range(vt.w or 32, vt.sg)
            return s, x, u
        if name == "load" or name.startswith("operator ") and not args:
            self.rec(st, o, "r", e, True)
            s, x, u = ald(st)
            return [(s.ev("aload", o, u, self.site(e)), (V, x))]
        if name in ("store", "operator="):
            self.rec(st, o, "w", e, True)
            v = self.aval(st, args[0], e)
            return [(st.ev("astore", o, v, self.site(e)), (V, v) if name == "operator=" else (V, ("void",)))]
        if name == "exchange":
            self.rec(st, o, "w", e, True)
            v = self.aval(st, args[0], e)
            s, x, u = ald(st)
            return [(s.ev("armw", o, "=", v, u, self.site(e)), (V, x))]
        ops = {"fetch_add": "+", "fetch_sub": "-", "fetch_and": "&", "fetch_or": "|", "fetch_xor": "^",
               "operator+=": "+", "operator-=": "-", "operator++": "++", "operator--": "--", "operator|=": "|",
               "operator&=": "&", "operator^=": "^"}
        if name in ops:
            self.rec(st, o, "w", e, True)
            op = ops[name]
            fl = vt is not None and vt.k == "float"
            if op in ("++", "--"):
                v, op, post = ("f", 1.0) if fl else ("i", 1), op[0], bool(args)
            else:
                v, post = self.aval(st, args[0], e), name.startswith("fetch")
            s, x, u = ald(st)
            s = s.ev("armw", o, op, v, u, self.site(e))
            new = binfl(op, x, v) if fl else binint(op, x, v)
            return [(s, (V, x if post else new))]
        if name.startswith("compare_exchange"):
            self.rec(st, o, "w", e, True)
            el = args[0][1] if args[0][0] == L else None
            exp = self.aval(st, args[0], e)
            des = self.aval(st, args[1], e)
            s, x, u = ald(st)
            ok = s.ev("cas", o, exp, des, u, self.site(e), "weak" if "weak" in name else "strong")
            fail = s.set(el, x) if el is not None else s
            fail = fail.ev("casfail", o, u, self.site(e))
            return [(ok, (V, ("i", 1))), (fail, (V, ("i", 0)))]
        if name in ("is_lock_free",):
            return [(st, (V, ("sym", "lockfree")))]
        if name in ("wait", "notify_one", "notify_all"):
            return [(st, (V, ("void",)))]
        return None

    def m_mutex(self, st, fn, name, o, args, e):
        if name in ("lock", "lock_shared"):
            return [(self.acquire(st, o, e, "s" if "shared" in name else "x"), (V, ("void",)))]
        if name in ("unlock", "unlock_shared"):
            return [(self.release(st, o, e), (V, ("void",)))]
        if name in ("try_lock", "try_lock_shared"):
            return [(self.acquire(st, o, e, "s" if "shared" in name else "x"), (V, ("i", 1))), (st, (V, ("i", 0)))]
        return None

    def m_guard(self, st, fn, name, o, args, e):
        v = st.get(o)
        if v[0] != "guard":
            return None
        if name == "lock":
            for m in v[1]:
                st = self.acquire(st, m, e)
            return [(st.set(o, ("guard", v[1], 1)), (V, ("void",)))]
        if name == "unlock":
            for m in v[1]:
                st = self.release(st, m, e)
            return [(st.set(o, ("guard", v[1], 0)), (V, ("void",)))]
        if name in ("owns_lock", "operator bool"):
            return [(st, (V, ("i", v[2])))]
        if name == "mutex":
            return [(st, (V, self.addr(v[1][0])))]
        if name == "operator=":
            st = self.guard_release(st, o, e)
            n = self.aval(st, args[0], e)
            st = st.set(o, n)
            if args[0][0] == L:
                st = st.set(args[0][1], ("guard", (), 0))
            return [(st, (L, o))]
        return None

    # ---- streams -------------------------------------------------------------------------

    def sget(self, st, o, f):
        return st.get(self.fld(o, f))

    def sset(self, st, o, f, v, e):
        self.rec(st, self.fld(o, f), "w", e)
        return st.set(self.fld(o, f), v)

    def semit(self, st, o, ps, e):
        self.rec(st, self.fld(o, "@content"), "w", e)
        c = self.sget(st, o, "@content")
        st = st.set(self.fld(o, "@content"), self.norm(mkseq(parts(c) + tuple(ps))))
        if self.ostream_throws:
            self.may_throw(st, "cb", self.site(e))
        return st

    ostream_throws = False

    def fmt(self, st, o, kind, v, e, ty=None):
        """formatted output: honours and resets the field width"""
        w = self.sget(st, o, "@width")
        if kind == "s":
            ps = parts(v)
        elif kind == "c":
            ps = (self.onechar(v),)
        else:
            fl = self.sget(st, o, "@flags")
            ps = (("num", kind, v, self.sget(st, o, "@prec"), fl, self.sget(st, o, "@loc")),)
        if w != ("i", 0):
            ps = (("pad", mkseq(ps), w, self.sget(st, o, "@fill")),)
            st = st.set(self.fld(o, "@width"), ("i", 0))
        return self.semit(st, o, ps, e)

    def insert(self, st, o, a, e):
        """out << a"""
        t = a[2].strip() if a[2] is not None else None
        if a[0] == L and t is not None and self.family(t) == "os":
            return None
        v = self.aval(st, a, e)
        if self.family(t) == "str":
            return self.fmt(st, o, "s", v if v[0] != "zero" else EMPTY, e)
        if t is not None and t.k in ("ptr", "array"):
            if t.pt is not None and t.pt.char:
                return self.fmt(st, o, "s", self.cval(st, v), e)
            if v[0] == "fnptr" or t.pt is not None and t.pt.k == "fn":
                return self.manip(st, o, v, e)
            if self.family(t) == "os":
                return None
            return self.fmt(st, o, "p", v, e)
        if v[0] == "fnptr":
            return self.manip(st, o, v, e)
        if t is not None and t.k == "int" and t.char:
            return self.fmt(st, o, "c", v, e)
        if t is not None and t.k in ("int", "enum"):
            return self.fmt(st, o, "i", v, e, t)
        if t is not None and t.k == "bool":
            outs = self.debool(st, v, t)
            if len(outs) == 1:
                return self.fmt(outs[0][0], o, "b", outs[0][1], e)
            return [self.fmt(s, o, "b", x, e) for s, x in outs]
        if t is not None and t.k == "float":
            return self.fmt(st, o, "f", v, e)
        if v[0] == "manip":
            _, what, x = v
            if what == "setprecision":
                return self.sset(st, o, "@prec", x, e)
            if what == "setw":
                return self.sset(st, o, "@width", x, e)
            if what == "setfill":
                return self.sset(st, o, "@fill", x, e)
            if what == "setbase" and x[0] == "i":
                return self.manip(st, o, ("fnptr", "", {8: "std::oct", 16: "std::hex"}.get(x[1], "std::dec")), e)
            if what in ("setiosflags", "resetiosflags"):
                f = self.sget(st, o, "@flags")
                return self.sset(st, o, "@flags", binint("|", f, x) if what[0] == "s" else
                                 binint("&", f, ("op", "~", x) if x[0] != "i" else ("i", ~x[1] & 0xffffffff)), e)
        self.unknown.add(("operator<<", t.s if t is not None else "?", self.site(e)))
        return self.semit(st, o, (("fmt", v),), e)

    def setflags(self, st, o, mask, bits, e):
        f = self.sget(st, o, "@flags")
        if f[0] == "i":
            n = ("i", f[1] & ~mask | bits)
        else:
            base, m0, b0 = (f[1], f[2], f[3]) if f[0] == "fl" else (f, 0, 0)
            n = ("fl", base, m0 | mask, b0 & ~mask | bits)
            if n[2] == 0:
                n = base
        return self.sset(st, o, "@flags", n, e)

    def manip(self, st, o, v, e):
        q = v[2] if v[0] == "fnptr" and len(v) > 2 else ""
        if q in FLAGMASK:
            return self.setflags(st, o, FLAGMASK[q][0], FLAGMASK[q][1], e)
        if q == "std::endl":
            return self.semit(st, o, (("lit", b"\n"),), e)
        if q == "std::ends":
            return self.semit(st, o, (("lit", b"\0"),), e)
        if q in ("std::flush",):
            return st
        self.bad("manipulator " + q, e)

    def m_os(self, st, fn, name, o, args, e):
        if name == "operator<<":
            r = self.insert(st, o, args[0], e)
            if r is None:
                return None
            return [(s, (L, o)) for s in (r if isinstance(r, list) else [r])]
        if name == "put":
            return [(self.semit(st, o, (self.onechar(self.aval(st, args[0], e)),), e), (L, o))]
        if name == "write":
            v = self.bufval(st, self.aval(st, args[0], e), strip(self.aval(st, args[1], e)))
            return [(self.semit(st, o, parts(v), e), (L, o))]
        if name == "str":
            if args:
                return [(self.sset(st, o, "@content", self.sval(st, args[0], e), e), (V, ("void",)))]
            self.rec(st, o, "r", e)
            return [(st, (V, self.sget(st, o, "@content")))]
        if name == "imbue":
            old = self.sget(st, o, "@loc")
            return [(self.sset(st, o, "@loc", self.aval(st, args[0], e), e), (V, old))]
        if name == "getloc":
            return [(st, (V, self.sget(st, o, "@loc")))]
        for m, f in (("precision", "@prec"), ("width", "@width"), ("fill", "@fill"), ("flags", "@flags")):
            if name == m:
                old = self.sget(st, o, f)
                if args:
                    st = self.sset(st, o, f, self.aval(st, args[0], e), e)
                return [(st, (V, old))]
        if name == "setf":
            old = self.sget(st, o, "@flags")
            x = self.aval(st, args[0], e)
            m = self.aval(st, args[1], e) if len(args) > 1 else x
            if x[0] == "i" and m[0] == "i":
                return [(self.setflags(st, o, m[1], x[1] & m[1], e), (V, old))]
            return [(self.sset(st, o, "@flags", ("op", "|", old, x), e), (V, old))]
        if name == "unsetf":
            x = self.aval(st, args[0], e)
            if x[0] == "i":
                return [(self.setflags(st, o, x[1], 0, e), (V, ("void",)))]
            return [(self.sset(st, o, "@flags", ("op", "&", self.sget(st, o, "@flags"), ("op", "~", x)), e), (V, ("void",)))]
        if name == "flush":
            return [(st, (L, o))]
        if name in ("good", "fail", "bad", "eof", "operator bool", "operator!", "rdstate"):
            st, u = self.fresh(st, "os", e)
            r = ("call", fn["qn"], (), u)
            return [(st, (V, r))]
        if name in ("exceptions", "clear", "setstate", "tie"):
            st, u = self.fresh(st, "os", e)
            st = st.ev("iostate", o, name, self.argvals(st, args), self.site(e))
            return [(st, (V, ("call", fn["qn"], (), u)))]
        if name == "copyfmt":
            a = args[0]
            if a[0] == L:
                for f in ("@prec", "@flags", "@loc", "@width", "@fill"):
                    st = self.sset(st, o, f, self.sget(st, a[1], f), e)
                return [(st, (L, o))]
        return None

    # ---- others -----------------------------------------------------------------------------

    def m_chrono(self, st, fn, name, o, args, e):
        v = st.get(o)
        t = self.objty(e)
        if v[0] == "zero":
            v = ("i", 0)
        if name == "count":
            return [(st, (V, v))]
        if name == "time_since_epoch":
            return [(st, (V, v))]
        if name in ("operator+=", "operator-=", "operator*=", "operator/=", "operator%="):
            b = self.aval(st, args[0], e)
            at = args[0][2].strip() if args[0][2] is not None else None
            if self.family(at) == "chrono":
                b = self.rescale(b, self.period(at), self.period(t))
            op = name[8]
            if self.isfloatdur(t):
                n = binfl(op, v, b)
            else:
                n = binint(op, strip(v), strip(b))
            self.rec(st, o, "r", e)
            return [(self.save(st, o, n, e), (L, o))]
        if name in ("operator++", "operator--"):
            n = add(v, ("i", 1 if name == "operator++" else -1))
            return [(self.save(st, o, n, e), (V, v) if args else (L, o))]
        if name == "operator=":
            return [(self.save(st, o, self.aval(st, args[0], e), e), (L, o))]
        if name == "operator-" and not args:
            return [(st, (V, scale(v, -1)))]
        if name == "operator+" and not args:
            return [(st, (V, v))]
        if name in ("zero", "min", "max"):
            return [(st, (V, ("i", 0) if name == "zero" else ("call", fn["qn"], (), 0)))]
        return None

    def m_future(self, st, fn, name, o, args, e):
        v = st.get(o)
        if name in ("get", "wait") and st.locks:
            st = st.ev("fwait", self.site(e), self.locknames(st))
        if name == "get":
            if v[0] == "future":
                if v[1][0] == "thrown":
                    self.throw(st.ev("throws", "own", self.site(e)), Exc(v[1][1], v[1][2], "own"))
                    return []
                return [(st, (V, v[1]))]
            st, r = self.ext(st, fn["qn"], (v,), e)
            self.may_throw(st, "lib", self.site(e))
            return [(st, self.resval(st, fn, ("fget", v), e))]
        if name in ("wait", "valid", "share", "wait_for"):
            return [(st, (V, v if name == "share" else ("i", 1)))]
        if name == "operator=":
            return [(self.save(st, o, self.aval(st, args[0], e), e), (L, o))]
        return None

    def m_locale(self, st, fn, name, o, args, e):
        if name == "operator=":
            return [(self.save(st, o, self.aval(st, args[0], e), e), (L, o))]
        return None

    def m_opt(self, st, fn, name, o, args, e):
        return None

    def call_functor(self, st, f, args, e):
        q = f[1]
        if q in CMPF and len(args) == 2:
            out = []
            for s, t in self.compare(st, CMPF[q], self.aval(st, args[0], e), args[0][2], self.aval(st, args[1], e), args[1][2], e):
                out.append((s, (V, t)))
            return out
        if q in ("std::hash", "std::__str_hash_base"):
            return [(st, (V, ("hash",) + self.argvals(st, args)))]
        if q in ("std::plus", "std::minus") and len(args) == 2:
            a, b = self.argvals(st, args)
            fl = args[0][2] is not None and args[0][2].strip().k == "float"
            op = "+" if q == "std::plus" else "-"
            return [(st, (V, binfl(op, a, b) if fl else binint(op, a, b)))]
        return [(st, (V, ("call", q, self.argvals(st, args), 0)))]

    # ======================= free functions ==================================================

    def std_call(self, st, fn, args, e):
        qn = fn["qn"]
        args = list(args)
        name = qn.rsplit("::", 1)[-1] if not qn.endswith("operator ") else qn
        m = getattr(self, "f_" + name, None) if name.isidentifier() else None
        if m is not None and (qn == name or qn.startswith(("std::", "__gnu_cxx::", "boost::"))):
            r = m(st, fn, args, e)
            if r is not None:
                return r
        if name.startswith("operator"):
            r = self.f_operator(st, fn, name[8:], args, e)
            if r is not None:
                return r
        base = name[9:] if name.startswith("__builtin_") else name
        if base in CTYPE and len(args) == 1 and (qn == name or qn == "std::" + name):
            c = strip(self.aval(st, args[0], e))
            return [(st, (V, ("in", c, IntSet(CTYPE[base]))))]
        if base in ("floor", "ceil", "fabs", "abs", "sqrt", "round", "trunc", "fmod", "pow", "log", "exp", "lround",
                    "tolower", "toupper", "hypot", "fma", "llround", "nearbyint", "rint"):
            vals = self.argvals(st, args)
            r = ("math", base) + vals
            t = e.get("t")
            if t is not None and t.k == "int":
                NAT.setdefault(r, width_range(t.w, t.sg))
            return [(st, (V, r))]
        return self.unknown_fn(st, fn, args, e)

    # ======================= zlib ==========================================================

    def zfield(self, z, f):
        return self.fld(z, f)

    def f_mg_write(self, st, fn, args, e):
        vals = self.argvals(st, args)
        n = strip(vals[2])
        if self.mem:
            self.buffers(st, vals, args, e)
        base, off = self.ptrbase(vals[1])
        if base[0] == "ptr" and base[1][0][0] in "vth":
            self.rec(st, base[1], "r", e)
        st, r = self.ext(st, fn["qn"], vals, e, (("bytes", self.bufval(st, vals[1], n)), ("n", n)))
        return [(st, self.resval(st, fn, r, e))]

    def f_deflateInit2_(self, st, fn, args, e):
        z = self.as_loc(self.aval(st, args[0], e))
        pre = tuple((f, st.get(self.fld(z, f))) for f in ("zalloc", "zfree", "opaque"))
        vals = self.argvals(st, args)
        st, r = self.ext(st, fn["qn"], vals, e, (("zs", z),) + pre)
        self.rec(st, z, "w", e)
        for f in ("total_in", "total_out"):
            st = st.set(self.fld(z, f), ("i", 0))
        st = st.set(self.fld(z, "state"), ("zstate", r[3]))
        return [(st, self.resval(st, fn, r, e))]

    f_deflateInit_ = f_deflateInit2_

    def f_deflateEnd(self, st, fn, args, e):
        z = self.as_loc(self.aval(st, args[0], e))
        st, r = self.ext(st, fn["qn"], self.argvals(st, args), e, (("zs", z),))
        self.rec(st, z, "w", e)
        return [(st, self.resval(st, fn, r, e))]

    def f_deflateBound(self, st, fn, args, e):
        st, r = self.ext(st, fn["qn"], self.argvals(st, args), e)
        NAT[r] = width_range(64, 0)
        return [(st, (V, r))]

    def f_deflate(self, st, fn, args, e):
        """consumes part of the input and produces part of the output"""
        z = self.as_loc(self.aval(st, args[0], e))
        g = lambda f: st.get(self.fld(z, f))
        ai, ao = strip(g("avail_in")), strip(g("avail_out"))
        no, ni = g("next_out"), g("next_in")
        base, off = self.ptrbase(no)
        cont = base[1] if base[0] == "ptr" else None
        size = self.extent(st, cont) if cont else None
        snap = (("zs", z), ("next_in", ni), ("avail_in", ai), ("next_out", no), ("avail_out", ao), ("total_out", g("total_out")),
                ("out", cont), ("off", off), ("size", size), ("state", g("state")), ("total_in", g("total_in")))
        st, r = self.ext(st, fn["qn"], self.argvals(st, args), e, snap)
        self.rec(st, z, "w", e)
        u = r[3]
        p, c = ("zout", u), ("zin", u)
        NAT[p] = NAT[c] = width_range(32, 0)
        for x, y in ((p, ao), (c, ai)):
            s2 = assume_int(st, "<=", x, y)
            st = s2 if s2 is not None else st
        for x, f, sg in ((p, "total_out", 1), (p, "avail_out", -1), (c, "total_in", 1), (c, "avail_in", -1)):
            st = st.set(self.fld(z, f), add(st.get(self.fld(z, f)), scale(x, sg)))
        st = st.set(self.fld(z, "next_out"), self.ptradd(no, p)).set(self.fld(z, "next_in"), self.ptradd(ni, c))
        if cont is not None:
            v = st.get(cont)
            if v[0] == "upd" or v[0] in ("undef", "zero", "obj"):
                v = ("seq", (("sub", ("junk", v, u), ("i", 0), size),))
            self.rec(st, cont, "w", e)
            end = add(off, p)
            ps = parts(self.slice(st, v, ("i", 0), off)) + (("sub", ("gz", u), ("i", 0), p),)
            rest = self.slice(st, v, end, size)
            st = st.set(cont, mkseq(ps + parts(rest)))
        return [(st, self.resval(st, fn, r, e))]

    def extent(self, st, loc):
        """number of elements of the container or array at loc"""
        v = st.get(loc)
        n = self.arrlen.get(loc)
        return ("i", n) if n is not None else sizeof(v)

    def buffers(self, st, vals, args, e):
        """a pointer into a container or array that is followed by a number of elements"""
        for p, n, a, b in zip(vals, vals[1:], args, args[1:]):
            if b[2] is None or b[2].strip().k != "int" or a[2] is None or a[2].strip().k != "ptr":
                continue
            n = strip(n)
            if p[0] == "cstr":
                self.within(st, ((("c", p[1])), ()), ("i", 0), n, add(sizeof(p[1]), ("i", 1)), e)
            elif p[0] == "ptr" and p[1][1] and p[1][1][-1][0] == "x" and p[1][1][-1][1][0] != "find":
                loc, i = (p[1][0], p[1][1][:-1]), p[1][1][-1][1]
                self.within(st, loc, i, add(i, n), self.arrsize(loc) or sizeof(st.get(loc)), e)

    def retains(self, st, qn, vals, e):
        """libcurl keeps the pointer to the body until the request has been performed"""
        if qn == "curl_easy_setopt" and len(vals) == 3 and vals[1] == ("i", 10015):
            return st.set((("v", "kept", vals[0]), ()), self.temporary(st, vals[2], e))
        if qn == "curl_easy_perform":
            v = st.store.get(("v", "kept", vals[0]))
            if v is not None:
                self.valid(v)
        return st

    PURE = ("strstr", "mg_get_header", "strchr", "strrchr", "curl_easy_strerror", "getenv")

    def unknown_fn(self, st, fn, args, e):
        qn = fn["qn"]
        if qn.startswith(("std::", "__gnu_cxx::")):
            self.unknown.add((qn, len(args), self.site(e)))
        vals = []
        for a in args:
            v = self.aval(st, a, e) if a[0] == V else self.addr(a[1])
            if a[0] == V and v[0] == "cstr" or a[0] == V and v[0] == "s":
                v = v
            vals.append(v)
            if a[0] == V and v[0] in ("cstr",):
                pass
        pre = st
        if self.mem:
            base = qn.rsplit("::", 1)[-1]
            for v, p in zip(vals, fn["pt"] if "pt" in fn else [a[2] for a in args]):
                if base.startswith(("str", "mem", "ato")) and p is not None and p.strip().k == "ptr":
                    self.deref(st, v, e, False)
            if fn.get("externc"):
                self.buffers(st, vals, args, e)
            st = self.retains(st, qn, vals, e)
        st, r = self.ext(st, qn, vals, e)
        if qn not in self.PURE:
            st = self.havoc_args(st, fn, args, r[3], e)
        if not (fn.get("nothrow") or fn.get("externc")):
            self.may_throw(st, "lib", self.site(e))
        return [(st, self.resval(st, fn, r, e))]

    def f_operator(self, st, fn, op, args, e):
        if len(args) == 2:
            ta = args[0][2].strip() if args[0][2] is not None else None
            tb = args[1][2].strip() if args[1][2] is not None else None
            fa, fb = self.family(ta), self.family(tb)
            if op == "<<":
                if fa == "os" and args[0][0] == L:
                    r = self.insert(st, args[0][1], args[1], e)
                    if r is None:
                        return None
                    return [(s, (L, args[0][1])) for s in (r if isinstance(r, list) else [r])]
                return None
            if op in RELOP:
                a = self.aval(st, args[0], e)
                b = self.aval(st, args[1], e)
                if a[0] == "zero" and fa in ("sp", "wp", "func"):
                    a = NULL
                if b[0] == "zero" and fb in ("sp", "wp", "func"):
                    b = NULL
                if a[0] == "obj" and a[1] == "tieref":
                    a = ("obj", "tuple", tuple((n, st.get(self.as_loc(p))) for n, p in a[2]))
                    b2 = b
                    if b[0] == "obj" and b[1] == "tieref":
                        b2 = ("obj", "tuple", tuple((n, st.get(self.as_loc(p))) for n, p in b[2]))
                    tys = [x.strip() for x in ta.ta if isinstance(x, Ty)]
                    return self.tuplecmp(st, op, a, b2, tys, e)
                return [(s, (V, t)) for s, t in self.compare(st, op, a, ta, b, tb, e)]
            if op == "+" and ("str" in (fa, fb)):
                x = self.sval(st, args[0], e)
                y = self.sval(st, args[1], e)
                self.alloc(st, e)
                return [(st, (V, self.norm(mkseq(parts(x) + parts(y)))))]
            if fa in ("it", "rit") or fb in ("it", "rit"):
                a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
                if op == "-" and b[0] in ("it", "rit", "mvit"):
                    return self.itdiff(st, a, b, e)
                if op == "+":
                    if a[0] in ("it", "rit", "mvit"):
                        return [(st, (V, self.itadd(a, strip(b))))]
                    return [(st, (V, self.itadd(b, strip(a))))]
                if op == "-":
                    return [(st, (V, self.itadd(a, scale(strip(b), -1))))]
            if "chrono" in (fa, fb):
                a, b = strip(self.aval(st, args[0], e)), strip(self.aval(st, args[1], e))
                rt = e["t"].strip() if e.get("t") is not None else None
                pr = self.period(rt) if rt is not None else None
                if self.isfloatdur(ta) or self.isfloatdur(tb) or self.isfloatdur(rt):
                    return [(st, (V, ("durop", op, a, b)))]
                if op in ("+", "-", "%") and fa == fb == "chrono":
                    a = self.rescale(a, self.period(ta), pr)
                    b = self.rescale(b, self.period(tb), pr)
                    return [(st, (V, binint(op, a, b)))]
                if op in ("/",) and fa == fb == "chrono":
                    pa, pb = self.period(ta), self.period(tb)
                    if pa == pb:
                        return [(st, (V, binint("/", a, b)))]
                    return [(st, (V, ("durop", op, a, b)))]
                return [(st, (V, binint(op, a, b)))]
        return None

    def tuplecmp(self, st, op, a, b, tys, e):
        outs, cur = [], [st]
        items = list(zip(a[2], b[2]))
        for n, ((_, x), (_, y)) in enumerate(items):
            t = tys[n] if n < len(tys) else None
            nxt = []
            for s in cur:
                if op in ("==", "!="):
                    for s2, c in self.compare(s, "==", x, t, y, t, e):
                        for s3, ok in self.split(s2, c):
                            if ok:
                                nxt.append(s3)
                            else:
                                outs.append((s3, (V, ("i", int(op == "!=")))))
                else:
                    strictop = op[0]
                    if n == len(items) - 1:
                        for s2, c in self.compare(s, op, x, t, y, t, e):
                            outs.append((s2, (V, c)))
                        continue
                    for s2, c in self.compare(s, strictop, x, t, y, t, e):
                        for s3, ok in self.split(s2, c):
                            if ok:
                                outs.append((s3, (V, ("i", 1))))
                                continue
                            for s4, c2 in self.compare(s3, strictop, y, t, x, t, e):
                                for s5, rev in self.split(s4, c2):
                                    if rev:
                                        outs.append((s5, (V, ("i", 0))))
                                    else:
                                        nxt.append(s5)
            cur = [x for x, _ in merge([(x, None) for x in nxt])]
        if op in ("==", "!="):
            outs += [(s, (V, ("i", int(op == "==")))) for s in cur]
        return merge(outs)

    # ---- utilities ------------------------------------------------------------------------

    def f_make_pair(self, st, fn, args, e):
        t = e["t"].strip()
        st, u = self.fresh(st, "mp", e)
        root = ("t", u)
        out = []
        for s in self.mk_pair(st, (root, ()), t, args, e) if t.k == "rec" and t.qn == "std::pair" else ():
            v = s.get((root, ()))
            s = s.copy()
            s.store.pop(root, None)
            out.append((s, (V, v)))
        return out

    f_make_tuple = None

    def f_tie(self, st, fn, args, e):
        return [(st, (V, ("obj", "tieref", tuple((n, self.addr(a[1]) if a[0] == L else a[1]) for n, a in enumerate(args)))))]

    f_forward_as_tuple = f_tie

    def f_get(self, st, fn, args, e):
        ta = fn.get("ta") or ()
        n = next((x for x in ta if isinstance(x, int)), None)
        if n is None or not args or args[0][0] != L:
            return None
        l = args[0][1]
        v = st.get(l)
        if v[0] == "obj" and v[1] == "tieref":
            return [(st, (L, self.as_loc(v[2][n][1])))]
        if args[0][2].strip().qn == "std::pair":
            return [(st, (L, self.fld(l, ("first", "second")[n])))]
        return [(st, (L, self.child(l, ("i", n))))]

    def f_swap(self, st, fn, args, e):
        if args[0][0] != L or args[1][0] != L:
            return None
        a, b = args[0][1], args[1][1]
        va, vb = self.load(st, a, args[0][2], e), self.load(st, b, args[1][2], e)
        st = self.save(self.save(st, a, vb, e), b, va, e)
        return [(st, (V, ("void",)))]

    def f_exchange(self, st, fn, args, e):
        l = args[0][1]
        old = self.load(st, l, args[0][2], e)
        return [(self.save(st, l, self.aval(st, args[1], e), e), (V, old))]

    def f_addressof(self, st, fn, args, e):
        return [(st, (V, self.addr(args[0][1])))]

    def f_min(self, st, fn, args, e, op="<"):
        if len(args) < 2:
            return None
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        if len(args) > 2:
            outs = []
            for s, r in self.call_value(st, self.aval(st, args[2], e), [args[1], args[0]] if op == "<" else [args[0], args[1]], e):
                outs += self.boolval(s, r)
        else:
            outs = []
            for s, t in self.compare(st, "<", *((b, args[1][2], a, args[0][2]) if op == "<" else (a, args[0][2], b, args[1][2])), e):
                outs += self.split(s, t)
        return [(s, (V, b if take else a)) for s, take in outs]

    def f_max(self, st, fn, args, e):
        return self.f_min(st, fn, args, e, ">")

    def f_isnan(self, st, fn, args, e):
        x = self.aval(st, args[0], e)
        return [(st, (V, ("fin", x, ("nan",))))]

    def f_isinf(self, st, fn, args, e):
        x = self.aval(st, args[0], e)
        return [(st, (V, ("fin", x, ("+inf", "-inf"))))]

    def f_isfinite(self, st, fn, args, e):
        x = self.aval(st, args[0], e)
        return [(st, (V, ("fin", x, ("neg", "zero", "pos"))))]

    def f_isnormal(self, st, fn, args, e):
        return None

    def f_signbit(self, st, fn, args, e):
        x = self.aval(st, args[0], e)
        c = fcls(x, st.facts)
        if c <= {"neg", "-inf"}:
            return [(st, (V, ("i", 1)))]
        if c <= {"pos", "+inf"}:
            return [(st, (V, ("i", 0)))]
        if not (c & {"nan", "zero"}):
            return [(st, (V, ("fin", x, ("neg", "-inf"))))]
        return [(st, (V, ("signbit", x)))]

    f___builtin_isnan = f_isnan
    f___builtin_isfinite = f_isfinite

    def f___builtin_isinf_sign(self, st, fn, args, e):
        return None

    def f_infinity(self, st, fn, args, e):
        return [(st, (V, ("f", INF)))]

    def f_quiet_NaN(self, st, fn, args, e):
        return [(st, (V, ("f", float("nan"))))]

    def f_to_string(self, st, fn, args, e):
        v = self.aval(st, args[0], e)
        if v[0] == "i":
            return [(st, (V, ("s", str(v[1]).encode())))]
        t = args[0][2].strip()
        return [(st, (V, ("seq", (("num", "tsf" if t.k == "float" else "i", v, ("i", 6), ("i", DEFFLAGS), ("classic",)),))))]

    def f_make_shared(self, st, fn, args, e):
        t = e["t"].strip()
        et = t.ta[0] if t.ta and isinstance(t.ta[0], Ty) else None
        st, u = self.fresh(st, "h", e)
        root = ("h", u)
        self.may_throw(st, "lib", self.site(e))
        st = st.ev("new", ("ptr", (root, ())), et.s if et is not None else "?", self.site(e))
        return [(s, (V, ("ptr", (root, ())))) for s in self.build(st, (root, ()), et, args, e)]

    f_make_unique = f_make_shared
    f_allocate_shared = None

    def f_static_pointer_cast(self, st, fn, args, e):
        return [(st, (V, self.aval(st, args[0], e)))]

    f_dynamic_pointer_cast = f_const_pointer_cast = f_static_pointer_cast

    def f_ref(self, st, fn, args, e):
        s, l = self.aloc(st, args[0], self.nid(e))
        return [(s, (V, self.addr(l)))]

    f_cref = f_ref

    def f_bind(self, st, fn, args, e):
        if any(a[2] is not None and a[2].strip().k == "rec" and (a[2].strip().qn or "").startswith("std::_Placeholder") for a in args[1:]):
            return None
        f = self.aval(st, args[0], e)
        return [(st, (V, ("bind", f, tuple(self.decay(st, a, e) for a in args[1:]))))]

    def f_begin(self, st, fn, args, e):
        return self.fbe(st, args, e, True)

    def f_end(self, st, fn, args, e):
        return self.fbe(st, args, e, False)

    f_cbegin, f_cend = f_begin, f_end

    def fbe(self, st, args, e, first):
        a = args[0]
        t = a[2].strip()
        st, l = self.aloc(st, a, self.nid(e))
        if t.k == "array":
            return [(st, (V, ("ptr", self.child(l, ("i", 0 if first else t.n)))))]
        if t.qn == "std::array":
            return [(st, (V, ("ptr", self.child(l, ("i", 0 if first else t.ta[1])))))]
        self.recsz(st, l, e)
        return [(st, (V, ("it", l, ("i", 0) if first else sizeof(st.get(l)))))]

    def f_size(self, st, fn, args, e):
        t = args[0][2].strip()
        if t.k == "array":
            return [(st, (V, ("i", t.n)))]
        return [(st, (V, sizeof(self.aval(st, args[0], e))))]

    def f_distance(self, st, fn, args, e):
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        if self.unmv(a)[0] in ("it", "rit"):
            return self.itdiff(st, b, a, e)
        r = self.range(st, a, b)
        if r is None:
            return None
        return [(st, (V, sub(r[2], r[1])))]

    def f_next(self, st, fn, args, e):
        n = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", 1)
        return [(st, (V, self.itadd(self.aval(st, args[0], e), n)))]

    def f_prev(self, st, fn, args, e):
        n = strip(self.aval(st, args[1], e)) if len(args) > 1 else ("i", 1)
        return [(st, (V, self.itadd(self.aval(st, args[0], e), scale(n, -1))))]

    def f_advance(self, st, fn, args, e):
        l = args[0][1]
        v = st.get(l)
        return [(self.save(st, l, self.itadd(v, strip(self.aval(st, args[1], e))), e), (V, ("void",)))]

    def f_make_move_iterator(self, st, fn, args, e):
        return [(st, (V, ("mvit", self.aval(st, args[0], e))))]

    def f_back_inserter(self, st, fn, args, e):
        return [(st, (V, ("bins", args[0][1])))]

    def f_inserter(self, st, fn, args, e):
        return [(st, (V, ("bins", args[0][1])))]

    def f_make_reverse_iterator(self, st, fn, args, e):
        v = self.aval(st, args[0], e)
        return [(st, (V, ("rit", v[1], v[2])))] if v[0] == "it" else None

    # ---- algorithms ----------------------------------------------------------------------------

    def find_loop(self, st, fn, args, e, test):
        """first position for which test(state, element arg) -> [(state, bool)] holds"""
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)

        def body(s, k):
            return [(s2, k if t else None) for s2, t in test(s, self.elem(loc, lo, k, et))]
        out = []
        for s, r in self.each(st, "find", sub(hi, lo), body, e):
            out.append((s, (V, self.mkit(s, loc, add(lo, r) if r is not None else hi, a))))
        return out

    def f_find_if(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        return self.find_loop(st, fn, args, e, lambda s, x: self.pred(s, f, [x], e))

    def f_find_if_not(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        return self.find_loop(st, fn, args, e, lambda s, x: [(z, not b) for z, b in self.pred(s, f, [x], e)])

    def f_find(self, st, fn, args, e):
        return self.find_loop(st, fn, args, e, lambda s, x: self.cmpargs(s, "==", x, args[2], e))

    def cmpargs(self, st, op, a, b, e):
        out = []
        for s, t in self.compare(st, op, self.aval(st, a, e), a[2], self.aval(st, b, e), b[2], e):
            out += self.split(s, t)
        return out

    def f_lower_bound(self, st, fn, args, e):
        """on the sorted ranges it requires: the first element that is not less"""
        if len(args) > 3:
            f = self.aval(st, args[3], e)
            return self.find_loop(st, fn, args, e, lambda s, x: [(z, not b) for z, b in self.pred(s, f, [x, args[2]], e)])
        return self.find_loop(st, fn, args, e, lambda s, x: [(z, not b) for z, b in self.cmpargs(s, "<", x, args[2], e)])

    def f_upper_bound(self, st, fn, args, e):
        if len(args) > 3:
            f = self.aval(st, args[3], e)
            return self.find_loop(st, fn, args, e, lambda s, x: self.pred(s, f, [args[2], x], e))
        return self.find_loop(st, fn, args, e, lambda s, x: self.cmpargs(s, "<", args[2], x, e))

    def f_partition_point(self, st, fn, args, e):
        return self.f_find_if_not(st, fn, args, e)

    def quant(self, st, fn, args, e, stop, res):
        f = self.aval(st, args[2], e)
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)

        def body(s, k):
            return [(s2, ("i", int(res)) if t == stop else None) for s2, t in self.pred(s, f, [self.elem(loc, lo, k, et)], e)]
        return [(s, (V, r if r is not None else ("i", int(not res)))) for s, r in self.each(st, "quant", sub(hi, lo), body, e)]

    def f_any_of(self, st, fn, args, e):
        return self.quant(st, fn, args, e, True, True)

    def f_none_of(self, st, fn, args, e):
        return self.quant(st, fn, args, e, True, False)

    def f_all_of(self, st, fn, args, e):
        return self.quant(st, fn, args, e, False, False)

    def adj(self, st, fn, args, e, test):
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)

        def body(s, k):
            x = self.elem(loc, lo, k, et)
            y = self.elem(loc, lo, add(k, ("i", 1)), et)
            return [(s2, k if t else None) for s2, t in test(s, x, y)]
        out = []
        for s, r in self.each(st, "adj", add(sub(hi, lo), ("i", -1)), body, e):
            out.append((s, loc, lo, hi, r, a))
        return out

    def f_adjacent_find(self, st, fn, args, e):
        if len(args) > 2:
            f = self.aval(st, args[2], e)
            test = lambda s, x, y: self.pred(s, f, [x, y], e)
        else:
            test = lambda s, x, y: self.cmpargs(s, "==", x, y, e)
        return [(s, (V, self.mkit(s, loc, add(lo, r) if r is not None else hi, a)))
                for s, loc, lo, hi, r, a in self.adj(st, fn, args, e, test)]

    def f_is_sorted(self, st, fn, args, e):
        if len(args) > 2:
            f = self.aval(st, args[2], e)
            test = lambda s, x, y: self.pred(s, f, [y, x], e)
        else:
            test = lambda s, x, y: self.cmpargs(s, "<", y, x, e)
        return [(s, (V, ("i", int(r is None)))) for s, loc, lo, hi, r, a in self.adj(st, fn, args, e, test)]

    def f_is_sorted_until(self, st, fn, args, e):
        if len(args) > 2:
            f = self.aval(st, args[2], e)
            test = lambda s, x, y: self.pred(s, f, [y, x], e)
        else:
            test = lambda s, x, y: self.cmpargs(s, "<", y, x, e)
        return [(s, (V, self.mkit(s, loc, add(add(lo, r), ("i", 1)) if r is not None else hi, a)))
                for s, loc, lo, hi, r, a in self.adj(st, fn, args, e, test)]

    def f_for_each(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)

        def body(s, k):
            return [(s2, None) for s2, _ in self.call_value(s, f, [self.elem(loc, lo, k, et)], e)]
        return [(s, (V, f)) for s, r in self.each(st, "fe", sub(hi, lo), body, e)]

    def output(self, st, out, k, v, e):
        """*out++ = v for the k-th element"""
        if out[0] == "bins":
            c = out[1]
            return self.wr(st, c, mkseq(parts(st.get(c)) + (("one", v),)), e)
        return self.save(st, self.itloc(st, self.itadd(out, k)), v, e)

    def f_transform(self, st, fn, args, e):
        a, b = self.aval(st, args[0], e), self.aval(st, args[1], e)
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        if len(args) == 4:
            o, f = self.aval(st, args[2], e), self.aval(st, args[3], e)
            more = None
        else:
            more, o, f = self.aval(st, args[2], e), self.aval(st, args[3], e), self.aval(st, args[4], e)

        def body(s, k):
            xs = [self.elem(loc, lo, k, et)]
            if more is not None:
                xs.append((L, self.itloc(s, self.itadd(more, k)), self.itelty(args[2][2]), "l"))
            out = []
            for s2, r in self.call_value(s, f, xs, e):
                v = s2.get(r[1]) if r[0] == L else r[1]
                out.append((self.output(s2, o, k, v, e), None))
            return out
        n = sub(hi, lo)
        return [(s, (V, o if o[0] == "bins" else self.itadd(o, n))) for s, r in self.each(st, "tr", n, body, e)]

    def f_copy(self, st, fn, args, e):
        a, b, o = [self.aval(st, x, e) for x in args[:3]]
        loc, lo, hi, mv = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        if o[0] == "bins":
            c = o[1]
            x = self.rangeval(st, (loc, lo, hi, mv), e)
            return [(self.wr(st, c, mkseq(parts(st.get(c)) + parts(x)), e), (V, o))]

        def body(s, k):
            return [(self.output(s, o, k, self.load(s, self.child(loc, add(lo, k)), et, e), e), None)]
        n = sub(hi, lo)
        return [(s, (V, self.itadd(o, n))) for s, r in self.each(st, "cp", n, body, e)]

    def f_move(self, st, fn, args, e):
        if len(args) != 3:
            return None
        return self.f_copy(st, fn, args, e)

    def f_copy_n(self, st, fn, args, e):
        a = self.aval(st, args[0], e)
        n = strip(self.aval(st, args[1], e))
        return self.f_copy(st, fn, [args[0], (V, self.itadd(a, n), args[0][2], None), args[2]], e)

    def f_copy_if(self, st, fn, args, e):
        a, b, o, f = [self.aval(st, x, e) for x in args[:4]]
        loc, lo, hi, mv = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        if o[0] != "bins":
            return None

        def body(s, k):
            out = []
            x = self.elem(loc, lo, k, et)
            for s2, t in self.pred(s, f, [x], e):
                out.append((self.output(s2, o, k, self.aval(s2, x, e), e) if t else s2, None))
            return out
        return [(s, (V, o)) for s, r in self.each(st, "cpi", sub(hi, lo), body, e)]

    def f_accumulate(self, st, fn, args, e):
        a, b, init = [self.aval(st, x, e) for x in args[:3]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        rt = e["t"]
        accroot = ("v", self.fr.ctx, ("accu", e.get("i", 0)))
        al = (accroot, ())
        st = st.set(al, init)

        def body(s, k):
            out = []
            cur = s.get(al)
            if len(args) > 3:
                for s2, r in self.call_value(s, self.aval(s, args[3], e), [(V, cur, rt, None), self.elem(loc, lo, k, et)], e):
                    v = s2.get(r[1]) if r[0] == L else r[1]
                    out.append((s2.set(al, v), None))
            else:
                x = self.load(s, self.child(loc, add(lo, k)), et, e)
                if self.family(rt.strip()) == "str":
                    v = mkseq(parts(cur) + parts(x))
                elif rt.k == "float":
                    v = binfl("+", cur, x)
                else:
                    v = binint("+", cur, x)
                out.append((s.set(al, v), None))
            return out
        out = []
        for s, r in self.each(st, "acc", sub(hi, lo), body, e):
            v = s.get(al)
            s = s.copy()
            s.store.pop(accroot, None)
            out.append((s, (V, v)))
        return out

    def f_count_if(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        return self.count(st, args, e, lambda s, x: self.pred(s, f, [x], e))

    def f_count(self, st, fn, args, e):
        return self.count(st, args, e, lambda s, x: self.cmpargs(s, "==", x, args[2], e))

    def count(self, st, args, e, test):
        """all n elements pass the test: n; none of them: 0; some, but not all: an unknown number in between"""
        a, b = [self.aval(st, x, e) for x in args[:2]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)
        n = sub(hi, lo)

        def body(want):
            return lambda s, k: [(s2, k if t == want else None) for s2, t in test(s, self.elem(loc, lo, k, et))]
        out = []
        for s, r in self.each(st, "cntall", n, body(False), e):
            if r is None:
                out.append((s, (V, n)))
                continue
            for s, r in self.each(s, "cnt", n, body(True), e):
                if r is None:
                    out.append((s, (V, ("i", 0))))
                    continue
                s, u = self.fresh(s, "cn", e)
                c = ("count", u)
                s = assume_int(s, ">=", c, ("i", 1))
                s = s and assume_int(s, "<", c, n)
                if s is not None:
                    out.append((s, (V, c)))
        return out

    def f_replace(self, st, fn, args, e):
        return self.replacing(st, args, e, lambda s, x: self.cmpargs(s, "==", x, args[2], e))

    def f_replace_if(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        return self.replacing(st, args, e, lambda s, x: self.pred(s, f, [x], e))

    def replacing(self, st, args, e, test):
        a, b = [self.aval(st, x, e) for x in args[:2]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        self.rec(st, loc, "r", e)

        def body(s, k):
            out = []
            x = self.elem(loc, lo, k, et)
            for s2, t in test(s, x):
                v = self.aval(s2, args[3], e) if t else self.load(s2, self.child(loc, add(lo, k)), et, e)
                out.append((self.save(s2, self.child(loc, add(lo, k)), v, e), None))
            return out
        return [(s, (V, ("void",))) for s, r in self.each(st, "rpl", sub(hi, lo), body, e)]

    def f_remove_if(self, st, fn, args, e):
        f = self.aval(st, args[2], e)
        return self.removal(st, args, e, lambda s, x: self.pred(s, f, [x], e))

    def f_remove(self, st, fn, args, e):
        if len(args) < 3:
            return None
        return self.removal(st, args, e, lambda s, x: self.cmpargs(s, "==", x, args[2], e))

    f_stable_partition = None

    def removal(self, st, args, e, test):
        a, b = [self.aval(st, x, e) for x in args[:2]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        v0 = st.get(loc)
        pre = self.slice(st, v0, ("i", 0), lo)
        suf = self.slice(st, v0, hi, sizeof(v0))
        root = ("v", self.fr.ctx, ("flt", e.get("i", 0)))
        al = (root, ())
        st, u = self.fresh(st, "rm", e)
        st = st.set(al, EMPTY)

        def body(s, k):
            out = []
            x = self.elem(loc, lo, k, et)
            for s2, t in test(s, x):
                if not t:
                    s2 = s2.set(al, mkseq(parts(s2.get(al)) + (("one", self.load(s2, x[1], et, e)),)))
                out.append((s2, None))
            return out
        out = []
        for s, r in self.each(st, "rm", sub(hi, lo), body, e):
            kept = s.get(al)
            s = s.copy()
            s.store.pop(root, None)
            ps = parts(pre) + parts(kept)
            idx = ("i", 0)
            for p in ps:
                idx = add(idx, part_size(p))
            junk = (("junk", v0, u),) if sub(hi, lo) != ("i", 0) else ()
            s = self.save(s, loc, mkseq(ps + junk + parts(suf)), e)
            NAT.setdefault(("size", ("seq", junk)), NONNEG)
            # the sizes add up: end iterators taken before stay end iterators
            s = s.copy()
            out.append((s, (V, self.mkit(s, loc, idx, a))))
        return out

    def f_sort(self, st, fn, args, e):
        a, b = [self.aval(st, x, e) for x in args[:2]]
        r = self.algrange(st, a, b, e)
        loc, lo, hi, _ = r
        st, u = self.fresh(st, "so", e)
        v = st.get(loc)
        self.within(st, loc, lo, hi, self.arrsize(loc) or sizeof(v), e)
        st = st.ev("sort", loc, lo, hi, self.site(e), len(args))
        self.rec(st, loc, "r", e)
        return [(self.save(st, loc, ("sorted", v, lo, hi, u), e), (V, ("void",)))]

    f_stable_sort = f_sort

    def f_reverse(self, st, fn, args, e):
        return None

    def f_fill(self, st, fn, args, e):
        a, b, x = [self.aval(st, y, e) for y in args[:3]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        n = sub(hi, lo)
        v = st.get(loc)
        if lo == ("i", 0) and (idx_diff(hi, sizeof(v)) == 0):
            return [(self.save(st, loc, mkseq((("rep", n, x),)), e), (V, ("void",)))]

        def body(s, k):
            return [(self.save(s, self.child(loc, add(lo, k)), x, e), None)]
        return [(s, (V, ("void",))) for s, r in self.each(st, "fill", n, body, e)]

    def f_equal(self, st, fn, args, e):
        a, b, c = [self.aval(st, x, e) for x in args[:3]]
        loc, lo, hi, _ = self.algrange(st, a, b, e)
        et = self.itelty(args[0][2])
        n = sub(hi, lo)
        f, sts, out = None, [st], []
        rest = list(args[3:])
        if rest and rest[0][2] is not None and args[2][2] is not None and rest[0][2].strip() == args[2][2].strip():
            r2 = self.algrange(st, c, self.aval(st, rest.pop(0), e), e)
            sts = []
            for s, t in self.split(st, self.cmp("==", sub(r2[2], r2[1]), n, "i")):
                if t:
                    sts.append(s)
                else:
                    out.append((s, (V, ("i", 0))))
        if rest:
            f = self.aval(st, rest[0], e)
        self.rec(st, loc, "r", e)
        if f is None and lo == ("i", 0) and idx_diff(hi, sizeof(st.get(loc))) == 0:
            # two whole containers of one size: as the containers compare
            w = self.wholes(sts, st.get(loc), n, c)
            if w is not None:
                return out + [(s, (V, v)) for s, v in w]

        def body(s, k):
            x = self.elem(loc, lo, k, et)
            i2 = self.itadd(c, k)
            y = (L, i2[1] if i2[0] == "ptr" else self.itloc(s, i2), self.itelty(args[2][2]), "l")
            ts = self.pred(s, f, [x, y], e) if f is not None else self.cmpargs(s, "==", x, y, e)
            return [(s2, None if t else k) for s2, t in ts]
        for s in sts:
            out += [(s2, (V, ("i", int(r is None)))) for s2, r in self.each(s, "eq", n, body, e)]
        return out

    def wholes(self, sts, a, n, it):
        if it[0] != "it" or it[2] != ("i", 0):
            return None
        out = []
        for s in sts:
            b = s.get(it[1])
            if not all(t for _, t in self.split(s, self.cmp("==", sizeof(b), n, "i"))):
                return None
            out.append((s, self.streq(a, b) if a[0] == "s" or b[0] == "s" else ("cmp", "==") + tuple(sorted((a, b), key=repr)) + ("p",)))
        return out

    # ---- C string functions ------------------------------------------------------------------------

    def f_strlen(self, st, fn, args, e):
        return [(st, (V, sizeof(self.cval(st, self.aval(st, args[0], e), e))))]

    def f_strcmp(self, st, fn, args, e):
        a, b = [self.cval(st, self.aval(st, x, e), e) for x in args[:2]]
        return [(st, (V, ("scmp", a, b)))]

    def f_compare(self, st, fn, args, e):
        if fn["qn"].startswith("std::char_traits") and len(args) == 3:
            return self.f_strncmp(st, fn, args, e)
        return None

    def f_length(self, st, fn, args, e):
        if fn["qn"].startswith("std::char_traits") and len(args) == 1:
            return self.f_strlen(st, fn, args, e)
        return None

    def f_memcmp(self, st, fn, args, e):
        return self.f_strncmp(st, fn, args, e)

    def f_strncmp(self, st, fn, args, e):
        """also those that do not stop at a terminator, where there is none in the characters of one side"""
        a0, b0 = [self.aval(st, x, e) for x in args[:2]]
        a, b = self.cval(st, a0, e), self.cval(st, b0, e)
        n = strip(self.aval(st, args[2], e))
        if n[0] == "i":
            ca, cb = cstr(a), cstr(b)
            if cb is not None and len(cb) >= n[1] and a0[0] == "cstr":
                a = a0[1]
            elif ca is not None and len(ca) >= n[1] and b0[0] == "cstr":
                b = b0[1]
            elif fn["qn"].rsplit("::", 1)[-1] != "strncmp":
                return None
            xs = []
            for v in (a, b):
                c = cstr(v)
                xs.append(("s", c[:n[1]]) if c is not None else ("seq", (("sub", v, ("i", 0), ("min", n, sizeof(v))),)))
            return [(st, (V, ("scmp", xs[0], xs[1])))]
        return None

    def f_memcpy(self, st, fn, args, e):
        return None

    def f_memset(self, st, fn, args, e):
        p, c, n = [self.aval(st, x, e) for x in args[:3]]
        if c == ("i", 0) and p[0] == "ptr":
            return [(self.save(st, p[1], ZEROV, e), (V, p))]
        return None

    # ---- formatting manipulators --------------------------------------------------------------------

    def f_setprecision(self, st, fn, args, e):
        return [(st, (V, ("manip", "setprecision", self.aval(st, args[0], e))))]

    def f_setw(self, st, fn, args, e):
        return [(st, (V, ("manip", "setw", self.aval(st, args[0], e))))]

    def f_setfill(self, st, fn, args, e):
        return [(st, (V, ("manip", "setfill", self.aval(st, args[0], e))))]

    def f_setbase(self, st, fn, args, e):
        return [(st, (V, ("manip", "setbase", self.aval(st, args[0], e))))]

    def f_setiosflags(self, st, fn, args, e):
        return [(st, (V, ("manip", "setiosflags", self.aval(st, args[0], e))))]

    def f_resetiosflags(self, st, fn, args, e):
        return [(st, (V, ("manip", "resetiosflags", self.aval(st, args[0], e))))]

    def iosmanip(self, st, fn, args, e):
        if args and args[0][0] == L and self.family(args[0][2]) == "os":
            s = self.manip(st, args[0][1], ("fnptr", "", fn["qn"]), e)
            return [(s, (L, args[0][1]))]
        return None

    for _n in list(FLAGMASK) + ["std::endl", "std::flush", "std::ends"]:
        locals()["f_" + _n[5:]] = iosmanip
    del _n

    def f_classic(self, st, fn, args, e):
        return [(st, (V, ("classic",)))]

    # ---- time, threads, locks --------------------------------------------------------------------------

    def f_now(self, st, fn, args, e):
        st, u = self.fresh(st, "now", e)
        r = ("now", fn["qn"], u)
        NAT[r] = NONNEG
        return [(st.ev("now", fn["qn"], u, self.site(e)), (V, r))]

    def f_duration_cast(self, st, fn, args, e):
        v = self.aval(st, args[0], e)
        return [(st, (V, self.durconv(v, args[0][2].strip(), e["t"].strip())))]

    f_time_point_cast = f_duration_cast

    def f_to_time_t(self, st, fn, args, e):
        v = self.aval(st, args[0], e)
        p = self.period(args[0][2].strip())
        return [(st, (V, self.rescale(v, p, Fraction(1))))]

    def f_lock(self, st, fn, args, e):
        if fn["qn"] != "std::lock":
            return None
        for a in args:
            v = st.get(a[1])
            if v[0] == "guard":
                for m in v[1]:
                    st = self.acquire(st, m, e)
                st = st.set(a[1], ("guard", v[1], 1))
            else:
                st = self.acquire(st, a[1], e)
        return [(st, (V, ("void",)))]

    def f_async(self, st, fn, args, e):
        policy = None
        i = 0
        if args[0][2] is not None and args[0][2].strip().k == "enum":
            policy = self.aval(st, args[0], e)
            i = 1
        f = self.aval(st, args[i], e)
        rest = args[i + 1:]
        held = st.locks
        st, u = self.fresh(st, "async", e)
        st = st.ev("async", policy, f, u, self.site(e), self.locknames(st))
        self.may_throw(st, "lib", self.site(e))
        st = st.copy()
        st.locks = ()
        out = []
        if f[0] in ("lam", "fnptr", "obj", "bind"):
            # every captured or passed value is a copy; references are not
            rest = [self.decay(st, a, e) for a in rest]
            self.start_async = True
            try:
                outs, thrown = self.sub(lambda: self.call_value(st, f, rest, e))
            finally:
                self.start_async = False
            for s, r in outs:
                v = r[1] if r[0] == V else s.get(r[1])
                out.append((s, ("future", v)))
            for s, x in thrown:
                out.append((s, ("future", ("thrown", x.ty, x.site))))
        else:
            st = st.ev("asyncunknown", f, self.site(e))
            out.append((st, ("future", ("call", "async", (f,), u))))
        res = []
        for s, v in out:
            s = s.ev("asyncend", u)
            s.locks = held
            res.append((s, (V, v)))
        return res

    def decay(self, st, a, e):
        """an argument as std::async and std::bind keep it: a copy, or a reference given by std::ref"""
        v = self.aval(st, a, e)
        if a[2] is not None and a[2].strip().qn == "std::reference_wrapper":
            return (L, self.as_loc(v), None, None)
        return (V, v, a[2], None)

    def f_time(self, st, fn, args, e):
        st, u = self.fresh(st, "time", e)
        st = st.ev("ext", "time", (), u, self.locknames(st), self.site(e))
        r = ("call", "time", (), u)
        return [(st, (V, r))]

    def f_terminate(self, st, fn, args, e):
        self.throw(st.ev("terminate", self.site(e)), Exc("abort", self.site(e), "abort"))
        return []

    f_abort = f_terminate

    def f_current_exception(self, st, fn, args, e):
        return [(st, (V, ("sym", "current_exception")))]

    def f_hash_value(self, st, fn, args, e):
        return None
