"""Abstract interpreter over the exported, type-checked program.

Interprocedural, flow and context sensitive.  Values are provenance terms (where
a value comes from), conditions refine a non-relational product domain
(state.py / facts.py), control flow joins merge states that differ only in
facts, and loops are summarised at a fixpoint of their head state (LoopSum).
Nothing is executed and no solver is used."""
import sys
from frontend import AnalysisError, Ty
from facts import *
from terms import *
from state import *

sys.setrecursionlimit(20000)

EXC_BASES = {
    "std::invalid_argument": ("std::logic_error", "std::exception"),
    "std::length_error": ("std::logic_error", "std::exception"),
    "std::out_of_range": ("std::logic_error", "std::exception"),
    "std::domain_error": ("std::logic_error", "std::exception"),
    "std::logic_error": ("std::exception",),
    "std::runtime_error": ("std::exception",),
    "std::range_error": ("std::runtime_error", "std::exception"),
    "std::overflow_error": ("std::runtime_error", "std::exception"),
    "std::bad_alloc": ("std::exception",),
    "std::system_error": ("std::runtime_error", "std::exception"),
    "std::bad_function_call": ("std::exception",),
}


class Frame:
    __slots__ = ("fn", "ctx", "this", "caps", "is_async", "site", "excs")

    def __init__(self, fn, ctx, this, caps, is_async, site):
        self.fn, self.ctx, self.this, self.caps, self.is_async, self.site = fn, ctx, this, caps, is_async, site
        self.excs = []


class Access:
    __slots__ = ("loc", "rw", "locks", "site", "atomic", "is_async", "stack", "ty")

    def __init__(self, loc, rw, locks, site, atomic, is_async, stack, ty=None):
        self.loc, self.rw, self.locks, self.site = loc, rw, locks, site
        self.atomic, self.is_async, self.stack, self.ty = atomic, is_async, stack, ty

    def __repr__(self):
        return "%s %s under %s at %s" % (self.rw, showloc(self.loc), [showloc(l) for l in self.locks], self.site)


class Exc:
    __slots__ = ("ty", "site", "kind")

    def __init__(self, ty, site, kind):
        self.ty, self.site, self.kind = ty, site, kind

    def __eq__(self, o):
        return isinstance(o, Exc) and (self.ty, self.site, self.kind) == (o.ty, o.site, o.kind)

    def __hash__(self):
        return hash((self.ty, self.site, self.kind))

    def __repr__(self):
        return "throw %s at %s" % (self.ty, self.site)


class Outcome:
    """One way in which an analysed entry function can end."""
    __slots__ = ("kind", "st", "val", "exc")

    def __init__(self, kind, st, val=None, exc=None):
        self.kind, self.st, self.val, self.exc = kind, st, val, exc

    @property
    def events(self):
        return self.st.events()

    @property
    def facts(self):
        return self.st.facts


class Trans:
    """One way in which one iteration of a loop can complete."""
    __slots__ = ("src", "dst", "facts", "delta", "events", "parts", "phi", "heap", "site")


class LoopSum:
    """Summary of a loop: all iterations behave like one of `trans`."""
    __slots__ = ("lid", "site", "n", "inds", "accs", "phis", "flags", "heads", "trans", "hvals", "entry", "maps",
                 "fn", "entries")

    def __init__(self, lid, site):
        self.lid, self.site = lid, site
        self.n = None
        self.inds, self.accs, self.phis, self.flags, self.maps = {}, {}, {}, (), {}
        self.heads, self.trans, self.hvals, self.entries = [], [], [], []

    table = {}

    def intern(self):
        """the one LoopSum with this content"""
        k = (self.lid, self.n, tuple(self.inds.items()), tuple(self.accs.items()), tuple(self.phis.items()),
             self.flags, tuple(self.hvals), tuple(self.heads), tuple(self.maps.items()),
             tuple((t.src, t.dst, t.delta.key(), t.events, tuple(t.parts.items()), tuple(t.phi.items())) for t in self.trans))
        o = LoopSum.table.get(k)
        if o is None:
            LoopSum.table[k] = self
            return self
        for a, b in zip(o.trans, self.trans):
            a.facts = a.facts.join(b.facts)
        o.entries += [e for e in self.entries if e not in o.entries]
        return o

    def towards(self, first, last):
        """the summary of the runs that end in head state `last`"""
        fw, bw = {first}, {last}
        for _ in range(len(self.hvals) + 1):
            fw |= {t.dst for t in self.trans if t.src in fw}
            bw |= {t.src for t in self.trans if t.dst in bw}
        keep = [t for t in self.trans if t.src in fw and t.dst in bw]
        o = LoopSum(self.lid, self.site)
        for a in ("n", "inds", "accs", "phis", "flags", "heads", "hvals", "entry", "maps", "fn", "entries"):
            if hasattr(self, a):
                setattr(o, a, getattr(self, a))
        o.trans, o.heads = keep, [first, last]
        return o.intern()

    def uniform(self, loc):
        m = None
        for t in self.trans:
            ps = t.parts.get(loc, ())
            c = 0
            for p in ps:
                z = part_size(p)
                if z[0] != "i":
                    return None
                c += z[1]
            if m is None:
                m = c
            elif m != c:
                return None
        return m if m is not None else 0

    def K(self):
        return ("k", self.lid)

    def describe(self, loc=None):
        s = "<n=%s" % (show(self.n) if self.n is not None else "?")
        if loc is not None:
            for t in self.trans:
                s += " | " + (" ".join(showpart(p) for p in t.parts.get(loc, ())) or "-")
        return s + ">"

    def __repr__(self):
        return "Loop@%s%s" % (self.site, self.describe())

    def dump(self, ind="  "):
        out = ["%sloop %s n=%s" % (ind, self.site, show(self.n) if self.n else "?")]
        for l, (i, s) in self.inds.items():
            out.append("%s ind %s = %s + %s*k" % (ind, showloc1(l), show(i), s))
        for l, i in self.phis.items():
            out.append("%s phi %s init %s" % (ind, showloc1(l), show(i)))
        for t in self.trans:
            out.append("%s trans %s->%s  if %r" % (ind, t.src, t.dst, t.delta))
            for e in t.events:
                out.append("%s   %s" % (ind, showev(e)))
            for l, p in t.parts.items():
                out.append("%s   append %s: %s" % (ind, showloc1(l), " ".join(showpart(x) for x in p)))
            for l, p in t.phi.items():
                out.append("%s   next %s: %s" % (ind, showloc1(l), show(p)))
        return "\n".join(out)


def showloc1(l):
    if l[1] and l[1][-1][0] == "@idx":
        return showloc((l[0], l[1][:-1])) + ".pos"
    return showloc(l)


def showev(e):
    out = []
    for x in e[1:]:
        if isinstance(x, LoopSum):
            out.append("\n" + x.dump("      "))
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str) and x[0][0] in "vgthpc":
            try:
                out.append(showloc(x))
            except Exception:
                out.append(str(x))
        elif isinstance(x, tuple) and x and isinstance(x[0], str):
            out.append(show(x))
        elif isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out.append("(" + ", ".join(show(y) if isinstance(y, tuple) else str(y) for y in x) + ")")
        else:
            out.append(str(x))
    return "%s %s" % (e[0], " ".join(out))


L, V = "L", "V"
BOOLK = ("cmp", "not", "has", "expired", "pre", "fin", "in", "strtest", "signbit", "ownerlt")


class Engine:
    def __init__(self, P, opaque=(), throws="cb", maxstates=4000, inline_virtual=False):
        self.P = P
        self.opaque = set(opaque)
        self.throws = throws
        self.sink = []
        self.frames = []
        self.accesses = []
        self.stdarr = {}
        self.start_async = False
        self.unknown = set()
        self.visited = set()
        self.ncalls = 0
        self.loops = []
        self.ctxs = {}
        self.maxstates = maxstates
        self.steps = 0
        self._dt = {}
        self.watch = ()
        self.hints = {}
        self.relinv = {}       # loop -> {container: integer location that holds its size at the loop head}
        self.relhints = {}
        self.arrlen = {}       # local array -> number of elements

    # ================= infrastructure =====================================

    @property
    def fr(self):
        return self.frames[-1]

    def site(self, e):
        l = e.get("l") if isinstance(e, dict) else None
        return "%s:%d" % (l[0], l[1]) if l else "?"

    def nid(self, e):
        return (self.fr.ctx, e.get("i", 0))

    def ctxid(self, k):
        n = self.ctxs.get(k)
        if n is None:
            n = self.ctxs[k] = len(self.ctxs) + 1
        return n

    def bad(self, what, e=None):
        fn = self.frames[-1].fn if self.frames else None
        raise AnalysisError("unsupported %s at %s in %s" % (what, self.site(e or {}), fn.qn if fn else "?"))

    mem = False        # log whether elements exist and pointers are not null (C39)

    def need(self, st, rule, ok, loc, what, e):
        self.accesses.append(Access(loc, rule, (), self.site(e or {}), False, False, tuple(f.fn.qn for f in self.frames if f.fn), (ok, what)))

    def bounds(self, st, loc, e):
        root, path = loc
        v = st.store.get(root)
        if v is None:
            v = st.init(root)
        for n, s in enumerate(path):
            if s[0] == "x":
                pre = (root, path[:n])
                i = s[1]
                if i[0] == "find":
                    ok = v[0] == "mins" and v[2] == i[2] or rng(("has", v, i[2]), st.facts) == IntSet.of(1)
                    self.need(st, "found", ok, pre, lambda v=v, i=i, fa=st.facts: "no entry for %s has been found in %s\n  where %r" % (show(i[2]), show(v), fa), e)
                else:
                    z = self.arrsize(pre) or sizeof(v)
                    self.need(st, "bounds", (i, z, st.facts), pre, lambda i=i, z=z, fa=st.facts: "element %s of %s, which has %s\n  where %r" % (
                        show(i), showloc(pre), show(z), fa), e)
            elif s[0] == "@idx":
                return
            v = proj(v, s)

    def arrsize(self, loc):
        n = self.arrlen.get(loc)
        return ("i", n) if n is not None else self.stdarr.get(loc[1][-1:] or loc)

    def within(self, st, loc, lo, hi, z, e):
        """the positions lo <= hi lie in [0, z]"""
        if self.mem:
            for i, n, m in ((lo, add(hi, ("i", 1)), hi), (hi, add(z, ("i", 1)), z)):
                self.need(st, "bounds", (i, n, st.facts), loc, lambda i=i, m=m, fa=st.facts: "position %s of %s is not shown to be within 0..%s\n  where %r" % (
                    show(i), showloc(loc), show(m), fa), e)

    def invalidate(self, st, o, e, lo=None, only=None):
        """the references and iterators that variables hold into container o (from position lo on, or to position only)
        are no longer valid"""
        if not self.mem:
            return st
        root, path = o
        n = len(path)

        own = None
        if only is not None and self.objty(e) is not None:
            own = self.owned(st, o, only, e)
        if own is not None:
            st = self.freed(st, own, e)

        def hit(i):
            if only is not None:
                return i == only
            return lo is None or getrel(st.facts, i, lo, REL) != {"<"}

        def gone(v):
            k = v[0] if v else None
            if k == "it" and v[1] == o and hit(v[2]):
                return ("gone", v, self.site(e))
            if k == "ptr":
                r, p = v[1]
                if r == root and p[:n] == path and len(p) > n and p[n][0] == "x" and hit(p[n][1]):
                    return ("gone", v, self.site(e))
                return v
            if k in ("lam", "obj", "upd", "pair", "mvit", "rit", "bind"):
                return deep(v)
            return v

        def deep(v):
            return tuple(gone(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else deep(x) if isinstance(x, tuple) else x for x in v)

        return self.forget(st, gone, root)

    def forget(self, st, gone, skip=None):
        new = {r: g for r, v in st.store.items() if r[0] in ("v", "t") and r != skip for g in (gone(v),) if g is not v and g != v}
        if new:
            st = st.copy()
            st.store.update(new)
        return st

    def freed(self, st, p, e, skip=None):
        """what variables refer to in the object that p points to no longer exists"""
        if not self.mem or p[0] in ("gone", "null"):
            return st
        root, path = self.as_loc(p)
        if path:
            return st

        def same(q):
            if q[0] == "call" and len(q) > 2 and isinstance(q[2], tuple) and q[2] and same(q[2][0]):
                return True
            return q == p or root[0] == "p" and getrel(st.facts, q, p, REL) == {"="}

        def gone(v):
            if v[0] == "ptr":
                r = v[1][0]
                return ("gone", v, self.site(e)) if r == root or r[0] == "p" and root[0] == "p" and same(r[1]) else v
            return ("gone", v, self.site(e)) if v[0] in ("sym", "fld", "elem", "deref", "call", "newobj") and same(v) else v
        return self.forget(st, gone, skip)

    def ended(self, st, dead, e):
        """the variables in roots dead (a predicate) have ended: pointers to them are no longer valid"""
        if not self.mem:
            return st

        def gone(v):
            k = v[0] if v else None
            if k == "ptr" and dead(v[1][0]) or k == "cstr" and dead(v[2][0]):
                return ("gone", v, self.site(e))
            return v
        return self.forget(st, gone)

    def temporary(self, st, v, e):
        """the pointer v after the end of the expression that made it"""
        loc = v[1] if v[0] == "ptr" else v[2] if v[0] == "cstr" else None
        if not self.mem or loc is None or loc[0][0] != "t":
            return v
        for r, x in st.store.items():
            if r[0] == "v" and x[0] == "ptr" and x[1][0] == loc[0]:
                return v       # a reference keeps the object alive
        return ("gone", v, self.site(e))

    def valid(self, v):
        """the reference or iterator itself, if it is still valid"""
        if v[0] != "gone":
            return v
        self.accesses.append(Access(v, "dangling", (), v[2], False, False, tuple(f.fn.qn for f in self.frames if f.fn), (
            False, lambda: "%s is used although what it refers to no longer exists" % show(v[1]))))
        return v[1]

    def deref(self, st, p, e, to=True):
        p = self.valid(p)
        if self.mem and p[0] == "ptradd" and p[1][0] == "s":
            i, z = strip(p[2]), ("i", len(p[1][1]) + 1)
            self.need(st, "bounds", (i, z, st.facts), p, lambda: "element %s of %s\n  where %r" % (show(i), show(p[1]), st.facts), e)
        elif self.mem and p[0] not in ("ptr", "s", "newobj", "cstr", "glob", "ntcs"):
            r = getrel(st.facts, p, NULL, REL)
            self.need(st, "null", "=" not in r, p, lambda: "%s may be null\n  where %r" % (show(p), st.facts), e)
        return self.as_loc(p) if to else None

    def rec(self, st, loc, rw, e=None, atomic=False):
        if self.mem:
            self.bounds(st, loc, e)
        r = loc[0][0]
        if r == "c" or r == "t":
            return
        if r == "v" and not (self.fr.is_async and loc[0][1] not in self.fr.is_async):
            return
        if r == "g":
            g = self.P.globals.get(loc[0][1])
            if g is not None and g.get("const"):
                return
        self.accesses.append(Access(loc, rw, tuple(m for m, _, md in st.locks if md == "x" or rw == "r"), self.site(e or {}), atomic,
                                    bool(self.fr.is_async), tuple(f.fn.qn for f in self.frames if f.fn)))

    def sub(self, f, *a):
        """runs f with a fresh throw sink: (result, thrown)"""
        old, self.sink = self.sink, []
        try:
            r = f(*a)
            return r, self.sink
        finally:
            self.sink = old

    def throw(self, st, exc):
        self.sink.append((st, exc))

    def may_throw(self, st, kind, site, ty=None):
        """an opaque operation that may throw (kind: 'cb' user code, 'lib' library)"""
        if kind == "cb" and self.throws in ("cb", "all") or kind == "lib" and self.throws == "all":
            s = st.ev("throws", kind, site)
            self.throw(s, Exc(ty, site, kind))

    # pointers and locations ------------------------------------------------

    def as_loc(self, p, idx=None):
        p = self.valid(p)
        k = p[0]
        if k == "ptr":
            loc = p[1]
        elif k == "s":
            loc = (("c", p[1]), (("x", ("i", 0)),))
        elif k == "cstr":
            loc = (p[2][0], p[2][1] + (("x", ("i", 0)),))
        elif k == "ptradd":
            loc = self.as_loc(p[1])
            root, path = loc
            if path and path[-1][0] == "x":
                return (root, path[:-1] + (("x", add(path[-1][1], p[2])),))
            return (root, path + (("x", p[2]),))
        else:
            loc = (("p", p), ())
        return loc

    def addr(self, loc):
        root, path = loc
        if root[0] == "p" and not path:
            return root[1]
        return ("ptr", loc)

    def ptradd(self, p, n):
        if n == ("i", 0):
            return p
        if p[0] == "ptradd":
            return self.ptradd(p[1], add(p[2], n))
        if p[0] == "ptr" and p[1][1] and p[1][1][-1][0] == "x":
            root, path = p[1]
            return ("ptr", (root, path[:-1] + (("x", add(path[-1][1], n)),)))
        return ("ptradd", p, n)

    def ptrbase(self, p):
        """(base, offset) of an element pointer"""
        if p[0] == "ptradd":
            b, o = self.ptrbase(p[1])
            return b, add(o, p[2])
        if p[0] == "ptr" and p[1][1] and p[1][1][-1][0] == "x":
            root, path = p[1]
            return ("ptr", (root, path[:-1])), path[-1][1]
        if p[0] == "cstr":
            return ("ptr", p[2]), ("i", 0)
        return p, ("i", 0)

    def enumrange(self, ty):
        """an object of enumeration type holds one of its enumerators"""
        e = self.P.enums.get(ty.qn)
        r = IntSet([(int(x), int(x)) for x in e.values()]) if e else width_range(32, 1)
        return r

    # typed loads -----------------------------------------------------------

    def typed(self, v, ty):
        """fixes the representation of a value read with type ty"""
        if ty is None:
            return v
        k = ty.k
        if v[0] == "zero":
            if k in ("int", "enum", "bool"):
                return ("i", 0)
            if k == "float":
                return ("f", 0.0)
            if k in ("ptr", "nullptr"):
                return NULL
            if k == "rec":
                fam = self.family(ty)
                if fam in ("vec", "str", "map"):
                    return EMPTY
                if fam in ("sp", "wp", "func"):
                    return NULL
            return v
        if v[0] == "glob" and k in ("int", "enum", "bool", "float"):
            g = self.globval(v[1])
            if g is not None:
                return g
        if k in ("int", "enum", "bool") and v[0] not in ("i", "lin", "op", "cvt", "size", "k", "cmp", "not"):
            if v not in NAT:
                NAT[v] = BOOL if k == "bool" else self.enumrange(ty) if k == "enum" else width_range(ty.w or 32, ty.sg)
        if k in ("vec", "str") and v[0] == "glob":
            pass
        return v

    def globval(self, qn):
        g = self.P.globals.get(qn)
        if g is None or "init" not in g:
            return None
        if not (g.get("const") or g["t"].const):
            return None
        i = g["init"]
        while i.get("k") in ("cast", "initlist") and "cv" not in i and "cf" not in i:
            if i["k"] == "cast":
                i = i["e"]
            elif len(i["a"]) == 1:
                i = i["a"][0]
            else:
                break
        if "cv" in i or "cvu" in i or "cf" in i:
            return self.const(i)
        if i["k"] == "str" and (g["t"].const or g["t"].k == "array" or g.get("const")):
            return ("s", bytes(i["b"]))
        if i["k"] == "ctor" and len(i["a"]) >= 1 and i["a"][0].get("k") in ("cast", "str") and self.family(g["t"]) == "str":
            j = i["a"][0]
            while j["k"] == "cast":
                j = j["e"]
            if j["k"] == "str" and g.get("const"):
                return ("s", bytes(j["b"]))
        return None

    def const(self, e):
        if "cvu" in e:
            return ("i", int(e["cvu"]))
        if "cv" in e:
            return ("i", int(e["cv"]))
        c = e["cf"]
        if isinstance(c, str):
            return ("f", float(c))
        return ("f", -0.0 if e.get("cfnz") else float(c))

    def load(self, st, loc, ty, e=None):
        root = loc[0]
        if root[0] == "g" and root not in st.store:
            g = self.globval(root[1])
            if g is not None:
                for s in loc[1]:
                    g = proj(g, s)
                return self.typed(g, ty)
        self.rec(st, loc, "r", e)
        v = st.get(loc)
        return self.typed(self.valid(v) if self.mem and v[0] == "gone" and ty.k == "ptr" else v, ty)

    def save(self, st, loc, val, e=None):
        self.rec(st, loc, "w", e)
        return st.set(loc, val)

    FAMS = {
        "std::vector": "vec", "std::deque": "vec", "std::list": "vec", "std::array": "vec", "std::forward_list": "vec",
        "std::initializer_list": "vec", "std::basic_string": "str", "std::basic_string_view": "str",
        "std::map": "map", "std::set": "map", "std::unordered_map": "map", "std::unordered_set": "map",
        "std::multimap": "map", "std::_Rb_tree_iterator": "it", "std::_Rb_tree_const_iterator": "it",
        "__gnu_cxx::__normal_iterator": "it", "std::__detail::_Node_iterator": "it",
        "std::__detail::_Node_const_iterator": "it", "std::__detail::_Node_iterator_base": "it",
        "std::move_iterator": "it", "std::reverse_iterator": "rit", "std::_Deque_iterator": "it",
        "std::_List_iterator": "it", "std::_List_const_iterator": "it",
        "std::back_insert_iterator": "bins", "std::insert_iterator": "bins",
        "std::unique_ptr": "sp", "std::shared_ptr": "sp", "std::__shared_ptr": "sp", "std::__shared_ptr_access": "sp",
        "std::reference_wrapper": "sp", "std::weak_ptr": "wp", "std::__weak_ptr": "wp",
        "std::atomic": "atomic", "std::__atomic_float": "atomic", "std::__atomic_base": "atomic",
        "std::atomic_ref": "atomic",
        "std::mutex": "mutex", "std::recursive_mutex": "mutex", "std::timed_mutex": "mutex",
        "std::shared_mutex": "mutex", "std::shared_timed_mutex": "mutex",
        "std::lock_guard": "guard", "std::unique_lock": "guard", "std::scoped_lock": "guard", "std::shared_lock": "guard",
        "std::basic_ostream": "os", "std::basic_ostringstream": "os", "std::basic_stringstream": "os",
        "std::basic_ios": "os", "std::ios_base": "os", "std::basic_iostream": "os", "std::basic_istream": "os",
        "std::function": "func", "std::pair": "pair", "std::tuple": "pair",
        "std::chrono::duration": "chrono", "std::chrono::time_point": "chrono",
        "std::future": "future", "std::shared_future": "future", "std::promise": "future",
        "std::locale": "locale", "std::optional": "opt",
    }

    def family(self, ty):
        if ty is None:
            return None
        ty = ty.strip()
        if ty.k != "rec":
            return None
        return self.FAMS.get(ty.qn)

    # ================= conditions =========================================

    def cond(self, e, st, join=merge):
        """[(state, bool)]"""
        k = e["k"]
        if "cv" in e:
            return [(st, bool(e["cv"]))]
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["e"], st, join)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["a"], st, join):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["b"], s, join)
            return join(out)
        if k == "cast" and e["ck"] in ("LValueToRValue",) and e["e"]["k"] == "bin" and False:
            pass
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st, join):
                out += self.cond(e["a"] if b else e["b"], s, join)
            return join(out)
        out = []
        for s, v in self.rv(e, st):
            out += self.split(s, v, e["t"])
        return join(out)

    def split(self, st, v, ty=None):
        """[(state, bool)] for a boolean (or contextually converted) value"""
        t = self.truth(v, ty)
        if t[0] == "i":
            return [(st, t[1] != 0)]
        out = []
        for b in (True, False):
            s = self.assume(st, t, b)
            if s is not None:
                out.append((s, b))
        return out

    def truth(self, v, ty=None):
        if v[0] in BOOLK or v[0] == "i":
            return v
        if ty is not None and ty.k == "ptr":
            return self.cmp("!=", v, NULL, "p")
        if ty is not None and ty.k == "float":
            return self.cmp("!=", v, ("f", 0.0), "f")
        if v[0] == "null":
            return ("i", 0)
        if v[0] in ("ptr", "s", "cstr", "lam", "fnptr"):
            return ("i", 1)
        return v

    def assume(self, st, t, truth):
        k = t[0]
        if k == "i":
            return st if bool(t[1]) == truth else None
        if k == "not":
            return self.assume(st, t[1], not truth)
        if k == "cmp":
            op, a, b, kind = t[1], t[2], t[3], t[4]
            if kind == "f":
                return assume_f(st, op, a, b, truth)
            if kind == "i":
                return assume_int(st, op if truth else NEGOP[op], a, b)
            if kind == "p":
                return assume_p(st, op, a, b, truth)
        if NAT.get(t) is not None and NAT[t] != BOOL:
            return assume_int(st, "!=" if truth else "==", t, ("i", 0))
        d = st.facts.dom.get(t)
        if d is not None:
            if d == ZERO and truth or 0 not in d and not truth:
                return None
        cur = st.facts.lit.get(t)
        if cur is not None:
            return st if cur == truth else None
        if k == "pre" and truth:      # room for the prefix
            st = assume_int(st, "<=", add(t[2], ("i", len(t[3]))), sizeof(t[1]))
            if st is None:
                return None
        s = st.nf()
        s.facts.lit[t] = truth
        s.facts.dom[t] = IntSet.of(1) if truth else ZERO
        return s

    def decide(self, st, t):
        """True / False / None"""
        a = self.assume(st, t, True)
        b = self.assume(st, t, False)
        if a is None and b is None:
            return None
        if a is None:
            return False
        if b is None:
            return True
        return None

    def cmp(self, op, a, b, kind):
        if kind == "i":
            if a[0] == "scmp" and b == ("i", 0):
                return self.streq(a[1], a[2]) if op == "==" else self.neg(self.streq(a[1], a[2])) if op == "!=" else ("cmp", op, a, b, "i")
            for x, y, o in ((a, b, op), (b, a, SWAP[op])):
                # comparisons of booleans with constants
                if x[0] in BOOLK and y[0] == "i":
                    t = {0: (o == "==" and y[1] == 0) or (o == "!=" and y[1] == 1) or (o == "<" and y[1] == 1) or (o == "<=" and y[1] == 0),
                         1: (o == "==" and y[1] == 1) or (o == "!=" and y[1] == 0) or (o == ">" and y[1] == 0) or (o == ">=" and y[1] == 1)}
                    if t[1]:
                        return x
                    if t[0]:
                        return self.neg(x)
            d = sub(a, b)
            if d[0] == "i":
                return ("i", int({"==": d[1] == 0, "!=": d[1] != 0, "<": d[1] < 0, "<=": d[1] <= 0,
                                  ">": d[1] > 0, ">=": d[1] >= 0}[op]))
            # (float) integer comparisons come as i2f; keep integers
        if kind == "f":
            if a[0] == "f" and b[0] == "f":
                x, y = a[1], b[1]
                return ("i", int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]))
        if kind == "p":
            if a == b:
                return ("i", int("=" in OPREL[op]))
            if a[0] == "null" and b[0] in NONNULLK or b[0] == "null" and a[0] in NONNULLK:
                return ("i", int(op == "!="))
        return ("cmp", op, a, b, kind)

    def neg(self, t):
        if t[0] == "i":
            return ("i", 0 if t[1] else 1)
        if t[0] == "not":
            return t[1]
        if t[0] == "cmp" and t[4] in "ip":
            return ("cmp", NEGOP[t[1]], t[2], t[3], t[4])
        return ("not", t)

    def streq(self, a, b):
        """boolean term for equality of two strings"""
        ca, cb = cstr(a), cstr(b)
        if ca is not None and cb is not None:
            return ("i", int(ca == cb))
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if not cb:
                return self.cmp("==", sizeof(a), ("i", 0), "i")
            # prefix tests: the first len(cb) characters of t equal cb
            if a[0] == "seq" and len(a[1]) == 1 and a[1][0][0] == "sub":
                _, t, lo, hi = a[1][0]
                if hi[0] == "min" or hi == add(lo, ("i", len(cb))):
                    if hi[0] != "min" or idx_diff(hi[1], add(lo, ("i", len(cb)))) == 0:
                        return ("pre", t, lo, cb)
            return ("cmp", "==", a, ("s", cb), "p")
        if a == b:
            return ("i", 1)
        x, y = sorted((a, b), key=repr)
        return ("cmp", "==", x, y, "p")

    # ================= lvalues ============================================

    def lv(self, e, st):
        k = e["k"]
        m = getattr(self, "lv_" + k, None)
        if e.get("vc") is None and k not in ("bin", "casg"):
            return self.materialize(e, st)
        if m is None:
            self.bad("lvalue " + k, e)
        return m(e, st)

    def materialize(self, e, st):
        st, u = st.uid(("t",) + self.nid(e))
        root = ("t", u)
        loc = (root, ())
        out = []
        for s in self.init_at(st, loc, e["t"], e):
            s = s.copy()
            s.temps = s.temps + (root,)
            if self.has_dtor(e["t"]):
                s.live = s.live + ((loc, e["t"]),)
            out.append((s, loc))
        return out

    def varloc(self, d):
        fr = self.fr
        i = d["id"]
        if i in fr.caps:
            return fr.caps[i], True
        if "glob" in d:
            return (("g", d["glob"]), ()), False
        return (("v", fr.ctx, i), ()), False

    def lv_var(self, e, st):
        d = e["d"]
        loc, cap = self.varloc(d)
        if not cap and d["t"].isref():
            if loc[0][0] == "g" and loc[0] not in st.store:
                return [(st, (("p", ("glob", d["glob"])), ()))]
            return [(st, self.as_loc(st.get(loc)))]
        return [(st, loc)]

    def fldloc(self, st, b, e):
        loc = (b[0], b[1] + (("f", e["f"]),))
        # the type of the member itself tells whether it is a reference
        ft = self.ftype(e["cls"], e["f"])
        if ft is not None and ft.isref():
            return self.as_loc(st.get(loc))
        return loc

    def ftype(self, clst, f):
        c = self.P.classes.get(clst.s.replace("const ", "", 1) if clst.s.startswith("const ") else clst.s)
        if c is None and clst.lam:
            c = self.P.classes.get(clst.lam)
        if c is None:
            return None
        for x in c["fields"]:
            if x["name"] == f:
                return x["t"]
        return None

    def lv_mem(self, e, st):
        out = []
        if e["arrow"]:
            for s, p in self.rv(e["b"], st):
                out.append((s, self.fldloc(s, self.deref(s, p, e) if e["b"]["k"] != "this" else self.as_loc(p), e)))
        else:
            for s, l in self.lv(e["b"], st):
                out.append((s, self.fldloc(s, l, e)))
        return out

    def lv_un(self, e, st):
        op = e["op"]
        if op == "*":
            return [(s, self.deref(s, p, e) if e["e"]["k"] != "this" else self.as_loc(p)) for s, p in self.rv(e["e"], st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st):
                v = self.load(s, l, e["t"], e)
                out.append((self.save(s, l, self.incdec(v, op, e["t"]), e), l))
            return out
        if op in ("__extension__",):
            return self.lv(e["e"], st)
        self.bad("lvalue unary " + op, e)

    def incdec(self, v, op, ty):
        one = 1 if op == "++" else -1
        if ty.k == "float":
            return binfl("+", v, ("f", float(one)))
        if ty.k == "ptr":
            return self.ptradd(v, ("i", one))
        return add(v, ("i", one))

    def lv_idx(self, e, st):
        out = []
        for s, b in self.rv(e["b"], st):
            for s2, x in self.rv(e["x"], s):
                if e["b"]["t"].k != "ptr":
                    b, x = x, b
                l = self.deref(s2, self.ptradd(b, strip(x)), e)
                if not (l[1] and l[1][-1][0] == "x"):
                    l = (l[0], l[1] + (("x", strip(x)),))
                out.append((s2, l))
        return out

    def lv_call(self, e, st):
        out = []
        for s, r in self.call(e, st):
            if r[0] == L:
                out.append((s, r[1]))
            else:
                # a reference result of an opaque call: the value is the pointer
                out.append((s, self.as_loc(r[1])))
        return out

    def lv_cond(self, e, st):
        out = []
        for s, b in self.cond(e["c"], st):
            out += self.lv(e["a"] if b else e["b"], s)
        return out

    def lv_cast(self, e, st):
        if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp", "LValueBitCast", "BaseToDerived",
                       "Dynamic", "UserDefinedConversion"):
            return self.lv(e["e"], st)
        self.bad("lvalue cast " + e["ck"], e)

    def lv_str(self, e, st):
        return [(st, (("c", bytes(e["b"])), ()))]

    def lv_throw(self, e, st):
        self.rv(e, st)
        return []

    def lv_bin(self, e, st):
        if e["op"] == "=":
            return [(s, l) for s, l, _ in self.assign(e, st)]
        if e["op"] == ",":
            out = []
            for s, _ in self.rv(e["a"], st):
                out += self.lv(e["b"], s)
            return out
        self.bad("lvalue binary " + e["op"], e)

    def lv_casg(self, e, st):
        return [(s, l) for s, l, _ in self.casg(e, st)]

    def lv_ctor(self, e, st):
        return self.materialize(e, st)

    lv_initlist = lv_lambda = lv_ctor

    def lv_this(self, e, st):
        self.bad("this as lvalue", e)

    def lv_memfn(self, e, st):
        self.bad("member function value", e)

    def lv_unsupported(self, e, st):
        self.bad(e.get("what", "?"), e)

    # ================= rvalues ============================================

    def rv(self, e, st):
        self.steps += 1
        if self.steps > 3000000:
            raise AnalysisError("analysis budget exceeded in %s" % self.frames[0].fn.qn)
        k = e["k"]
        if ("cv" in e or "cvu" in e or "cf" in e) and e.get("vc") is None:
            return [(st, self.const(e))]
        if e.get("vc") and k not in ("throw", "fnref", "memfn"):
            # value of a glvalue (class types bound by value models)
            return [(s, self.load(s, l, e["t"], e)) for s, l in self.lv(e, st)]
        m = getattr(self, "rv_" + k, None)
        if m is None:
            self.bad("expression " + k, e)
        return m(e, st)

    def rv_int(self, e, st):
        return [(st, self.const(e))] if "cv" in e else self.bad("integer", e)

    rv_float = rv_int

    def rv_enum(self, e, st):
        return [(st, ("i", int(e["v"])))]

    def rv_null(self, e, st):
        return [(st, NULL)]

    def rv_str(self, e, st):
        return [(st, ("s", bytes(e["b"])))]

    def rv_this(self, e, st):
        return [(st, self.fr.this)]

    def rv_zero(self, e, st):
        return [(st, self.typed(ZEROV, e["t"]))]

    def rv_fnref(self, e, st):
        return [(st, ("fnptr", e["fn"]["key"], e["fn"]["qn"]))]

    def rv_memfn(self, e, st):
        self.bad("bound member function", e)

    def rv_unsupported(self, e, st):
        self.bad(e.get("what", "?"), e)

    def rv_throw(self, e, st):
        site = self.site(e)
        if e.get("e") is None:
            exc = self.fr.excs[-1] if self.fr.excs else Exc(None, site, "rethrow")
            self.throw(st.ev("throw", exc.ty, site), exc)
            return []
        for s, v in self.rv(e["e"], st):
            ty = e["et"].qn if e["et"] is not None and e["et"].k == "rec" else repr(e["et"])
            self.throw(s.ev("throw", ty, site), Exc(ty, site, "own"))
        return []

    def rv_lambda(self, e, st):
        outs = [(st, ())]
        for c in e["caps"]:
            nxt = []
            for s, caps in outs:
                if c.get("this"):
                    for s2, v in self.rv(c["init"], s):
                        nxt.append((s2, caps + (("this", 0, v),)))
                elif c.get("ref"):
                    for s2, l in self.lv(c["init"], s):
                        nxt.append((s2, caps + ((c["d"]["id"], 1, ("ptr", l)),)))
                else:
                    i = c["init"]
                    for s2, v in self.rv(i, s):
                        nxt.append((s2, caps + ((c["d"]["id"], 0, v),)))
            outs = nxt
        return [(s, ("lam", e["fn"]["key"], caps)) for s, caps in outs]

    def rv_ctor(self, e, st):
        return self.via_temp(e, st)

    rv_arrinit = rv_ctor

    def rv_initlist(self, e, st):
        t = e["t"]
        if t.k not in ("rec", "array"):
            if not e["a"]:
                return [(st, self.typed(ZEROV, t))]
            return self.rv(e["a"][0], st)
        return self.via_temp(e, st)

    def via_temp(self, e, st):
        s0, u = st.uid(("r",) + self.nid(e))
        root = ("t", u)
        out = []
        for s in self.init_at(s0, (root, ()), e["t"], e):
            v = s.get((root, ()))
            s = s.copy()
            s.store.pop(root, None)
            if self.has_dtor(e["t"]) and self.family(e["t"]) not in ("sp", "vec", "func"):
                s.store[root] = v
                s.temps = s.temps + (root,)
                s.live = s.live + (((root, ()), e["t"]),)
            out.append((s, v))
        return out

    def rv_call(self, e, st):
        out = []
        for s, r in self.call(e, st):
            if r[0] == L:
                out.append((s, self.load(s, r[1], e["t"], e)))
            else:
                out.append((s, self.typed(r[1], e["t"])))
        return out

    def rv_cond(self, e, st):
        out = []
        for s, b in self.cond(e["c"], st):
            out += self.rv(e["a"] if b else e["b"], s)
        return merge(out)

    def rv_stmtexpr(self, e, st):
        ss = e["s"]["s"]
        outs = [(st, None)]
        for x in ss[:-1]:
            outs = self.seq_exec([x], outs)
        out = []
        for s, c in outs:
            if ss and ss[-1]["k"] == "expr":
                out += self.rv(ss[-1]["e"], s)
            else:
                out += [(s2, ("void",)) for s2, c2 in self.ex(ss[-1], s)]
        return out

    def rv_new(self, e, st):
        st, u = st.uid(("h",) + self.nid(e))
        root = ("h", u)
        t = e["of"]
        if e.get("array"):
            st = st.set((root, ()), ("newarr", t.s, u))
            return [(st.ev("new", ("ptr", (root, ())), t.s, self.site(e)), ("ptr", (root, ())))]
        out = []
        self.may_throw(st, "lib", self.site(e))
        st = st.ev("new", ("ptr", (root, ())), t.s, self.site(e))
        if e.get("init") is None:
            st = st.set((root, ()), ("undef", root))
            return [(st, ("ptr", (root, ())))]
        for s in self.init_at(st, (root, ()), t, e["init"]):
            out.append((s, ("ptr", (root, ()))))
        return out

    def rv_delete(self, e, st):
        out = []
        for s, p in self.rv(e["e"], st):
            pt = e["e"]["t"].pt
            for s2 in self.destroy(s, self.as_loc(p), pt, e):
                out.append((self.freed(s2, p, e).ev("del", p, self.site(e)), ("void",)))
        return out

    # ---- casts -----------------------------------------------------------

    def rv_cast(self, e, st):
        ck = e["ck"]
        x = e["e"]
        t = e["t"]
        if ck == "LValueToRValue":
            out = []
            for s, l in self.lv(x, st):
                if self.family(x["t"]) is None or True:
                    out.append((s, self.load(s, l, t, e)))
            return out
        if ck == "ArrayToPointerDecay":
            out = []
            for s, l in self.lv(x, st):
                if l[0][0] == "c" and not l[1]:
                    out.append((s, ("s", l[0][1])))
                    continue
                if l[0][0] == "g" and not l[1]:
                    g = self.globval(l[0][1])
                    if g is not None and g[0] == "s":
                        out.append((s, g))
                        continue
                out.append((s, ("ptr", (l[0], l[1] + (("x", ("i", 0)),)))))
            return out
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BitCast", "NoOp", "BaseToDerived", "Dynamic",
                  "LValueBitCast", "AtomicToNonAtomic", "NonAtomicToAtomic", "UserDefinedConversion",
                  "ConstructorConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.rv(x, st)
        if ck == "ToVoid":
            return [(s, ("void",)) for s, _ in self.rv(x, st)]
        if ck == "NullToPointer":
            return [(s, NULL) for s, _ in self.rv(x, st)]
        out = []
        for s, v in self.rv(x, st):
            if ck == "IntegralCast":
                for s2, w in self.debool(s, v, x["t"]):
                    out.append((s2, self.intcast(s2, w, x["t"], t)))
            elif ck == "IntegralToBoolean":
                out.append((s, self.truth(v) if v[0] in BOOLK else self.cmp("!=", v, ("i", 0), "i")))
            elif ck == "FloatingToBoolean":
                out.append((s, self.cmp("!=", v, ("f", 0.0), "f")))
            elif ck in ("PointerToBoolean", "MemberPointerToBoolean"):
                out.append((s, self.cmp("!=", v, NULL, "p")))
            elif ck == "IntegralToFloating":
                for s2, w in self.debool(s, v, x["t"]):
                    out.append((s2, self.i2f(w)))
            elif ck == "FloatingToIntegral":
                if v[0] == "f" and v[1] == v[1] and abs(v[1]) < 2 ** 63:
                    out.append((s, ("i", int(v[1]))))
                else:
                    z = ("f2i", t.w, t.sg, v)
                    NAT.setdefault(z, width_range(t.w, t.sg))
                    out.append((s, z))
            elif ck == "FloatingCast":
                if t.w < x["t"].w:
                    out.append((s, ("fcvt", t.w, v)))
                else:
                    out.append((s, v))
            elif ck == "PointerToIntegral":
                out.append((s, ("p2i", v)))
            elif ck == "IntegralToPointer":
                out.append((s, NULL if v == ("i", 0) else ("i2p", v)))
            else:
                self.bad("cast " + ck, e)
        return out

    def i2f(self, v):
        if v[0] == "i":
            return ("f", float(v[1]))
        return ("i2f", v)

    def debool(self, st, v, ty):
        """values 0/1 for boolean terms"""
        if v[0] in BOOLK:
            return [(s, ("i", int(b))) for s, b in self.split(st, v)]
        return [(st, v)]

    def intcast(self, st, v, frm, to):
        if to.k == "enum" or frm.k == "enum" and not to.w:
            return v
        w, sg = to.w or 32, to.sg
        if v[0] == "i":
            return ("i", wrap(v[1], w, sg))
        target = width_range(w, sg)
        if rng(v, st.facts).subset(target):
            return v
        return ("cvt", w, sg, v)

    # ---- operators -------------------------------------------------------

    def rv_un(self, e, st):
        op = e["op"]
        t = e["t"]
        if op == "!":
            out = []
            for s, v in self.rv(e["e"], st):
                out.append((s, self.neg(self.truth(v, e["e"]["t"]))))
            return out
        if op == "&":
            if e["e"]["k"] == "fnref":
                return self.rv(e["e"], st)
            return [(s, self.addr(l)) for s, l in self.lv(e["e"], st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st):
                v = self.load(s, l, t, e)
                n = self.incdec(v, op, t)
                s2 = self.save(s, l, n, e)
                out.append((s2, v if e.get("post") else n))
            return out
        out = []
        for s, v in self.rv(e["e"], st):
            if op == "-":
                if t.k == "float":
                    out.append((s, fneg(v)))
                else:
                    out.append((s, scale(v, -1)))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                out.append((s, ("i", wrap(~v[1], t.w, t.sg)) if v[0] == "i" else ("op", "~", v)))
            elif op == "__extension__":
                out.append((s, v))
            else:
                self.bad("unary " + op, e)
        return out

    def assign(self, e, st):
        out = []
        t = e["a"]["t"]
        for s, v in self.rv(e["b"], st):
            if t.k == "ptr" and self.mem:
                v = self.temporary(s, v, e)
            for s2, l in self.lv(e["a"], s):
                out.append((self.save(s2, l, v, e), l, v))
        return out

    def casg(self, e, st):
        out = []
        op = e["op"][:-1]
        ct = e["ct"] or e["t"]
        for s, b in self.rv(e["b"], st):
            for s2, l in self.lv(e["a"], s):
                a = self.load(s2, l, e["a"]["t"], e)
                for s3, b2 in self.debool(s2, b, e["b"]["t"]):
                    if e["t"].k == "ptr":
                        r = self.ptradd(a, b2 if op == "+" else scale(b2, -1))
                    elif ct.k == "float":
                        a1 = a if e["a"]["t"].k == "float" else self.i2f(a)
                        b1 = b2 if e["b"]["t"].k == "float" else self.i2f(b2)
                        r = binfl(op, a1, b1)
                        if e["a"]["t"].k != "float":
                            r = ("f2i", e["a"]["t"].w, e["a"]["t"].sg, r)
                    else:
                        r = binint(op, a, b2, ct.w or 32, ct.sg)
                        tw = e["a"]["t"]
                        if op in ("<<", ">>", "|", "&", "^"):
                            pass
                        elif tw.w and tw.w < (ct.w or 32):
                            r = self.intcast(s3, r, ct, tw)
                    out.append((self.save(s3, l, r, e), l, r))
        return out

    def rv_casg(self, e, st):
        return [(s, v) for s, _, v in self.casg(e, st)]

    def rv_bin(self, e, st):
        op = e["op"]
        if op == "=":
            return [(s, v) for s, _, v in self.assign(e, st)]
        if op == ",":
            out = []
            for s, _ in self.rv(e["a"], st):
                out += self.rv(e["b"], s)
            return out
        if op in ("&&", "||"):
            return [(s, ("i", int(b))) for s, b in self.cond(e, st)]
        out = []
        ta, tb = e["a"]["t"], e["b"]["t"]
        for s, a in self.rv(e["a"], st):
            for s2, b in self.rv(e["b"], s):
                if op in RELOP:
                    if ta.k in ("ptr", "nullptr") or tb.k in ("ptr", "nullptr"):
                        ba, oa = self.ptrbase(a)
                        bb, ob = self.ptrbase(b)
                        if ba == bb and ba[0] == "ptr":
                            out.append((s2, self.cmp(op, oa, ob, "i")))
                        else:
                            out.append((s2, self.cmp(op, a, b, "p")))
                    elif ta.k == "float" or tb.k == "float":
                        out.append((s2, self.cmp(op, a, b, "f")))
                    else:
                        out.append((s2, self.cmp(op, a, b, "i")))
                    continue
                for s3, x in self.debool(s2, a, ta):
                    for s4, y in self.debool(s3, b, tb):
                        if ta.k == "ptr" and tb.k == "ptr":
                            ba, oa = self.ptrbase(x)
                            bb, ob = self.ptrbase(y)
                            out.append((s4, sub(oa, ob) if ba == bb else ("op", "-", x, y)))
                        elif ta.k == "ptr":
                            out.append((s4, self.ptradd(x, strip(y) if op == "+" else scale(y, -1))))
                        elif tb.k == "ptr":
                            out.append((s4, self.ptradd(y, strip(x))))
                        elif e["t"].k == "float":
                            out.append((s4, binfl(op, x, y)))
                        else:
                            out.append((s4, binint(op, x, y, e["t"].w or 32, e["t"].sg)))
        return out

    # ================= initialisation =====================================

    def init_at(self, st, loc, ty, e):
        """[state]: constructs an object of type ty at loc from expression e"""
        if e is None:
            return [st.set(loc, ("undef", loc))]
        k = e["k"]
        t = e["t"]
        if k == "ctor":
            fn = e["fn"]
            if e["a"] and (fn.get("copy") or fn.get("move")) and e["a"][0].get("vc") is None:
                return self.init_at(st, loc, ty, e["a"][0])
            return self.construct(st, loc, e)
        if k == "initlist" and t.k == "rec":
            return self.init_rec(st, loc, e)
        if k == "initlist" and t.k == "array":
            outs = [(st, ())]
            for x in e["a"]:
                outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in self.rv(x, s)]
            r = []
            for s, vs in outs:
                v = tuple(("one", x) for x in vs)
                if e.get("fill") is not None or len(vs) < t.n:
                    v += (("rep", ("i", t.n - len(vs)), self.typed(ZEROV, t.pt)),)
                r.append(s.set(loc, mkseq(v)))
            return r
        if k == "initlist" and len(e["a"]) == 1:
            return self.init_at(st, loc, ty, e["a"][0])
        if k == "cond" and e.get("vc") is None and t.k == "rec":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.init_at(s, loc, ty, e["a"] if b else e["b"])
            return out
        if k == "str" and ty is not None and ty.k == "array":
            return [st.set(loc, ("s", bytes(e["b"])))]
        if k == "zero" and t.k in ("rec", "array"):
            return [st.set(loc, self.typed(ZEROV, t))]
        if k == "cast" and e["ck"] in ("ConstructorConversion", "UserDefinedConversion", "NoOp"):
            return self.init_at(st, loc, ty, e["e"])
        return [s.set(loc, v) for s, v in self.rv(e, st)]

    def clskey(self, ty):
        s = ty.s
        return s[6:] if s.startswith("const ") else s

    def clsinfo(self, ty):
        return self.P.classes.get(ty.lam or self.clskey(ty))

    def init_rec(self, st, loc, e):
        t = e["t"]
        c = self.clsinfo(t)
        fam = self.family(t)
        if c is None:
            if fam == "vec":      # std::array / initializer_list aggregate
                outs = [(st, ())]
                for x in e["a"]:
                    outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in self.rv(x, s)]
                r = []
                for s, vs in outs:
                    if t.qn == "std::array":
                        n = t.ta[1] if len(t.ta) > 1 else 0
                        if len(vs) == 1 and e["a"][0]["t"].k == "array":
                            r.append(s.set(loc, vs[0] if vs[0][0] != "zero" else ("seq", (("rep", ("i", n), self.typed(ZEROV, t.ta[0])),))))
                            continue
                        r.append(s.set(loc, mkseq(tuple(("one", v) for v in vs) + (
                            (("rep", ("i", n - len(vs)), self.typed(ZEROV, t.ta[0])),) if n > len(vs) else ()))))
                    else:
                        r.append(s.set(loc, mkseq(tuple(("one", v) for v in vs))))
                return r
            if not e["a"]:
                return [st.set(loc, self.typed(ZEROV, t))]
            # C aggregates: named by position
            outs = [st.set(loc, ("obj", t.s, ()))]
            for n, x in enumerate(e["a"]):
                outs = [s2.set((loc[0], loc[1] + (("f", "#%d" % n),)), v) for s in outs for s2, v in self.rv(x, s)]
            if all(x["k"] == "zero" for x in e["a"]):
                return [st.set(loc, ZEROV)]
            return outs
        outs = [st.set(loc, ("obj", self.clskey(t), ()))]
        exprs = list(e["a"])
        nb = len(c["bases"])
        for x in exprs[:nb] if len(exprs) > len(c["fields"]) else ():
            outs = [s2 for s in outs for s2 in self.init_at(s, loc, x["t"], x)]
        if len(exprs) > len(c["fields"]):
            exprs = exprs[nb:]
        for f, x in zip(c["fields"], exprs):
            outs = [s2 for s in outs for s2 in self.init_field(s, loc, f["name"], f["t"], x)]
        for f in c["fields"][len(exprs):]:
            outs = [s2 for s in outs for s2 in self.init_field(s, loc, f["name"], f["t"], f.get("init"))]
        return outs

    def init_field(self, st, loc, name, ty, e):
        l = (loc[0], loc[1] + (("f", name),))
        if ty is not None and ty.isref():
            return [s.set(l, self.addr(x)) for s, x in self.lv(e, st)]
        return self.init_at(st, l, ty, e)

    def construct(self, st, loc, e):
        fn = e["fn"]
        t = e["t"]
        if t.k == "array":
            inner = dict(e, t=t.pt)
            if fn.get("defctor"):
                return [st.set(loc, ("seq", (("rep", ("i", t.n), ZEROV),)))]
            self.bad("array construction", e)
        if fn["proj"] or self.clsinfo(t) is not None:
            f = self.P.fns.get(fn["key"])
            if (fn.get("copy") or fn.get("move")) and (f is None or f.implicit or f.body is None):
                out = []
                for s, l in self.lv(e["a"][0], st):
                    v = s.get(l)
                    self.rec(s, l, "r", e)
                    s2 = s.set(loc, v)
                    if fn.get("move"):
                        s2 = self.moved_from(s2, l, e)
                    out.append(s2)
                return out
            if f is None:
                if fn.get("defctor"):
                    return self.default_fields(st, loc, t, e.get("zero"))
                self.bad("constructor without body " + fn["qn"], e)
            if fn["qn"] in self.opaque:
                out = []
                for s, args in self.args(e["a"], st):
                    s, u = s.uid(("c",) + self.nid(e))
                    out.append(s.set(loc, ("newobj", fn["qn"], self.argvals(s, args), u)))
                return out
            out = []
            for s, args in self.args(e["a"], st):
                if e.get("zero") and f.implicit:
                    s = s.set(loc, ZEROV)
                for s2, _ in self.invoke(f, s, self.addr(loc) if loc[0][0] == "p" else ("ptr", loc), args, e):
                    out.append(s2)
            return out
        return self.std_construct(st, loc, e)

    def default_fields(self, st, loc, t, zero=False):
        c = self.clsinfo(t)
        outs = [st.set(loc, ("obj", self.clskey(t), ()))]
        for f in c["fields"] if c else ():
            if f.get("init") is not None:
                outs = [s2 for s in outs for s2 in self.init_field(s, loc, f["name"], f["t"], f["init"])]
            else:
                outs = [s.set((loc[0], loc[1] + (("f", f["name"]),)), self.default_value(f["t"], zero)) for s in outs]
        return outs

    def default_value(self, ty, zero=False):
        fam = self.family(ty)
        if ty.k == "rec" and fam in ("vec", "str", "map", "sp", "wp", "func"):
            return self.typed(ZEROV, ty)
        if ty.k == "rec" and fam in ("mutex", "atomic"):
            return ZEROV
        if ty.k == "rec" and self.clsinfo(ty) is not None:
            return ZEROV
        return self.typed(ZEROV, ty) if zero else ("undef", ty.s)

    def moved_from(self, st, l, e):
        if l[0][0] in ("c",):
            return st
        v = st.get(l)
        if v[0] in ("i", "f", "null", "lam", "functor", "fnptr"):
            return st
        self.rec(st, l, "w", e)
        return st.set(l, ("moved", v))

    # ================= destruction ========================================

    def has_dtor(self, ty):
        """does destroying a value of this type have an effect we model?"""
        if ty is None or ty.isref() or ty.k not in ("rec", "array"):
            return False
        k = self.clskey(ty) if ty.k == "rec" else ty.s
        r = self._dt.get(k)
        if r is not None:
            return r
        self._dt[k] = False
        fam = self.family(ty)
        r = False
        if ty.k == "array":
            r = self.has_dtor(ty.pt)
        elif fam == "guard":
            r = True
        elif fam == "sp" and self.watch and ty.ta and isinstance(ty.ta[0], Ty) and ty.ta[0].qn in self.watch \
                and ty.qn in ("std::unique_ptr", "std::shared_ptr"):
            r = True
        elif fam == "sp" and ty.qn == "std::unique_ptr":
            d = ty.ta[1] if len(ty.ta) > 1 else None
            if d is not None and getattr(d, "k", None) and not (d.k == "rec" and d.qn == "std::default_delete"):
                r = True
            elif ty.ta and isinstance(ty.ta[0], Ty):
                r = self.has_dtor(ty.ta[0])
        elif fam in ("vec", "pair", "map", "opt"):
            r = any(self.has_dtor(a) for a in ty.ta if isinstance(a, Ty))
        elif fam is None:
            c = self.clsinfo(ty)
            if c is not None:
                for m in c["methods"]:
                    if m["kind"] == "dtor" and not m["implicit"] and not m["defaulted"]:
                        r = True
                if not r:
                    r = any(self.has_dtor(f["t"]) for f in c["fields"]) or any(self.has_dtor(b) for b in c["bases"])
        self._dt[k] = r
        return r

    def destroy(self, st, loc, ty, e=None):
        """[state] after running the destructor of the object at loc"""
        if not self.has_dtor(ty):
            return [st]
        fam = self.family(ty)
        if fam == "guard":
            return [self.guard_release(st, loc, e)]
        if fam == "sp":
            v = st.get(loc)
            if v[0] in ("moved", "undef", "null", "zero"):
                return [st]
            if ty.qn == "std::shared_ptr" and ty.ta[0].qn in self.watch:
                # the last owner of a watched object releases it
                if any(l != loc and self.family(t) == "sp" and st.get(l) == v for l, t in st.live):
                    return [st]
                return [s.ev("drop", v, self.site(e or {})) if nn else s
                        for s, nn in self.split(st, self.cmp("!=", v, NULL, "p"))]
            d = ty.ta[1] if len(ty.ta) > 1 else None
            custom = d is not None and not (d.k == "rec" and d.qn == "std::default_delete")
            out = []
            for s, nn in self.split(st, self.cmp("!=", v, NULL, "p")):
                if not nn:
                    out.append(s)
                    continue
                if custom:
                    out += self.run_deleter(s, loc, v, d, e)
                else:
                    for s2 in self.destroy(s, self.as_loc(v), ty.ta[0], e):
                        out.append(s2.ev("del", v, self.site(e or {})))
            return out
        if fam == "vec":
            v = st.get(loc)
            if v[0] in ("moved", "undef", "zero"):
                return [st]
            n = sizeof(v)
            return self.for_index(st, ("dtor", loc), n, lambda s, k: self.destroy(
                s, (loc[0], loc[1] + (("x", k),)), ty.ta[0], e), e)
        if fam in ("pair", "map", "opt"):
            return [st.ev("dtor", loc, ty.s)]
        c = self.clsinfo(ty)
        if c is None:
            return [st]
        v = st.get(loc)
        if v[0] == "moved" and all(not m["kind"] == "dtor" or m["implicit"] or m["defaulted"] for m in c["methods"]):
            return [st]
        outs = [st]
        dk = next((m["key"] for m in c["methods"] if m["kind"] == "dtor"), None)
        f = self.P.fns.get(dk) if dk else None
        if f is not None and f.body is not None and not f.implicit:
            outs = [s2 for s in outs for s2, _ in
                    self.invoke(f, s, self.addr(loc) if loc[0][0] == "p" else ("ptr", loc), [], e or {})]
        for fd in reversed(c["fields"]):
            if self.has_dtor(fd["t"]):
                outs = [s2 for s in outs for s2 in self.destroy(s, (loc[0], loc[1] + (("f", fd["name"]),)), fd["t"], e)]
        for b in c["bases"]:
            outs = [s2 for s in outs for s2 in self.destroy(s, loc, b, e)]
        return outs

    def run_deleter(self, st, loc, v, d, e):
        site = self.site(e or {})
        if d.k == "rec" and self.clsinfo(d) is not None:
            c = self.clsinfo(d)
            for m in c["methods"]:
                if m["name"] == "operator()":
                    f = self.P.fns.get(m["key"])
                    if f is not None:
                        return [s for s, _ in self.invoke(f, st, ("ptr", (("t", "deleter"), ())), [(V, v, None)], e or {})]
        # function pointer deleters: remembered beside the pointer
        fp = st.get((loc[0], loc[1])) if False else None
        dv = st.store.get(("del", loc))
        if dv is not None:
            return [s for s, _ in self.call_value(st, dv, [(V, v, None)], e or {}, None)]
        return [st.ev("deleter", v, site)]

    def unwind(self, st, depth):
        """destroys live objects above depth"""
        outs = [st]
        while any(len(s.live) > depth for s in outs):
            nxt = []
            for s in outs:
                if len(s.live) <= depth:
                    nxt.append(s)
                    continue
                loc, ty = s.live[-1]
                s = s.copy()
                s.live = s.live[:-1]
                r, thrown = self.sub(self.destroy, s, loc, ty)
                nxt += r
            outs = nxt
        return outs

    # ================= calls ==============================================

    def args(self, es, st):
        """[(state, [arg])]; arg = ('L', loc, ty) or ('V', value, ty)"""
        outs = [(st, ())]
        for x in es:
            nxt = []
            for s, a in outs:
                if x.get("vc") and x["k"] not in ("fnref", "memfn"):
                    for s2, l in self.lv(x, s):
                        nxt.append((s2, a + ((L, l, x["t"], x.get("vc")),)))
                else:
                    for s2, v in self.rv(x, s):
                        nxt.append((s2, a + ((V, v, x["t"], None),)))
            outs = nxt
        return outs

    def aval(self, st, a, e=None):
        """value of an argument"""
        if a[0] == V:
            return a[1]
        return self.load(st, a[1], a[2], e)

    def aloc(self, st, a, site):
        """(state, location) of an argument"""
        if a[0] == L:
            return st, a[1]
        st, u = st.uid(("a",) + site)
        root = ("t", u)
        st = st.set((root, ()), a[1])
        st.temps = st.temps + (root,)
        return st, (root, ())

    def argvals(self, st, args):
        return tuple(self.aval(st, a) for a in args)

    def call(self, e, st):
        """[(state, ('L',loc) | ('V',value))]"""
        self.ncalls += 1
        fn = e.get("fn")
        if fn is None:
            out = []
            for s, f in self.rv(e["fnx"], st):
                for s2, args in self.args(e["a"], s):
                    out += self.call_value(s2, f, args, e, e["t"])
            return out
        if fn["qn"] in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::move_if_noexcept") and \
                len(e["a"]) == 1:
            return [(s, (L, l)) if fn["qn"] not in ("std::ref", "std::cref") else (s, (V, self.addr(l)))
                    for s, l in self.lv(e["a"][0], st)]
        out = []
        if fn.get("m") and not fn.get("static"):
            obj = e["obj"]
            if e.get("objarrow"):
                os = [(s, self.deref(s, p, e) if obj["k"] != "this" else self.as_loc(p)) for s, p in self.rv(obj, st)]
            else:
                os = self.lv(obj, st)
            for s, o in os:
                for s2, args in self.args(e["a"], s):
                    out += self.call_method(s2, fn, o, args, e)
        else:
            for s, args in self.args(e["a"], st):
                out += self.call_fn(s, fn, args, e)
        return out

    def resolve_virtual(self, fn, e):
        """the implementation key when it is certain, else None"""
        if not fn.get("virtual") or e.get("qualified"):
            return fn["key"]
        ov = self.P.overriders.get(fn["key"], [])
        if not ov:
            return fn["key"]
        if fn["key"] not in self.P.fns and len(ov) == 1 and fn["qn"] not in ("prometheus::Collectable::Collect",):
            return ov[0]
        return None

    def call_method(self, st, fn, o, args, e):
        qn = fn["qn"]
        if fn.get("lambda") or "lambda#" in fn["key"]:
            f = self.P.fns.get(fn["key"])
            return self.call_value(st, st.get(o), args, e, e.get("t"))
        if fn["proj"] or fn["key"] in self.P.fns:
            key = self.resolve_virtual(fn, e)
            f = self.P.fns.get(key) if key else None
            if f is None and fn.get("virtual"):
                site = self.site(e)
                st, u = st.uid(("cb",) + self.nid(e))
                av = self.argvals(st, args)
                self.rec(st, o, "r", e)
                st = st.ev("vcall", qn, self.addr(o), av, u, tuple(m for m, _, _ in st.locks), site)
                self.may_throw(st, "cb", site)
                return [(st, (V, ("call", qn, (self.addr(o),) + av, u)))]
            if f is None:
                if fn.get("copyassign") or fn.get("moveassign"):
                    s, l = self.aloc(st, args[0], self.nid(e))
                    v = s.get(l)
                    self.rec(s, l, "r", e)
                    s = self.save(s, o, v, e)
                    if fn.get("moveassign"):
                        s = self.moved_from(s, l, e)
                    return [(s, (L, o))]
                return self.std_method(st, fn, o, args, e)
            if (fn.get("copyassign") or fn.get("moveassign")) and f.implicit:
                s, l = self.aloc(st, args[0], self.nid(e))
                v = s.get(l)
                self.rec(s, l, "r", e)
                s = self.save(s, o, v, e)
                if fn.get("moveassign"):
                    s = self.moved_from(s, l, e)
                return [(s, (L, o))]
            if f.qn in self.opaque:
                return self.opaque_call(st, f.qn, (self.addr(o),), args, e, fn)
            return self.invoke(f, st, self.addr(o), args, e)
        return self.std_method(st, fn, o, args, e)

    def thrown_types(self, key):
        """types of the exceptions a function of the repository may throw; None among them: any"""
        memo = self.P.__dict__.setdefault("_thrown", {})
        if key in memo:
            return memo[key]
        memo[key] = ()
        out, seen, todo = set(), set(), [key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.P.fns.get(k)
            if f is None or f.body is None and not f.inits:
                out.add(None)
                continue
            stack = [f.body, f.inits]
            while stack:
                x = stack.pop()
                if isinstance(x, (list, tuple)):
                    stack.extend(x)
                    continue
                if not isinstance(x, dict):
                    continue
                if x.get("k") == "throw":
                    et = x.get("et")
                    out.add(et.qn if et is not None and et.k == "rec" else None)
                g = x.get("fn")
                if x.get("k") == "call" and g is None:
                    out.add(None)
                if isinstance(g, dict) and "key" in g:
                    if g.get("virtual") and not x.get("qualified") or "function<" in g["key"] or g["qn"].startswith("std::function"):
                        out.add(None)
                    elif g["key"] in self.P.fns:
                        h = self.P.fns[g["key"]]
                        if h.body is not None or h.inits:
                            todo.append(g["key"])
                        elif g.get("proj") and not h.implicit:
                            out.add(None)
                    elif g.get("proj") and not g.get("implicit") and not g.get("defaulted"):
                        out.add(None)
                    elif g["qn"] in ("std::future::get", "std::rethrow_exception"):
                        out.add(None)
                stack.extend(x.values())
        memo[key] = tuple(sorted(out, key=lambda t: t or ""))
        return memo[key]

    def opaque_call(self, st, qn, pre, args, e, fn):
        av = []
        for a in args:
            av.append(self.aval(st, a))
        st, u = st.uid(("o",) + self.nid(e))
        st = st.ev("opaque", qn, tuple(pre) + tuple(av), u, tuple(m for m, _, _ in st.locks), self.site(e))
        r = ("call", qn, tuple(pre) + tuple(av), u)
        for a in args:
            v = st.get(a[1]) if a[0] == L else a[1]
            if v[0] == "obj" and dict(v[2]).get("@content") and a[0] == L:      # what the callee writes to a stream
                st = self.semit(st, a[1], [("all", ("written", qn, u))], e)
        for ty in self.thrown_types(fn.get("key")):
            self.may_throw(st, "cb", self.site(e), ty)
        return [(st, (V, r))]

    def call_fn(self, st, fn, args, e):
        f = self.P.fns.get(fn["key"])
        if f is not None and f.body is not None:
            if f.qn in self.opaque:
                return self.opaque_call(st, f.qn, (), args, e, fn)
            return self.invoke(f, st, None, args, e)
        return self.std_call(st, fn, args, e)

    def call_value(self, st, f, args, e, rty=None):
        """calls a callable value (lambda, std::function, functor, pointer)"""
        k = f[0]
        if k == "lam":
            fn = self.P.fns.get(f[1])
            if fn is None:
                self.bad("lambda without body", e)
            return self.invoke(fn, st, None, args, e, lam=f)
        if k == "fnptr":
            fn = self.P.fns.get(f[1])
            if fn is not None and fn.kind == "method" and not fn.static and args:
                a = args[0]
                t = a[2].strip() if a[2] is not None else None
                if t is not None and t.k == "rec" and (t.qn or "").startswith("prometheus::"):
                    st, o = self.aloc(st, a, self.nid(e))
                else:
                    o = self.as_loc(self.aval(st, a, e))
                if fn.qn in self.opaque:
                    return self.opaque_call(st, fn.qn, (self.addr(o),), args[1:], e, {"key": f[1]})
                if fn.body is not None and not fn.virtual:
                    return self.invoke(fn, st, self.addr(o), args[1:], e)
                self.bad("call through a pointer to member", e)
            if fn is not None and fn.qn in self.opaque:
                return self.opaque_call(st, fn.qn, (), args, e, {"key": f[1]})
            if fn is not None and fn.body is not None:
                return self.invoke(fn, st, None, args, e)
            return self.std_call(st, {"qn": f[2], "key": f[1], "params": [], "proj": 0, "nothrow": 0}, args, e)
        if k == "functor":
            return self.call_functor(st, f, args, e)
        if k == "ptr":
            return self.call_value(st, st.get(f[1]), args, e, rty)
        if k == "obj":
            c = self.P.classes.get(f[1])
            if c is not None:
                for m in c["methods"]:
                    if m["name"] == "operator()":
                        fn = self.P.fns.get(m["key"])
                        if fn is not None:
                            st, u = st.uid(("fo",) + self.nid(e))
                            root = ("t", u)
                            st = st.set((root, ()), f)
                            st.temps = st.temps + (root,)
                            return self.invoke(fn, st, ("ptr", (root, ())), args, e)
        if k == "bind":
            return self.call_value(st, f[1], list(f[2]) + list(args), e, rty)
        # unknown callback supplied by the user
        av = self.argvals(st, args)
        st, u = st.uid(("cb",) + self.nid(e))
        st = st.ev("cb", f, av, u, tuple(m for m, _, _ in st.locks), self.site(e))
        self.may_throw(st, "cb", self.site(e))
        r = ("call", "callback", (f,) + av, u)
        return [(st, (V, r))]

    def invoke(self, fn, st, this, args, e, lam=None, is_async=None):
        """inlines a project function; [(state, ('L',loc)|('V',value))]"""
        if fn.body is None and fn.kind != "ctor":
            self.bad("function without body " + fn.qn, e)
        if len(self.frames) > 60:
            raise AnalysisError("call depth exceeded at " + fn.qn)
        if sum(1 for f in self.frames if f.fn is fn) > 3:
            raise AnalysisError("recursion through " + fn.qn)
        self.visited.add(fn)
        parent = self.frames[-1].ctx if self.frames else 0
        ctx = self.ctxid((parent, e.get("i", 0) if e else 0, fn.key))
        st0 = st
        caps = {}
        if lam is not None:
            for cid, ref, v in lam[2]:
                if cid == "this":
                    this = v
                elif ref:
                    caps[cid] = v[1]
                else:
                    root = ("v", ctx, "cap%d" % cid)
                    st = st.set((root, ()), v)
                    caps[cid] = (root, ())
        if self.start_async:
            is_async, self.start_async = (), False
        asy = is_async if is_async is not None else (self.frames[-1].is_async if self.frames else None)
        if asy is not None:
            asy = asy + (ctx,)
        # bind parameters
        for i, p in enumerate(fn.params):
            root = ("v", ctx, p["id"])
            loc = (root, ())
            if i < len(args):
                a = args[i]
                if p["t"].isref():
                    if a[0] == L:
                        st = st.set(loc, self.addr(a[1]))
                    else:
                        st, l = self.aloc(st, a, (ctx, p["id"]))
                        st = st.set(loc, ("ptr", l))
                else:
                    v = self.aval(st, a, e)
                    st = st.set(loc, v)
                    if a[0] == L and len(a) > 3 and a[3] == "x" and p["t"].k == "rec":
                        st = self.moved_from(st, a[1], e)
                    if p["t"].k == "rec" and self.has_dtor(p["t"]):
                        st = st.copy()
                        st.live = st.live + ((loc, p["t"]),)
            elif p.get("def") is not None:
                self.frames.append(Frame(fn, ctx, this, caps, asy, self.site(e or {})))
                try:
                    if p["t"].isref():
                        r = self.lv(p["def"], st)
                        st = r[0][0].set(loc, self.addr(r[0][1]))
                    else:
                        r = self.rv(p["def"], st)
                        st = r[0][0].set(loc, r[0][1])
                finally:
                    self.frames.pop()
            else:
                self.bad("missing argument", e)
        depth = len(st0.live)
        fr = Frame(fn, ctx, this, caps, asy, self.site(e or {}))
        self.frames.append(fr)
        try:
            outs, thrown = self.sub(self.run_body, fn, st)
            res = []
            for s, c in outs:
                val = c[1] if isinstance(c, tuple) and c[0] == "ret" else (V, ("void",))
                for s2 in self.unwind(s, depth):
                    s3 = self.drop(s2, ctx)
                    if self.mem:
                        self.outlives(s3, st0, val, ctx, fn, e)
                    res.append((s3, val))
            for s, x in thrown:
                for s2 in self.unwind(s, depth):
                    self.sink.append((self.drop(s2, ctx), x))
        finally:
            self.frames.pop()
        if len(self.sink) > 1:
            self.sink = merge(self.sink)
        res = merge(res)
        if len(res) > self.maxstates:
            raise AnalysisError("state explosion in " + fn.qn)
        if fn.kind != "ctor" and fn.params:
            pass
        return res

    def outlives(self, st, st0, val, ctx, fn, e):
        """nothing that remains after the call refers to the variables of the call"""
        def to(v):
            return occurs(v, lambda y: y[:1] == ("ptr",) and y[1][0][:2] == ("v", ctx)) or tc(v)

        def tc(v):
            seen, todo = set(), [v]
            while todo:
                x = todo.pop()
                if id(x) in seen or x[:1] == ("call",) and not (len(x) > 1 and x[1] in self.PURE):
                    continue
                seen.add(id(x))
                if x[:1] == ("cstr",) and x[2][0][:2] == ("v", ctx):
                    return True
                todo += [y for y in x if isinstance(y, tuple)]
            return False
        bad = None
        if val[0] == L and val[1][0][:2] == ("v", ctx) or val[0] == V and to(val[1]):
            bad = "what %s returns" % fn.qn
        for r, v in st.store.items():
            if st0.store.get(r) is not v and r[0] in ("p", "h", "g") and to(v):
                bad = "what %s keeps in %s" % (fn.qn, showloc((r, ())))
        self.need(st, "dangling", bad is None, None, lambda: "%s refers to a variable of the function" % bad, e)

    def drop(self, st, ctx):
        dead = [r for r in st.store if r[0] == "v" and r[1] == ctx]
        if not dead:
            return st
        s = st.copy()
        for r in dead:
            del s.store[r]
        return s

    def run_body(self, fn, st):
        if fn.kind == "ctor":
            outs = self.run_inits(fn, st)
            if fn.body is None:
                return [(s, None) for s in outs]
            r = []
            for s in outs:
                r += self.ex(fn.body, s)
            return [(self.ctor_done(s, st), c) for s, c in merge(r)]
        return merge(self.ex(fn.body, st))

    def ctor_done(self, s, st):
        # members live on: forget the cleanup entries pushed for them
        this = self.as_loc(self.fr.this)
        keep = tuple(x for x in s.live if not (x[0][0] == this[0] and x[0][1][:len(this[1])] == this[1] and
                                               x not in st.live))
        if keep != s.live:
            s = s.copy()
            s.live = keep
        return s

    def run_inits(self, fn, st):
        loc = self.as_loc(self.fr.this)
        deleg = any(i.get("deleg") for i in fn.inits)
        if not deleg:
            cur = st.get(loc)
            if cur[0] != "zero":
                st = st.set(loc, ("obj", fn.cls, ()))
        outs = [st]
        c = self.P.classes.get(fn.cls)
        ftypes = {f["name"]: f["t"] for f in c["fields"]} if c else {}
        for i in fn.inits:
            nxt = []
            for s in outs:
                if i.get("deleg"):
                    for s2 in self.full(s, lambda z: self.init_at(z, loc, None, i["e"])):
                        if self.has_dtor_cls(fn.cls):
                            s2 = s2.copy()
                            s2.live = s2.live + ((loc, fn.clst),)
                        nxt.append(s2)
                elif "f" in i:
                    ty = ftypes.get(i["f"])
                    fl = (loc[0], loc[1] + (("f", i["f"]),))
                    for s2 in self.full(s, lambda z: self.init_field(z, loc, i["f"], ty, i["e"]) if i["e"] is not None else [z]):
                        if ty is not None and self.has_dtor(ty):
                            s2 = s2.copy()
                            s2.live = s2.live + ((fl, ty),)
                        nxt.append(s2)
                else:
                    b = i["base"]
                    if b is not None and self.clsinfo(b) is not None and i["e"] is not None:
                        keep = s.get(loc)
                        for s2 in self.full(s, lambda z: self.init_base(z, loc, i["e"])):
                            nxt.append(s2)
                    else:
                        nxt.append(s)
            outs = [a for a, _ in merge([(x, None) for x in nxt])]
        return outs

    def init_base(self, st, loc, e):
        f = self.P.fns.get(e["fn"]["key"]) if e["k"] == "ctor" else None
        if f is None or (f.implicit and not f.inits):
            return [st]
        keep = st.get(loc)
        out = []
        for s, args in self.args(e["a"], st):
            for s2, _ in self.invoke(f, s, self.addr(loc) if loc[0][0] == "p" else ("ptr", loc), args, e):
                v = s2.get(loc)
                if v[0] == "obj" and keep[0] == "obj":
                    v = ("obj", keep[1], keep[2] + v[2])
                    s2 = s2.set(loc, v)
                out.append(s2)
        return out

    def has_dtor_cls(self, key):
        c = self.P.classes.get(key)
        if not c:
            return False
        return any(m["kind"] == "dtor" and not m["implicit"] and not m["defaulted"] for m in c["methods"]) or \
            any(self.has_dtor(f["t"]) for f in c["fields"])

    def full(self, st, f, keep_temps=False):
        """runs one full expression f(state)->[state] and ends its temporaries"""
        d, t = len(st.live), len(st.temps)
        out = []
        for s in f(st):
            for s2 in self.unwind(s, d):
                if len(s2.temps) > t and not keep_temps:
                    s2 = s2.copy()
                    for r in s2.temps[t:]:
                        s2.store.pop(r, None)
                    s2.temps = s2.temps[:t]
                out.append(s2)
        return out

    def full2(self, st, f):
        """full expression with results: f(state)->[(state, x)]"""
        d, t = len(st.live), len(st.temps)
        out = []
        for s, x in f(st):
            for s2 in self.unwind(s, d):
                if len(s2.temps) > t:
                    s2 = s2.copy()
                    for r in s2.temps[t:]:
                        s2.store.pop(r, None)
                    s2.temps = s2.temps[:t]
                out.append((s2, x))
        return out

    # ================= statements =========================================

    def ex(self, s, st):
        """[(state, ctl)]: ctl None | 'break' | 'continue' | ('ret', result)"""
        self.steps += 1
        m = getattr(self, "ex_" + s["k"], None)
        if m is None:
            self.bad("statement " + s["k"] + " " + str(s.get("what", "")), s)
        r = m(s, st)
        if len(r) > 1:
            r = merge(r)
        if len(r) > self.maxstates:
            raise AnalysisError("state explosion at %s" % self.site(s))
        return r

    def seq_exec(self, ss, outs):
        for x in ss:
            nxt = []
            for st, c in outs:
                if c is not None:
                    nxt.append((st, c))
                else:
                    nxt += self.ex(x, st)
            outs = merge(nxt)
        return outs

    def ex_block(self, s, st):
        d = len(st.live)
        decls = []
        outs = self.seq_exec(s["s"], [(st, None)])
        ids = [v["id"] for x in s["s"] if x["k"] == "decl" for v in x["v"]]
        out = []
        for s1, c in outs:
            for s2 in self.unwind(s1, d):
                if ids and c is None or c in ("break", "continue"):
                    dead = [("v", self.fr.ctx, i) for i in ids if ("v", self.fr.ctx, i) in s2.store]
                    if dead:
                        s2 = s2.copy()
                        for r in dead:
                            del s2.store[r]
                        s2 = self.ended(s2, lambda r, dead=dead: r in dead, s)
                out.append((s2, c))
        return out

    def ex_null(self, s, st):
        return [(st, None)]

    def ex_break(self, s, st):
        return [(st, "break")]

    def ex_continue(self, s, st):
        return [(st, "continue")]

    def ex_expr(self, s, st):
        e = s["e"]

        def f(z):
            if e.get("vc"):
                return [(a, None) for a, _ in self.lv(e, z)]
            return [(a, None) for a, _ in self.rv(e, z)]
        return self.full2(st, f)

    def ex_decl(self, s, st):
        outs = [st]
        for v in s["v"]:
            nxt = []
            for x in outs:
                nxt += self.declare(v, x)
            outs = nxt
        return [(x, None) for x in outs]

    def declare(self, v, st):
        loc = (("v", self.fr.ctx, v["id"]), ())
        t = v["t"]
        e = v.get("init")
        if v.get("static"):
            return [self.static_const(st, v, t, e)]
        if t.isref():
            def f(z):
                return [a.set(loc, self.addr(l) if l[0][0] == "p" else ("ptr", l)) for a, l in self.lv(e, z)]
            d = len(st.live)
            out = []
            for s in f(st):
                out.append(s)
            return out
        if t.k == "array" and t.n:
            self.arrlen[loc] = t.n
        elif t.k == "rec" and t.qn == "std::array" and len(t.ta) == 2 and not isinstance(t.ta[1], Ty):
            self.arrlen[loc] = int(t.ta[1])
        out = []
        for s in self.full(st, lambda z: self.init_at(z, loc, t, e)):
            if t.k == "ptr" and self.mem:
                s = s.set(loc, self.temporary(s, s.get(loc), v))
            if self.has_dtor(t):
                s = s.copy()
                s.live = s.live + ((loc, t),)
            out.append(s)
        return out

    def static_const(self, st, v, t, e):
        """a local static constant whose initial value is a constant expression"""
        g = v.get("glob")
        if not t.const or t.isref() or e is None or g is None or g in CONSTG:
            return st
        tmp = (("v", self.fr.ctx, v["id"]), ())
        try:
            outs, thrown = self.sub(lambda z: self.init_at(z, tmp, t, e), st)
        except AnalysisError:
            return st
        if len(outs) != 1 or thrown:
            return st
        val = outs[0].get(tmp)
        if occurs(val, lambda y: isinstance(y, tuple) and y and y[0] in (
                "deref", "ald", "call", "ext", "sym", "ptr", "phi", "undef", "k", "glob", "hv", "addr")):
            return st
        CONSTG[g] = val
        return st

    def ex_return(self, s, st):
        e = s.get("e")
        if e is None:
            return [(st, ("ret", (V, ("void",))))]
        rt = self.fr.fn.ret

        def f(z):
            if rt is not None and rt.isref():
                return [(a, ("ret", (L, l))) for a, l in self.lv(e, z)]
            if e["t"].k == "void":
                return [(a, ("ret", (V, ("void",)))) for a, _ in self.rv(e, z)]
            return [(a, ("ret", (V, self.typed(v, rt)))) for a, v in self.rv(e, z)]
        return self.full2(st, f)

    def condvar(self, s, st):
        if s.get("init") is not None:
            outs = [a for a, c in self.ex(s["init"], st)]
        else:
            outs = [st]
        if s.get("cv") is not None:
            outs = [b for a in outs for b in self.declare(s["cv"], a)]
        return outs

    def ex_if(self, s, st):
        d = len(st.live)
        out = []
        for s0 in self.condvar(s, st):
            for s1, b in self.full2(s0, lambda z: self.cond(s["c"], z)):
                if b:
                    out += self.ex(s["then"], s1)
                elif s.get("else") is not None:
                    out += self.ex(s["else"], s1)
                else:
                    out.append((s1, None))
        r = []
        for s1, c in merge(out):
            for s2 in self.unwind(s1, d):
                r.append((s2, c))
        return r

    def ex_switch(self, s, st):
        d = len(st.live)
        flat, labels = [], []      # labels: (index, [(lo,hi)] or None)

        def walk(x):
            while x["k"] in ("case", "default"):
                if x["k"] == "case":
                    lo = x["v"].get("cv", x["v"].get("v"))
                    hi = x["v2"].get("cv") if x.get("v2") else lo
                    labels.append((len(flat), (int(lo), int(hi))))
                else:
                    labels.append((len(flat), None))
                x = x["s"]
            flat.append(x)
        body = s["body"]
        for x in (body["s"] if body["k"] == "block" else [body]):
            walk(x)
        out = []
        for s0 in self.condvar(s, st):
            for s1, v in self.full2(s0, lambda z: self.rv(s["c"], z)):
                rest = [s1]
                default = None
                for idx, rg in labels:
                    if rg is None:
                        default = idx
                        continue
                    nrest = []
                    for r in rest:
                        if rg[0] == rg[1]:
                            a = assume_int(r, "==", v, ("i", rg[0]))
                            b = assume_int(r, "!=", v, ("i", rg[0]))
                            bs = [b] if b is not None else []
                        else:
                            a = assume_int(r, ">=", v, ("i", rg[0]))
                            a = assume_int(a, "<=", v, ("i", rg[1])) if a is not None else None
                            bs = [z for z in (assume_int(r, "<", v, ("i", rg[0])), assume_int(r, ">", v, ("i", rg[1]))) if z is not None]
                        if a is not None:
                            out += self.seq_exec(flat[idx:], [(a, None)])
                        nrest += bs
                    rest = nrest
                for r in rest:
                    if default is not None:
                        out += self.seq_exec(flat[default:], [(r, None)])
                    elif s["c"]["t"].k == "enum" and self.enum_exhausted(r, v):
                        pass
                    else:
                        out.append((r, None))
        r = []
        for s1, c in merge(out):
            for s2 in self.unwind(s1, d):
                r.append((s2, None if c == "break" else c))
        return merge(r)

    def enum_exhausted(self, st, v):
        return False

    def ex_try(self, s, st):
        d = len(st.live)
        outs, thrown = self.sub(self.ex, s["body"], st)
        res = list(outs)
        cleaned = []
        for t, x in thrown:
            for t2 in self.unwind(t, d):
                cleaned.append((t2, x))
        for t, x in merge(cleaned):
            pending = True
            for h in s["h"]:
                m = self.catches(h, x)
                if m == 0:
                    continue
                t1 = t.ev("catch", self.site(h))
                if h.get("var") is not None:
                    loc = (("v", self.fr.ctx, h["var"]["id"]), ())
                    t1 = t1.set(loc, ("sym", "exception") if not h["var"]["t"].isref() else ("sym", "exception"))
                self.fr.excs.append(x)
                try:
                    res += self.ex(h["body"], t1)
                finally:
                    self.fr.excs.pop()
                if m == 2:
                    pending = False
                    break
            if pending:
                self.sink.append((t, x))
        return merge(res)

    def catches(self, h, x):
        """0 no, 1 maybe, 2 yes"""
        if h.get("var") is None and h.get("ct") is None:
            return 2
        ct = h["ct"].qn if h.get("ct") is not None and h["ct"].k == "rec" else None
        if x.ty is None:
            return 1
        if ct == x.ty or ct in EXC_BASES.get(x.ty, ()):
            return 2
        return 0

    # ================= loops ==============================================

    def ex_for(self, s, st):
        d = len(st.live)
        outs = [a for a, c in self.ex(s["init"], st)] if s.get("init") is not None else [st]
        res = []
        for s0 in outs:
            def it(z):
                return self.iteration(z, s.get("cv"), s.get("c"), s["body"], s.get("inc"))
            res += self.loop(s0, ("for",) + self.nid(s), it, s)
        r = []
        ids = [v["id"] for v in s["init"]["v"]] if s.get("init") is not None and s["init"]["k"] == "decl" else []
        for s1, c in merge(res):
            for s2 in self.unwind(s1, d):
                dead = [("v", self.fr.ctx, i) for i in ids if ("v", self.fr.ctx, i) in s2.store]
                if dead and c is None:
                    s2 = s2.copy()
                    for x in dead:
                        del s2.store[x]
                r.append((s2, c))
        return r

    def ex_while(self, s, st):
        return self.loop(st, ("while",) + self.nid(s),
                         lambda z: self.iteration(z, s.get("cv"), s["c"], s["body"], None), s)

    def ex_do(self, s, st):
        def it(z):
            conts, exits = [], []
            for s1, c in self.ex(s["body"], z):
                if c is None or c == "continue":
                    for s2, b in self.full2(s1, lambda y: self.cond(s["c"], y, list)):
                        (conts if b else exits).append(s2 if b else (s2, "end"))
                else:
                    exits.append((s1, c))
            return conts, exits
        return self.loop(st, ("do",) + self.nid(s), it, s)

    def iteration(self, z, cv, c, body, inc):
        conts, exits = [], []
        pre = [z]
        if cv is not None:
            pre = self.declare(cv, z)
        for p in pre:
            cs = self.full2(p, lambda y: self.cond(c, y, list)) if c is not None else [(p, True)]
            cs = [x for x in cs if not x[1]] + merge([x for x in cs if x[1]])
            for s1, b in cs:
                if not b:
                    exits.append((s1, "end"))
                    continue
                for s2, ctl in self.ex(body, s1):
                    if ctl is None or ctl == "continue":
                        if inc is not None:
                            conts += [x for x, _ in self.ex_expr({"e": inc}, s2)]
                        else:
                            conts.append(s2)
                    else:
                        exits.append((s2, ctl))
        return conts, exits

    def ex_rfor(self, s, st):
        d = len(st.live)
        if s.get("init") is not None:
            st = self.ex(s["init"], st)[0][0]
        kroot = ("v", self.fr.ctx, ("rk", s["i"]))
        kloc = (kroot, ())
        iloc = (("v", self.fr.ctx, ("ri", s["i"])), ())
        out = []
        rng_e = s["range"]
        starts = self.lv(rng_e, st)
        var = s["var"]
        vl = (("v", self.fr.ctx, var["id"]), ())
        for s0, cl in starts:
            s0 = s0.set(kloc, ("i", 0))
            base = cl
            ct = rng_e["t"]
            if ct.strip().k != "array":
                self.recsz(s0, cl, s)

            def it(z):
                conts, exits = [], []
                k = z.get(kloc)
                n = sizeof(z.get(base)) if ct.strip().k != "array" else ("i", ct.strip().n)
                for s1, b in self.split(z, self.cmp("<", k, n, "i")):
                    if not b:
                        exits.append((s1, "end"))
                        continue
                    el = (base[0], base[1] + (("x", k),))
                    if var["t"].isref():
                        s1 = s1.set(vl, ("ptr", el))
                    else:
                        v = self.load(s1, el, var["t"], var)
                        s1 = s1.set(vl, v)
                    dd = len(s1.live)
                    if self.mem:
                        s1 = s1.set(iloc, ("it", base, k))
                    for s2, ctl in self.ex(s["body"], s1):
                        for s3 in self.unwind(s2, dd):
                            if ctl is None or ctl == "continue":
                                if self.mem:
                                    self.valid(s3.get(iloc))
                                s3 = s3.copy()
                                s3.store.pop(vl[0], None)
                                s3.store.pop(iloc[0], None)
                                conts.append(s3.set(kloc, add(s3.get(kloc), ("i", 1))))
                            else:
                                exits.append((s3, ctl))
                return conts, exits
            for s1, c in self.loop(s0, ("rfor",) + self.nid(s), it, s):
                for s2 in self.unwind(s1, d):
                    s2 = s2.copy()
                    s2.store.pop(kroot, None)
                    s2.store.pop(vl[0], None)
                    s2.store.pop(iloc[0], None)
                    out.append((s2, c))
        return merge(out)

    def for_index(self, st, tag, n, body, e):
        """[state] after body(state, k) for every k in 0..n-1"""
        kroot = ("v", self.fr.ctx, ("fi", tag))
        kloc = (kroot, ())
        st = st.set(kloc, ("i", 0))

        def it(z):
            conts, exits = [], []
            k = z.get(kloc)
            for s1, b in self.split(z, self.cmp("<", k, n, "i")):
                if not b:
                    exits.append((s1, "end"))
                    continue
                for s2 in body(s1, k):
                    conts.append(s2.set(kloc, add(k, ("i", 1))))
            return conts, exits
        out = []
        for s, c in self.loop(st, ("fi", tag), it, e or {}):
            s = s.copy()
            s.store.pop(kroot, None)
            out.append(s)
        return out

    def classify(self, st, lid, run, site):
        """loc -> how an iteration changes it"""
        K = ("k", lid)
        cls = {}
        for _ in range(14):
            head = self.mkhead(st, lid, cls)
            (conts, exits), thrown = run(head)
            new = {}
            for c in conts:
                for loc in self.uncovered(head, c, cls, lid):
                    new[loc] = ("phi", st.get(loc))
            if not new:
                break
            self.addcls(cls, new)
        else:
            raise AnalysisError("loop at %s does not stabilise" % site)
        self.relate(st, lid, cls, run)
        for rnd in range(6):
            changed = False
            head = self.mkhead(st, lid, cls)
            (conts, exits), thrown = run(head)
            for loc, c in list(cls.items()):
                if c[0] != "phi" or len(c) > 2 and rnd > 3:
                    continue
                init = st.get(loc)
                p = head.get(loc)
                outs = [x.get(loc) for x in conts]
                if not outs:
                    continue
                ds = [sub(o, p) for o in outs] if all(self.intish(o) for o in outs + [init]) else None
                if ds and all(d[0] == "i" and d[1] == ds[0][1] for d in ds) and ds[0][1] != 0:
                    cls[loc] = ("ind", init, ds[0][1])
                    changed = True
                    continue
                if all(o == outs[0] for o in outs) and outs[0] != p and all(self.intish(o) for o in outs + [init]):
                    # the next value is init + s * (k + 1): so the value itself is init + s * k
                    d = sub(outs[0], init)
                    step = dict(lin(d)[1]).get(K, 0)
                    if step and d == scale(add(K, ("i", 1)), step):
                        cls[loc] = ("ind", init, step)
                        changed = True
                        continue
                pb = [self.ptrbase(o) for o in outs] if init[0] in ("ptr", "ptradd", "cstr", "s", "sym", "fld", "call") else None
                if pb and all(b == p and o[0] == "i" and o[1] == pb[0][1][1] and o[1] for b, o in pb):
                    cls[loc] = ("ptrind", init, pb[0][1][1])
                    changed = True
                    continue
                if any(o[0] == "seq" for o in outs) and (len(c) <= 2):
                    cls[loc] = ("acc", init)
                    changed = True
                    continue
            if not changed:
                for loc, c in list(cls.items()):
                    if c[0] == "acc":
                        for x in conts:
                            v = x.get(loc)
                            if not (v[0] == "seq" and v[1] and v[1][0] == ("acc", lid, loc)):
                                cls[loc] = ("phi", c[1], "noacc")
                                changed = True
                                break
                if not changed:
                    break
            else:
                # new symbols may uncover further modified parts
                head = self.mkhead(st, lid, cls)
                (conts, exits), thrown = run(head)
                new = {}
                for c in conts:
                    for loc in self.uncovered(head, c, cls, lid):
                        new[loc] = ("phi", st.get(loc))
                self.addcls(cls, new)
        return cls

    def relate(self, st, lid, cls, run):
        """finds containers whose size always equals an integer of the loop"""
        for C, c in cls.items():
            if c[0] != "phi" or c[1][0] not in ("seq", "s"):
                continue
            for I, d in cls.items():
                if d[0] != "phi" or not self.intish(d[1]) or idx_diff(sizeof(c[1]), d[1]) != 0:
                    continue
                self.relinv.setdefault(lid, {})[C] = I
                run(None)
                if self.related(st, lid, cls, run):
                    break
                del self.relinv[lid][C]
                run(None)

    def related(self, st, lid, cls, run):
        """whether the size equalities assumed at the loop head are inductive"""
        head = self.mkhead(st, lid, cls)
        (conts, exits), thrown = run(head)
        for C, I in self.relinv.get(lid, {}).items():
            for s in conts + [st]:
                i = s.get(I)
                if not self.intish(i) or rng(sub(sizeof(s.get(C)), i), s.facts) != ZERO:
                    return False
        return True

    def addcls(self, cls, new):
        for loc in new:
            for l in [l for l in cls if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                del cls[l]
        cls.update(new)

    # ---- the loop summariser ----------------------------------------------

    def loop(self, st, tag, it, node):
        """[(state, ctl)] after the loop"""
        st, lid = st.uid(tag)
        cache = {}

        def run(head):
            if head is None:
                return cache.clear()
            k = (head.key(), head.facts.key(), tuple(sorted(head.cnt.items(), key=repr)))
            r = cache.get(k)
            if r is None:
                na = len(self.accesses)
                (conts, exits), thrown = self.sub(it, head)
                conts = [y for c in conts for y in self.decide_bools(head, c)]
                conts = [c for c, _ in merge([(c, None) for c in conts])]
                cache[k] = (conts, exits, thrown, self.accesses[na:])
                return (conts, exits), thrown
            self.accesses.extend(r[3])
            return (r[0], r[1]), r[2]
        if tag not in self.hints:
            r = self.unroll(st, run)
            if r is not None:
                return r
        return self.summarise(st, lid, run, node, tag)

    def decide_bools(self, head, c):
        """splits a loop's next state over the boolean locals it has assigned"""
        for r, v in list(c.store.items()):
            if r[0] != "v" or r not in head.store or v == head.store[r]:
                continue
            if v[0] in BOOLK or NAT.get(v) == BOOL and v[0] != "i":
                out = []
                for s, b in self.split(c, v):
                    out += self.decide_bools(head, s.set((r, ()), ("i", int(b))))
                return out
        return [c]

    def unroll(self, st, run, limit=70):
        na = len(self.accesses)
        exits, allthrown = [], []
        cur = st
        n = 0
        ok = False
        while n <= limit:
            (conts, ex), thrown = run(cur)
            allthrown += thrown
            local = [x for x in ex if x[1] in ("end", "break")]
            if len(conts) > 1 or conts and local:
                break
            exits += ex
            if not conts:
                ok = True
                break
            if n > 3 and cur.key() == conts[0].key():
                break
            cur = conts[0]
            n += 1
        if not ok:
            del self.accesses[na:]
            return None
        self.sink.extend(allthrown)
        return merge([(s, None if c in ("end", "break") else c) for s, c in exits])

    def roots_of(self, head, c):
        for r in set(head.store) | set(c.store):
            if r in head.store and r not in c.store and r[0] in ("v", "t", "h"):
                continue
            if r not in head.store and r[0] in ("v", "t", "h", "del"):
                continue
            yield r

    def mkhead(self, st, lid, cls):
        """head state with the modified locations replaced by their symbols"""
        s = st
        K = ("k", lid)
        for loc, c in cls.items():
            if c[0] == "ind":
                v = add(c[1], scale(K, c[2]))
            elif c[0] == "acc":
                v = ("seq", (("acc", lid, loc),))
            elif c[0] == "lit":
                v = c[1]
            elif c[0] == "ptrind":
                v = self.ptradd(c[1], scale(K, c[2]))
            else:
                v = ("phi", lid, loc)
                MAPPHI.pop(v, None)
                if c[0] == "map":
                    MAPPHI[v] = (st.get(loc), K)
                if c[0] == "phi" and c[1] in NAT:
                    NAT.setdefault(v, NAT[c[1]])
            SIZES.pop(v, None)
            s = s.set(loc, v)
        for C, I in self.relinv.get(lid, {}).items():
            SIZES[s.get(C)] = s.get(I)
        return s

    def hinted(self, st, lid, run, tag):
        """classification found at an earlier visit of this loop, if it still fits"""
        h = self.hints.get(tag)
        if h is None:
            return None
        cls = {}
        self.relinv[lid] = dict(self.relhints.get(tag, {}))
        for loc, kind, x in h:
            r = loc[0]
            if r[0] in ("v", "t", "h") and r not in st.store:
                return None
            v = st.get(loc)
            cls[loc] = (kind, v, x) if x is not None else (kind, v)
        head = self.mkhead(st, lid, cls)
        (conts, exits), thrown = run(head)
        for c in conts:
            if self.uncovered(head, c, cls, lid):
                return None
        for loc, c in cls.items():
            outs = [x.get(loc) for x in conts]
            p = head.get(loc)
            if not outs:
                return None
            if c[0] == "ind":
                if not all(self.intish(o) for o in outs + [c[1]]) or any(sub(o, p) != ("i", c[2]) for o in outs):
                    return None
            elif c[0] == "ptrind":
                if any(self.ptrbase(o) != (p, ("i", c[2])) and self.ptradd(p, ("i", c[2])) != o for o in outs):
                    return None
            elif c[0] == "acc":
                if not all(o[0] == "seq" and o[1] and o[1][0] == ("acc", lid, loc) for o in outs):
                    return None
            elif all(o == p for o in outs):
                return None
        if not self.related(st, lid, cls, run):
            return None
        return cls

    def uncovered(self, head, c, cls, lid):
        K = ("k", lid)
        new = []
        for r in self.roots_of(head, c):
            if r[0] == "p" and occurs(r, lambda y: y == K):
                continue
            for p in leafdiff(head.get((r, ())), c.get((r, ()))):
                loc = (r, p)
                if any(l[0] == r and l[1] == p[:len(l[1])] for l in cls):
                    continue
                new.append(loc)
        return new

    def summarise(self, st, lid, run, node, tag):
        site = self.site(node)
        K = ("k", lid)
        na = len(self.accesses)
        self.relinv.pop(lid, None)
        cls = self.hinted(st, lid, run, tag)
        if cls is None:
            self.relinv.pop(lid, None)
            run(None)
            cls = self.classify(st, lid, run, site)
            self.relhints[tag] = dict(self.relinv.get(lid, {}))
            self.hints[tag] = [(l, c[0], c[2] if len(c) > 2 else None) for l, c in cls.items()]
        del self.accesses[na:]
        head = self.mkhead(st, lid, cls)
        (conts, exits), thrown = run(head)
        # containers whose elements are only changed at the loop's own index
        inplace = False
        for loc, c in list(cls.items()):
            if c[0] == "phi" and conts:
                p = head.get(loc)
                outs = [x.get(loc) for x in conts]
                if any(o != p for o in outs) and all(
                        o == p or o[0] == "upd" and o[1] == p and len(o[2]) == 1 and o[2][0][0] == ("x", K) for o in outs):
                    cls[loc] = ("map", c[1])
                    inplace = True
        if inplace:
            run(None)
            head = self.mkhead(st, lid, cls)
            (conts, exits), thrown = run(head)
        # 3. finite automaton over locations that only ever hold literals
        flags = []
        for loc, c in cls.items():
            if c[0] == "phi":
                init = st.get(loc)
                p = head.get(loc)
                outs = [x.get(loc) for x in conts]
                if is_const(init) and all(is_const(o) or o == p for o in outs):
                    flags.append(loc)
        flags.sort(key=repr)
        S = LoopSum(lid, site)
        S.fn = self.fr.fn.qn if self.frames else None
        S.entry = st
        S.entries = [(self, st)]
        del self.accesses[na:]
        nthrow = []
        allex = []
        heads, work = {}, [tuple(st.get(l) for l in flags)]
        results = []
        while work:
            hv = work.pop(0)
            if hv in heads:
                continue
            if len(heads) >= 10:
                # too many combinations: treat as unknown values
                flags, heads, results, work = [], {}, [], [()]
                continue
            heads[hv] = len(heads)
            cl2 = dict(cls)
            for l, v in zip(flags, hv):
                cl2[l] = ("lit", v)
            results.append((hv, cl2))
            h = self.mkhead(st, lid, cl2)
            (conts, exits), thrown = run(h)
            for c in conts:
                nv = tuple(c.get(l) for l in flags)
                if nv not in heads:
                    work.append(nv)
        incoming = set()
        first = tuple(st.get(l) for l in flags)
        runs = []
        del self.accesses[na:]
        pre = {}
        if flags and len(heads) > 1:
            for hv, cl2 in results:
                h = self.mkhead(st, lid, cl2)
                (conts, exits), thrown = run(h)
                for c in conts:
                    incoming.add(tuple(c.get(l) for l in flags))
        del self.accesses[na:]
        S.flags = tuple(flags)
        for hv, cl2 in results:
            h = self.mkhead(st, lid, cl2)
            if flags and len(heads) > 1:
                if hv == first and hv not in incoming:
                    h = h.nf()
                    h.facts.dom[K] = ZERO
                elif hv != first:
                    h = h.nf()
                    h.facts.dom[K] = POS
            (conts, exits), thrown = run(h)
            runs.append((hv, h, conts, exits, thrown))
        # 4. trip count
        S.n = self.tripcount(K, runs, st)
        if S.n is not None:
            # the index stays within the trip count
            rs = []
            for hv, h, conts, exits, thrown in runs:
                conts = [y for y in (assume_int(c, "<", K, S.n) for c in conts) if y is not None]
                exits = [(y, c) for y, c in ((assume_int(x, "<=", K, S.n), c) for x, c in exits) if y is not None]
                rs.append((hv, h, conts, exits, thrown))
            runs = rs
        # 5. transitions
        for loc, c in cls.items():
            if c[0] in ("ind", "ptrind"):
                S.inds[loc] = (c[1], c[2])
            elif c[0] == "acc":
                S.accs[loc] = c[1]
            else:
                S.phis[loc] = st.get(loc)
        S.hvals = [hv for hv, *_ in runs]
        for hv, h, conts, exits, thrown in runs:
            for c, _ in merge([(c, None) for c in conts]):
                t = Trans()
                t.src = heads[hv]
                nv = tuple(c.get(l) for l in flags)
                t.dst = heads.get(nv, -1)
                t.facts = c.facts
                t.delta = c.facts.diff(h.facts)
                t.events = tuple(c.events(h.trace))
                t.parts, t.phi = {}, {}
                for loc in S.accs:
                    t.parts[loc] = c.get(loc)[1][1:]
                for loc in S.phis:
                    t.phi[loc] = c.get(loc)
                t.heap = {r: v for r, v in c.store.items() if r[0] == "h" and r not in h.store}
                t.site = site
                S.trans.append(t)
        # element-wise updates of a container: v[k] = f(k) for every k
        for loc in list(S.phis):
            p = ("phi", lid, loc)
            if loc in flags or S.n is None or not S.trans:
                continue
            vs = []
            for t in S.trans:
                o = t.phi[loc]
                if o[0] == "upd" and o[1] == p and len(o[2]) == 1 and o[2][0][0] == ("x", K):
                    vs.append(o[2][0][1])
                elif o == p:
                    vs.append(("elem", p, K))
            if len(vs) == len(S.trans):
                init = S.phis[loc]
                if idx_diff(S.n, sizeof(init)) == 0:
                    m = {("elem", p, K): proj(init, ("x", K)), p: init}
                    for t, v in zip(S.trans, vs):
                        t.parts[loc] = (("one", subst(v, m)),)
                        del t.phi[loc]
                    del S.phis[loc]
                    S.maps[loc] = init
        S = S.intern()
        if S not in self.loops:
            self.loops.append(S)
        if self.mem:
            self.accesses.append(Access(None, "loop", (), site, False, False, (), S))
        # 6. exit states
        out = []
        whole = S
        for hv, h, conts, exits, thrown in runs:
            S = whole.towards(heads[tuple(st.get(l) for l in flags)], heads[hv]) if len(runs) > 1 else whole
            for x, ctl in exits:
                for y in self.by_trips(S, x, K):
                    r = self.close(S, st, h, y, K)
                    if r is not None:
                        out.append((r, None if ctl in ("end", "break") else self.close_val(S, h, y, ctl, K)))
            for x, exc in thrown:
                r = self.close(S, st, h, x, K)
                if r is not None:
                    self.sink.append((r, exc))
        return merge(out)

    def intish(self, v):
        return v[0] in ("i", "lin", "phi", "size", "k", "fld", "elem", "deref", "op", "cvt", "call", "sym", "sel", "f2i", "find")

    def tripcount(self, K, runs, st):
        cands = []
        for hv, h, conts, exits, thrown in runs:
            for x, ctl in exits:
                if ctl != "end" and ctl != "break":
                    continue
                for key in x.facts.dom:
                    if key == K:
                        d = rng(K, x.facts)
                        if not d.empty() and d.min() > 0 and d.min() < INF:
                            cands.append(("i", int(d.min())))
                        continue
                    if key[0] != "lin":
                        continue
                    co = dict(key[2]).get(K)
                    if co not in (1, -1):
                        continue
                    rest = mklin(0, {t: c for t, c in key[2] if t != K})
                    if occurs(rest, lambda y: y == K or (isinstance(y, tuple) and len(y) > 1 and y[0] in ("phi", "acc") and y[1] == K[1])):
                        continue
                    base = scale(rest, -co)        # key = co*(K - base)
                    dd = x.facts.dom[key]
                    s = dd if co == 1 else dd.neg()  # K - base in s
                    if s.empty() or s.min() == -INF:
                        continue
                    cands.append(add(base, ("i", int(s.min()))))
        seen = []
        for R in cands:
            if R in seen:
                continue
            seen.append(R)
            ok = True
            some = False
            for hv, h, conts, exits, thrown in runs:
                for c in conts:
                    some = True
                    # continuing implies K < R (or K != R)
                    f = assume_int(c, "==", sub(R, K), ("i", 0))
                    if f is not None:
                        ok = False
            if ok and some and rng(R, st.facts).subset(NONNEG):
                return R
        return None

    def kfacts(self, fa, K):
        """facts without those that mention K"""
        f = Facts()
        has = lambda t: occurs(t, lambda y: y == K)
        f.rel = {k: v for k, v in fa.rel.items() if not has(k)}
        f.dom = {k: v for k, v in fa.dom.items() if not has(k)}
        f.lit = {k: v for k, v in fa.lit.items() if not has(k)}
        f.fc = {k: v for k, v in fa.fc.items() if not has(k)}
        return f

    def exit_mode(self, S, x, K):
        """(substitution for K or None, 'n' | 'k')"""
        d = rng(K, x.facts)
        if d == ZERO and not S.inds and False:
            return ("i", 0), "k"
        if S.n is not None:
            r = rng(sub(S.n, K), x.facts)
            if not r.empty() and r.max() <= 0:
                return S.n, "n"
        return None, "k"

    def copied(self, S, loc, K):
        """the container that a completed loop has appended element by element, or None"""
        X = None
        for t in S.trans:
            ps = t.parts.get(loc, ())
            if len(ps) != 1 or ps[0][0] != "one" or ps[0][1][0] != "elem" or ps[0][1][2] != K:
                return None
            if X is not None and X != ps[0][1][1]:
                return None
            X = ps[0][1][1]
        if X is None or occurs(X, lambda y: y == K or isinstance(y, tuple) and len(y) > 1 and y[0] in ("phi", "acc") and y[1] == S.lid):
            return None
        return X if idx_diff(S.n, sizeof(X)) == 0 else None

    def lastval(self, S, loc, K):
        """next value of a location that every iteration sets afresh, as a function of K; or None"""
        r = None
        for t in S.trans:
            v = t.phi.get(loc)
            if v is None or r is not None and v != r:
                return None
            r = v
        if r is None or not occurs(r, lambda y: y == K):
            return None
        if occurs(r, lambda y: isinstance(y, tuple) and len(y) > 1 and y[0] in ("phi", "acc") and y[1] == S.lid):
            return None
        return r

    def by_trips(self, S, x, K):
        """splits an exit state into no iteration / some iterations where a last value depends on it"""
        if not S.phis or 0 not in rng(K, x.facts) or rng(K, x.facts) == ZERO or \
                not any(self.lastval(S, l, K) is not None for l in S.phis):
            return [x]
        return [y for y in (assume_int(x, "==", K, ("i", 0)), assume_int(x, ">=", K, ("i", 1))) if y is not None]

    def exit_map(self, S, x, K):
        kv, mode = self.exit_mode(S, x, K)
        zero = rng(K, x.facts) == ZERO
        m = {}
        for loc, init in S.accs.items():
            whole = self.copied(S, loc, K) if mode == "n" and not zero else None
            m[("acc", S.lid, loc)] = list(parts(init)) + (list(parts(whole)) if whole is not None else [] if zero or not S.trans
                                                          else [("loop", S, loc, mode)])
        for loc, init in S.maps.items():
            if mode == "n":
                m[("phi", S.lid, loc)] = ("seq", (("loop", S, loc, "n"),)) if not zero else init
        if zero:
            m[K] = ("i", 0)
            for loc, init in S.phis.items():
                m[("phi", S.lid, loc)] = init
        else:
            if 0 not in rng(K, x.facts):
                for loc in S.phis:
                    g = self.lastval(S, loc, K)
                    if g is not None:
                        m[("phi", S.lid, loc)] = subst(g, {K: sub(kv if kv is not None else K, ("i", 1))})
            if kv is not None:
                m[K] = kv
        return m, mode, kv, zero

    def close(self, S, st, h, x, K):
        m, mode, kv, zero = self.exit_map(S, x, K)
        fa = x.facts
        s = x.copy()
        if zero or mode == "n":
            n = ("i", 0) if zero else kv
            base = x
            if mode == "n" and S.n is not None:
                z = rng(K, fa)
                if z.single() is not None:
                    base = assume_int(x, "==", S.n, ("i", int(z.single())))
                elif not z.empty() and z.min() > 0:
                    base = assume_int(x, ">=", S.n, ("i", int(z.min())))
                if base is None:
                    return None
            fa = base.facts
            f2 = self.kfacts(fa, K)
            # facts over K, restated over its final value
            for k, v in fa.dom.items():
                if k in f2.dom or k == K:
                    continue
                k2 = subst(k, {K: n})
                if k[0] != "lin":
                    f2.dom[k2] = v
                elif k2[0] != "i":
                    key, sgn = canon(k2)
                    d = v.shift(-(k2[1] if k2[0] == "lin" else 0))
                    d = (d if sgn > 0 else d.neg()).inter(rng(key, f2))
                    if not d.empty():
                        f2.dom[key] = d
            if zero:
                for k, v in fa.rel.items():
                    if k not in f2.rel:
                        a, b = subst(k[0], {K: n}), subst(k[1], {K: n})
                        setrel(f2, a, b, v)
                for k, v in fa.lit.items():
                    f2.lit[subst(k, {K: n})] = v
                for k, v in fa.fc.items():
                    f2.fc[subst(k, {K: n})] = v
                if S.n is not None and mode != "n":
                    pass
            fa = f2
        # rename accumulators inside facts
        am = {k: v for k, v in m.items() if k[0] in ("acc", "phi")}
        if am:
            f3 = Facts()
            for (a, b), v in fa.rel.items():
                setrel(f3, subst(a, am), subst(b, am), v)
            f3.dom = {subst(k, am): v for k, v in fa.dom.items()}
            f3.lit = {subst(k, am): v for k, v in fa.lit.items()}
            f3.fc = {subst(k, am): v for k, v in fa.fc.items()}
            fa = f3
        s.facts = fa
        evs = x.events(h.trace)
        tr = st.trace
        if S.trans and not zero:
            tr = Tr.add(tr, ("loop", S, mode))
        for e in evs:
            tr = Tr.add(tr, subst(e, m) if m else e)
        s.trace = tr
        if m:
            ns = {}
            for r, v in s.store.items():
                ns[subst(r, m) if r[0] in ("p",) else r] = subst(v, m)
            s.store = ns
            s.live = tuple((subst(l, m), t) for l, t in s.live)
            s.locks = tuple((subst(l, m), u, md) for l, u, md in s.locks)
        return s

    def close_val(self, S, h, x, ctl, K):
        if isinstance(ctl, tuple) and ctl[0] == "ret":
            m, *_ = self.exit_map(S, x, K)
            return ("ret", subst(ctl[1], m)) if m else ctl
        return ctl

    # ================= entry points =======================================

    def entry(self, fn, this=("sym", "this"), args=None, st=None, site=None):
        """analyses fn from a generic initial state: [Outcome]"""
        st = st or State()
        self.sink = []
        argl = []
        for i, p in enumerate(fn.params):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                argl.append(a if a[0] in (L, V) and len(a) >= 3 else (V, a, p["t"], None))
                continue
            sym = ("sym", "arg%d" % i)
            t = p["t"]
            if t.isref():
                argl.append((L, (("p", sym), ()), t.pt, "l"))
            else:
                v = self.typed(("deref", sym), t)
                argl.append((V, v, t, None))
        self.frames = [Frame(fn, 0, this, {}, None, "entry")]
        try:
            th = this if fn.kind in ("method", "ctor", "dtor") and not fn.static else None
            res = self.invoke(fn, st, th, argl, {"i": 0})
            outs = []
            for s, r in res:
                outs.append(Outcome("ret", s, r))
            for s, x in self.sink:
                outs.append(Outcome("throw", s, None, x))
        finally:
            self.frames = []
            self.sink = []
        return outs
