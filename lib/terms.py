"""Terms: provenance expressions that abstract values.  Plain nested tuples."""
from facts import IntSet

THIS = ("deref", ("sym", "this"))
NULL = ("null",)


def i(n):
    return ("i", n)


def f(x):
    return ("f", float(x))


def is_const(t):
    return t[0] in ("i", "f", "s", "null", "fnptr", "functor")


# ---- linear integer arithmetic -------------------------------------------

def lin(t):
    """(const, {term: coef})"""
    if t[0] == "i":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ("i", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: trepr(kv[0]))))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a[0] == "i":
        return scale(b, a[1])
    if b[0] == "i":
        return scale(a, b[1])
    return ("op", "*") + tuple(sorted((a, b), key=repr))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def binint(op, a, b, w=64, sg=1):
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        r = None
        if op == "/" and y:
            r = tdiv(x, y)
        elif op == "%" and y:
            r = x - y * tdiv(x, y)
        elif op == "<<":
            r = x << y
        elif op == ">>":
            r = x >> y
        elif op == "&":
            r = x & y
        elif op == "|":
            r = x | y
        elif op == "^":
            r = x ^ y
        if r is not None:
            return ("i", wrap(r, w, sg))
    if op == "/" and b == ("i", 1):
        return a
    if op in ("<<", ">>") and b == ("i", 0):
        return a
    if op in ("|", "^") and a == ("i", 0):
        return b
    if op in ("|", "^", "+") and b == ("i", 0):
        return a
    if op == "<<" and b[0] == "i" and a[0] not in ("op",):
        pass
    if op in ("&", "|", "^"):
        x = sorted((a, b), key=repr)
        return ("op", op, x[0], x[1])
    return ("op", op, a, b)


def wrap(n, w, sg):
    if not w or w > 64:
        return n
    n &= (1 << w) - 1
    if sg and n >> (w - 1):
        n -= 1 << w
    return n


# ---- floating point --------------------------------------------------------

def fneg(a):
    if a[0] == "f":
        return ("f", -a[1])
    if a[0] == "fneg":
        return a[1]
    return ("fneg", a)


def binfl(op, a, b):
    if a[0] == "f" and b[0] == "f":
        x, y = a[1], b[1]
        try:
            return ("f", {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]())
        except (ZeroDivisionError, KeyError, OverflowError):
            pass
    if op == "-":
        return binfl("+", a, fneg(b))
    if op == "+":
        if a == ("f", 0.0):
            return b
        if b == ("f", 0.0):
            return a
        x = sorted((a, b), key=repr)
        return ("fop", "+", x[0], x[1])
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if x == ("f", 1.0):
                return y
            if x == ("f", -1.0):
                return fneg(y)
        x = sorted((a, b), key=repr)
        return ("fop", "*", x[0], x[1])
    if op == "/" and b == ("f", 1.0):
        return a
    return ("fop", op, a, b)


# ---- sequences (strings, vectors, stream contents) -------------------------

def mkseq(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        if p[0] == "rep" and p[1] == ("i", 0):
            continue
        if p[0] == "rep" and p[1] == ("i", 1):
            p = ("lit", bytes([p[2][1] & 255])) if p[2][0] == "i" and False else ("one", p[2])
        if p[0] == "all" and p[1][0] == "seq":
            for q in p[1][1]:
                out.append(q)
            out2 = []
            for q in out:
                if q[0] == "lit" and out2 and out2[-1][0] == "lit":
                    out2[-1] = ("lit", out2[-1][1] + q[1])
                else:
                    out2.append(q)
            out = out2
            continue
        out.append(p)
    if len(out) == 1 and out[0][0] == "all":
        return out[0][1]
    return ("seq", tuple(out))


def parts(v):
    """content of a container or string value as sequence parts"""
    if v[0] == "seq":
        return v[1]
    if v[0] == "s":
        return (("lit", v[1]),) if v[1] else ()
    return (("all", v),)


EMPTY = ("seq", ())


def mapkeys(m):
    """a map value up to its mapped values"""
    if m[0] == "mins":
        return ("mins", mapkeys(m[1]), m[2], ("void",))
    if m[0] == "merase":
        return ("merase", mapkeys(m[1])) + m[2:]
    return m


def findt(m, k):
    """position of a key; mapped values do not matter"""
    return ("find", mapkeys(m), k)


def cstr(v):
    """constant bytes of a string value or None"""
    if v[0] == "s":
        return v[1]
    if v[0] == "seq":
        b = b""
        for p in v[1]:
            if p[0] == "lit":
                b += p[1]
            elif p[0] == "one" and p[1][0] == "i":
                b += bytes([p[1][1] & 255])
            else:
                return None
        return b
    return None


def subst(t, m):
    return _subst(t, m, {}) if m else t


def _subst(t, m, memo):
    if not isinstance(t, tuple):
        return t
    k = id(t)
    r = memo.get(k)
    if r is not None:
        return r[1]
    r = _subst1(t, m, memo)
    memo[k] = (t, r)      # keeps t alive, so that the id stays valid
    return r


def _subst1(t, m, memo):
    if t in m:
        return m[t]
    if t and t[0] == "seq":
        out = []
        for p in t[1]:
            if p in m:
                out.extend(m[p] if isinstance(m[p], list) else [m[p]])
            else:
                out.append(_subst(p, m, memo))
        return mkseq(out)
    if t and t[0] == "lin":
        r = ("i", t[1])
        for k, c in t[2]:
            r = add(r, scale(_subst(k, m, memo), c))
        return r
    out, ch = [], False
    for x in t:
        if isinstance(x, tuple):
            y = _subst(x, m, memo)
            ch = ch or y is not x
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else t


def occurs(t, pred):
    if not isinstance(t, tuple):
        return False
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if pred(x):
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


_REPR = {}


def trepr(t):
    """repr(t), remembered"""
    r = _REPR.get(id(t))
    if r is None:
        if len(_REPR) > 300000:
            _REPR.clear()
        r = (t, repr(t))
        _REPR[id(t)] = r
    return r[1]


def contains(t, x):
    return occurs(t, lambda y: y == x)


def strip(t):
    """drops value preserving conversions"""
    while t[0] in ("cvt", "i2f", "f2i"):
        t = t[-1]
    return t
