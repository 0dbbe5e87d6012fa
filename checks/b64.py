"""C30: base64 coding."""
from chk import *

D = "prometheus::detail::"
STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
URL = STD[:62] + b"-_"
PAD = ord("=")
W = 64
IN = arg(0)
SIZE = ("size", IN)


# ---- bits ----------------------------------------------------------------------------------
# the bits of a term, lowest first, two's complement: 0, 1, (term, bit) for a copy of an input bit, None if unknown

def const_bits(n):
    return [(n >> i) & 1 for i in range(W)]


def bits(t, env, fa=None):
    if t in env:
        return env[t]
    k = t[0]
    if k == "i":
        return const_bits(t[1])
    if k == "elem" and t[1] == IN:         # a char, sign extended
        return [(t, i) for i in range(8)] + [(t, 7)] * (W - 8)
    if k == "elem" and t[1][0] == "s":
        ix = bits(t[2], env)
        if all(b in (0, 1) for b in ix):
            n = sum(b << i for i, b in enumerate(ix))
            if n < len(t[1][1]):
                x = t[1][1][n]
                return const_bits(x - 256 if x > 127 else x)
        return [None] * W
    if k == "cvt":
        w, sg = t[1] or W, t[2]
        x = bits(t[3], env)[:w]
        return x + [x[-1] if sg else 0] * (W - w)
    if k == "lin":
        r = const_bits(t[1])
        for x, c in t[2]:
            if c <= 0 or c & (c - 1):
                if all(b in (0, 1) for b in bits(x, env)):
                    r = plus(r, const_bits(c * num(bits(x, env))))
                    continue
                return [None] * W
            r = plus(r, shift(bits(x, env), c.bit_length() - 1))
        return r
    if k == "op":
        a, b = bits(t[2], env), bits(t[3], env)
        if t[1] == "&":
            return [0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else None for x, y in zip(a, b)]
        if t[1] == "|":
            return [1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else None for x, y in zip(a, b)]
        if t[1] == "^":
            return [y if x == 0 else x if y == 0 else 0 if x == y and x is not None else None for x, y in zip(a, b)]
        n = t[3][1] if t[3][0] == "i" else num(b) if all(x in (0, 1) for x in b) else None
        if n is not None and 0 <= n:
            if t[1] == "<<":
                return shift(a, n)
            if t[1] == ">>":
                return (a[n:] + [a[-1]] * min(n, W))[:W]
            if n and n & (n - 1) == 0 and a[-1] == 0:
                if t[1] == "/":
                    return a[n.bit_length() - 1:] + [0] * (n.bit_length() - 1)
                if t[1] == "%":
                    return a[:n.bit_length() - 1] + [0] * (W - n.bit_length() + 1)
                if t[1] == "*":
                    return shift(a, n.bit_length() - 1)
    return [None] * W


def num(b):
    n = sum(x << i for i, x in enumerate(b))
    return n - (1 << W) if b[-1] else n


def shift(a, n):
    return ([0] * n + a)[:W]


def plus(a, b):
    out, carry = [], 0
    for x, y in zip(a, b):
        if carry is None:
            out.append(None)
        elif all(v in (0, 1) for v in (x, y)):
            s = x + y + carry
            out.append(s & 1)
            carry = s >> 1
        elif carry == 0 and 0 in (x, y):
            out.append(x if y == 0 else y)
        else:
            out.append(None)
            carry = None
    return out


# ---- encoding ------------------------------------------------------------------------------

def sextet(p, table):
    """the six input bits that select the character, highest first; None if it is not read from the alphabet"""
    t = strip(p)
    if t[0] != "elem" or t[1][0] != "s" or t[1][1].rstrip(b"\0") != table:
        return None
    b = bits(t[2], {})
    return b[5::-1] if all(x == 0 for x in b[6:]) else None


def units(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            out += [("i", b) for b in p[1]]
        elif p[0] == "one":
            out.append(p[1])
        elif p[0] == "rep" and p[1][0] == "i" and p[1][1] <= 8:
            out += [p[2]] * p[1][1]
        else:
            out.append(p)
    return out


def group(us, n, base, table):
    """do the four characters encode n bytes from index base on?"""
    want = []
    for j in range(n):
        want += [(("elem", IN, add(base, ("i", j))), 7 - i) for i in range(8)]
    want += [0] * (-len(want) % 6)
    for j in range(4):
        if 6 * j < len(want):
            s = sextet(us[j], table)
            if s != want[6 * j:6 * j + 6]:
                return False
        elif strip(us[j]) != ("i", PAD):
            return False
    return True


THIRD = ("op", "/", SIZE, ("i", 3))


def remaining(base, fa, K=None, least=None):
    """how many bytes there are from index base on"""
    d = sub(SIZE, base)
    r = rng(d, fa)
    if least is not None:
        r = r.inter(IntSet([(least, 1 << 62)]))
    m = rng(("op", "%", SIZE, ("i", 3)), fa)
    if d == sub(SIZE, scale_(THIRD, 3)):
        return m
    if K is not None and base == scale_(K, 3) and rng(sub(K, THIRD), fa).max() <= -1:
        r = r.inter(IntSet([(3, 1 << 62)]))
    if K is not None and base == scale_(K, 3) or base == ("i", 0):      # congruent modulo 3
        lo, hi = r.min(), r.max()
        if hi <= 2 and lo >= 0:
            r = r.inter(m)
    if base == ("i", 0) and rng(THIRD, fa) == IntSet.of(0):
        r = r.inter(m)
    return r


def scale_(t, n):
    r = ("i", 0)
    for _ in range(n):
        r = add(r, t)
    return r


def encoded(o, table):
    """why the returned text is not the encoding of the argument, or None"""
    if o.kind != "ret":
        return "encoding fails"
    v = retval(o)
    if v[0] in ("s", "b"):
        v = ("seq", (("lit", v[1]),) if v[1] else ())
    if v[0] != "seq":
        return "the result is %s" % show(v)[:200]
    base, us = ("i", 0), units(v[1])
    least = None
    while us:
        if us[0][0] == "loop":
            S, loc, mode = us.pop(0)[1:4]
            if base != ("i", 0):
                return "a second loop at %s" % S.site
            K = S.K()
            if len(S.heads) > 1:
                return "the loop at %s is not understood" % S.site
            for t in S.trans:
                g = units(t.parts.get(loc, ()))
                b = scale_(K, 3)
                if len(g) != 4:
                    return "a round of the loop at %s appends %d characters" % (S.site, len(g))
                r = remaining(b, t.facts, K)
                n = 3 if not r.empty() and r.min() >= 3 else r.single()
                if n not in (1, 2, 3) or not group(g, n, b, table):
                    return "with %r bytes left, the loop at %s appends %s" % (r, S.site, [show(x)[-160:] for x in g])
            if mode == "n" and S.n is not None:
                base = scale_(S.n, 3)
                if S.n not in (THIRD,) and not same(sub(scale_(S.n, 3), SIZE), ("i", 0), o.facts):
                    return "the loop at %s makes %s rounds" % (S.site, show(S.n))
            else:
                base = scale_(K, 3)
                # what the last round left
                if 0 not in rng(K, o.facts) and S.trans:
                    least = min(rng(sub(SIZE, base), t.facts).min() for t in S.trans) - 3
            continue
        if len(us) < 4:
            return "%d characters are left at the end" % len(us)
        r = remaining(base, o.facts, klast(base), least)
        n = 3 if not r.empty() and r.min() >= 3 else r.single()
        if n not in (1, 2, 3) or not group(us[:4], n, base, table):
            return "with %r bytes left, it appends %s" % (r, [show(x)[-160:] for x in us[:4]])
        us = us[4:]
        if n < 3:
            return None if not us else "text follows the padding"
        base = add(base, ("i", 3))
        least = None
    r = remaining(base, o.facts, klast(base), least)
    if not r.empty() and r.max() > 0:
        return "%r bytes are not encoded" % r
    return None


def klast(base):
    if base[0] == "lin" and base[1] == 0 and len(base[2]) == 1 and base[2][0][1] == 3 and base[2][0][0][0] == "k":
        return base[2][0][0]
    return None


def encode(c):
    f = c.fn(D + "base64_encode", 1)
    for o in c.run(f).outs:
        why = encoded(o, STD)
        c.req(why is None, "encode", c.where(f), lambda: "%s\n%s" % (why, describe(o)))
    for o in c.run(f, mode="cb").throws:
        c.req(False, "encode", c.where(f), lambda: describe(o))
    c.sample("%d paths of %s" % (len(c.run(f).outs), sig(f)))
    u = c.fn(D + "base64url_encode", 1)
    direct = [encoded(o, URL) for o in c.run(u).outs]
    if all(x is None for x in direct):
        c.req(True, "url", c.where(u))
        return
    E = None
    for o in c.run(u, opaque=(D + "base64_encode",)).outs:
        v = retval(o) if o.kind == "ret" else ("?",)
        calls = [e for e, l in walk(o.events) if e[0] == "opaque"]
        ok = len(calls) == 1 and calls[0][1] == D + "base64_encode" and content(o, calls[0][2][0]) == IN
        if not c.req(ok, "url", c.where(u), lambda: "the standard form is not what is translated (%s)\n%s" % (direct[0], describe(o))):
            continue
        E = [t for t in terms_in(v) if t[:2] == ("call", D + "base64_encode")]
        E = E[0] if E else None
        ps = v[1] if v[0] == "seq" else ()
        if v == E or E is not None and len(ps) == 1 and ps[0] == ("all", E):
            c.req(rng(("size", E), o.facts) == IntSet.of(0), "url", c.where(u), lambda: "nothing is translated\n" + describe(o))
            continue
        if not ps and E is None:
            E2 = [t for t in o.facts.dom if t[0] == "size" and t[1][:2] == ("call", D + "base64_encode")]
            c.req(bool(E2) and rng(E2[0], o.facts) == IntSet.of(0), "url", c.where(u), lambda: "the result is empty\n" + describe(o))
            continue
        try:
            m = translation(v, E, o)
        except Bad as x:
            c.req(False, "url", c.where(u), lambda: "%s\n%s" % (x, describe(o)))
            continue
        for b in sorted(set(STD) | {PAD}):
            want = URL[STD.index(b)] if b in STD else b
            c.req(m.get(b) == {want}, "url", c.where(u), lambda: "%r becomes %s" % (bytes([b]), [bytes([y & 255]) for y in m.get(b, ())]))


def translation(v, E, o):
    """what becomes of each character of E, where v is made of E character by character: {character: {characters}}"""
    if v == E:
        return {b: {b} for b in range(-128, 128)}
    ps = v[1] if v[0] == "seq" else ()
    if len(ps) == 1 and ps[0] == ("all", E):
        return {b: {b} for b in range(-128, 128)}
    if len(ps) != 1 or ps[0][0] != "loop" or ps[0][3] != "n" or ps[0][1].n is None:
        raise Bad("the result is %s" % show(v)[:300])
    S, loc = ps[0][1:3]
    ok = same(S.n, ("size", E), o.facts)
    # the sequence that the loop goes through: E, or one made of it
    src = {x[1] for t in S.trans for x in list(t.facts.dom) + [strip(p) for p in units(t.parts.get(loc, ()))] if x[0] == "elem" and x[2] == S.K()}
    src |= {x[1] for t in S.trans for x in t.facts.dom if x[0] == "elem" and x[2] == S.K()}
    if len(src) != 1:
        raise Bad("the loop at %s goes through %s" % (S.site, [show(x)[:80] for x in src]))
    src = src.pop()
    before = translation(src, E, o)
    if not ok and not same(S.n, ("size", src), o.facts):
        raise Bad("the loop at %s makes %s rounds" % (S.site, show(S.n)))
    x = ("elem", src, S.K())
    m = {}
    for t in S.trans:
        us = units(t.parts.get(loc, ()))
        if len(us) != 1:
            raise Bad("the loop at %s makes %s of a character" % (S.site, [show(y) for y in us]))
        got = strip(us[0])
        if got[0] != "i" and got != x:
            raise Bad("the loop at %s makes %s of a character" % (S.site, show(got)))
        for b in range(-128, 128):
            if b in rng(x, t.facts):
                m.setdefault(b, set()).add(b if got == x else got[1])
    return {b: {z for y in ys for z in m.get(y, ())} for b, ys in before.items()}


def terms_in(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, LoopSum):
            for tr in x.trans:
                todo += [p for ps in tr.parts.values() for p in ps]
            continue
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            todo += list(x)
    return out


def content(o, x):
    return o.st.get(x[1]) if x[0] == "ptr" else ("deref", x) if x[0] == "sym" else x


# ---- decoding ------------------------------------------------------------------------------

class Bad(Exception):
    pass


def in_chars(t):
    return [x for x in terms_in(t) if x[0] == "elem" and x[1] == IN]


def rounds(S, loc, c):
    """checks that every round of the loop shifts loc by six bits and adds the value of its character: index of the character"""
    p = ("phi", S.lid, loc)
    pb = [("p", i) for i in range(W)]
    cov, idx = set(), None
    for t in S.trans:
        nxt = t.phi[loc]
        cs = sorted({x for x in list(t.facts.dom) + in_chars(nxt) if x[0] == "elem" and x[1] == IN and contains(x[2], S.K())}, key=repr)
        if len(cs) != 1:
            raise Bad("a round of the loop at %s reads %s" % (S.site, [show(x) for x in cs]))
        x = cs[0]
        if idx is not None and x[2] != idx:
            raise Bad("the rounds of the loop at %s read different characters" % S.site)
        idx = x[2]
        dom = rng(x, t.facts).inter(IntSet([(-128, 127)]))
        for b in range(-128, 128):
            if b not in dom:
                continue
            if b < 0 or b not in STD:
                raise Bad("the character %r is accepted at %s" % (bytes([b & 255]), S.site))
            got = bits(nxt, {p: pb, x: const_bits(b)})[:24]
            want = const_bits(STD.index(b))[:6] + pb[:18]
            if got != want:
                raise Bad("the character %r is decoded as %s at %s" % (chr(b), num6(got), S.site))
            cov.add(b)
    if cov != set(STD):
        raise Bad("%r not accepted at %s" % (bytes(sorted(set(STD) - cov)), S.site))
    return idx


def num6(b):
    return sum(x << i for i, x in enumerate(b[:6])) if all(x in (0, 1) for x in b[:6]) else "something else"


def inner(S, n, c, outer):
    """the bits that the variables of a loop over characters have after n rounds: {phi term: bits}"""
    env = {}
    for loc in S.phis:
        try:
            idx = rounds(S, loc, c)
        except Bad:
            if all(t.phi[loc] == ("phi", S.lid, loc) for t in S.trans):
                continue
            raise
        b = [("?", loc, i) for i in range(W)]
        init = S.phis[loc]
        if init == ("i", 0):
            b = const_bits(0)
        first = subst(idx, {S.K(): ("i", 0)})
        if sub(idx, first) != S.K():
            raise Bad("the loop at %s does not read one character after the other" % S.site)
        for j in range(n):
            b = [(("x", add(first, ("i", j))), i) for i in range(6)] + b[:W - 6]
        env[("phi", S.lid, loc)] = b
        env["first"] = first
    if "first" not in env:
        raise Bad("no value is accumulated at %s" % S.site)
    return env


def bytes_ok(us, n, env, base):
    """the appended characters are the first n bytes of the group of characters at base"""
    if len(us) != n:
        return "%d bytes are appended instead of %d" % (len(us), n)
    want = []
    for j in range(4):
        want += [(("x", add(base, ("i", j))), 5 - i) for i in range(6)]
    for j, u in enumerate(us):
        b = bits(u, env)[7::-1]
        if b != want[8 * j:8 * j + 8]:
            return "byte %d of a group is %s" % (j, show(u)[:200])
    return None


def decode(c):
    f = c.fn(D + "base64_decode", 1)
    w = c.where(f)
    r = c.run(f)
    kinds = set()
    for o in r.outs:
        if o.kind != "ret":
            c.req(malformed(o), "reject", w, lambda: "well formed input may be rejected\n" + describe(o))
            continue
        try:
            kinds.add(accepted(c, o))
            c.req(True, "decode", w)
        except Bad as x:
            c.req(False, "decode", w, "%s\n%s" % (x, describe(o)))
    c.req({0, 1, 2} <= kinds or any(not v for v in c.counts.values()) or bool(c.viol), "decode", w, lambda: "paddings accepted: %s" % sorted(kinds))
    c.sample("%d paths of %s; paddings accepted: %s" % (len(r.outs), sig(f), sorted(kinds)))


FOURTH = ("op", "/", SIZE, ("i", 4))


def more(K, fa):
    """are there characters from index 4K on?  (rounds go up from 0 one by one)"""
    d = rng(sub(scale_(K, 4), SIZE), fa)
    if d.max() <= -1 or rng(sub(K, FOURTH), fa).max() <= -1:
        return True
    return 0 not in d and rng(("op", "%", SIZE, ("i", 4)), fa) == IntSet.of(0)


def accepted(c, o):
    """the padding of an accepted input"""
    fa = o.facts
    m = rng(("op", "%", SIZE, ("i", 4)), fa)
    empty = rng(SIZE, fa) == IntSet.of(0)
    if not empty and m != IntSet.of(0):
        raise Bad("the length is %r modulo 4" % m)
    v = retval(o)
    if v[0] in ("s", "b") and not v[1]:
        v = ("seq", ())
    if v[0] != "seq":
        raise Bad("the result is %s" % show(v)[:200])
    us = units(v[1])
    if empty and not us:
        return 0
    base = ("i", 0)
    if us and us[0][0] == "loop":
        S, loc, mode = us.pop(0)[1:4]
        K = S.K()
        for t in S.trans:
            ls = [e for e in t.events if e[0] == "loop"]
            if len(ls) != 1 or ls[0][2] != "n" or ls[0][1].n != ("i", 4):
                raise Bad("a round of the loop at %s does not decode four characters" % S.site)
            env = inner(ls[0][1], 4, c, S)
            if env["first"] != scale_(K, 4):
                raise Bad("a round of the loop at %s reads from %s" % (S.site, show(env["first"])))
            why = bytes_ok(units(t.parts.get(loc, ())), 3, env, scale_(K, 4))
            if why:
                raise Bad(why + " at %s" % S.site)
            if not more(K, t.facts):
                raise Bad("the loop at %s may read past the end" % S.site)
        base = scale_(K, 4) if mode != "n" or S.n is None else scale_(S.n, 4)
    tails = [e for e in o.events if e[0] == "loop" and e[2] == "k" and e[1].n == ("i", 4)]
    # the position of the first padding character
    pads = [x for x, d in fa.dom.items() if x[0] == "elem" and x[1] == IN and d == IntSet.of(PAD)]
    if not us and not tails:
        d = sub(SIZE, base)
        if base == scale_(("op", "/", SIZE, ("i", 4)), 4) or rng(d, fa).max() <= 0:
            return 0
        raise Bad("%r characters are not decoded" % rng(d, fa))
    if len(tails) != 1:
        raise Bad("the end is not decoded by one loop")
    S = tails[0][1]
    env = inner(S, 0, c, None)
    if env["first"] != base:
        raise Bad("the end is read from %s" % show(env["first"]))
    p = add(base, S.K())
    if ("elem", IN, p) not in pads:
        raise Bad("decoding stops at %s, which is not padding" % show(p))
    d = rng(sub(p, SIZE), fa)
    if d == IntSet.of(-1):
        n = 3
    elif d == IntSet.of(-2) and (("elem", IN, add(p, ("i", 1))) in pads or ("elem", IN, sub(SIZE, ("i", 1))) in pads):
        n = 2
    else:
        raise Bad("padding is accepted %r characters before the end" % d.neg())
    why = bytes_ok(us, n - 1, inner(S, n, c, None), base)
    if why:
        raise Bad(why)
    return 4 - n


def malformed(o):
    """does every input that takes this path break a rule?"""
    fa = o.facts
    if 0 not in rng(("op", "%", SIZE, ("i", 4)), fa):
        return True
    for x, d in fa.dom.items():
        if x[0] != "elem" or x[1] != IN or rng(sub(x[2], SIZE), fa).max() > -1 and not inside(x[2], o):
            continue
        cs = [b for b in range(-128, 128) if b in d]
        if not any(b in STD or b == PAD for b in cs if b >= 0):
            return True
        at = rng(sub(x[2], SIZE), fa)
        if cs == [PAD]:
            if -1 not in at and -2 not in at:
                return True
            nxt = fa.dom.get(("elem", IN, add(x[2], ("i", 1))))
            last = fa.dom.get(("elem", IN, sub(SIZE, ("i", 1))))
            if at == IntSet.of(-2) and any(y is not None and PAD not in y for y in (nxt, last)):
                return True
    return False


def inside(ix, o):
    """is the index in the last group of four?"""
    for e in o.events:
        if e[0] == "loop" and e[2] == "k" and e[1].n == ("i", 4):
            K = e[1].K()
            base = sub(ix, K)
            if rng(sub(base, SIZE), o.facts).max() <= -1:
                return True
            ks = [t for t in terms_in(base) if t[0] == "k"]
            if len(ks) == 1 and base == scale_(ks[0], 4) and more(ks[0], o.facts):
                return True
    return False


def c30(c):
    c.rule("encode", "the encoder returns, for each group of three bytes, the four characters of the standard alphabet that their "
                     "bits select, in order, and for one or two last bytes two or three characters and padding")
    c.rule("url", "the URL-safe encoder returns the standard form with - and _ for + and /")
    c.rule("decode", "the decoder returns, for each group of four characters, the bytes made of their values' bits; it accepts no "
                     "other length, no other character, and no padding except as the last one or two characters")
    c.rule("reject", "a path that fails has found a wrong length, a character outside the alphabet or misplaced padding")
    encode(c)
    decode(c)


CHECKS = {"C30": c30}
