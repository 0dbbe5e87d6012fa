"""C35: collecting and serializing change nothing."""
import quantiles as Q
from chk import *

NS = "prometheus::"
METRICS = ("Counter", "Gauge", "Histogram", "Info", "Summary")


def c35(c):
    c.rule("unchanged", "no path of a collecting or serializing function writes to the object, to an argument other than the output "
                        "stream, to anything reached from them, or to a variable that outlives the call")
    c.rule("calls", "of the quantile window only the reading operation is used, of the collectables only Collect")
    c.rule("catchup", "reading a quantile expires buckets exactly while an interval has passed since the last rotation")
    c.rule("step", "expiry resets exactly the current bucket, advances the current index by one and the time by one interval")
    c.rule("read", "a quantile is read from the current bucket; apart from expiry the window is unchanged")
    c.rule("flush", "reading a quantile moves exactly the pending observations into the sample, each once with weight one")
    c.rule("merge", "every other change of the sample keeps its total weight")
    c.rule("empty", "a quantile of no observations is NaN; otherwise it is the value of a sample item")
    c.rule("store", "the buffer is accessed inside its bounds")
    w = Q.Win(c)
    wops = {f.qn: f for f in c.P.fns.values() if f.cls == Q.TW and f.kind == "method" and f.acc == "public" and f.body is not None}
    fs = []
    for n in METRICS + ("Family", "Registry"):
        fs += c.fns(NS + n + "::Collect")
    fs += c.fns(NS + "detail::CollectMetrics") + c.fns(NS + "TextSerializer::Serialize") + c.fns(NS + "Serializer::Serialize")
    for f in fs:
        r = c.run(f, opaque=tuple(sorted(wops)), tag="readonly")
        out = {("p", ("sym", "arg%d" % i)) for i, p in enumerate(f.params) if p["t"].isref() and not p["t"].strip().const and
               "basic_ostream" in p["t"].strip().s}
        for a in r.accesses:
            root = a.loc[0]
            if a.rw == "r" or root[0] not in "pgh" or root[0] == "h" and not a.is_async:
                c.req(True, "unchanged", a.site)
                continue
            tls = root[0] == "g" and (c.P.globals.get(root[1]) or {}).get("tls")
            c.req(root in out and any(s[0] == "f" and s[1][0] == "@" for s in a.loc[1]) or tls, "unchanged", a.site,
                  lambda: "%s writes to %s, in %s" % (sig(f), showloc(a.loc), " < ".join(reversed(a.stack))))
        used = 0
        for o in r.outs:
            for e, l in walk(o.events):
                if e[0] == "opaque":
                    g = wops.get(e[1])
                    if g is None or e[1] != Q.TW + "::get" and g.const:
                        raise AnalysisError("%s calls %s, which is not covered" % (f.qn, e[1]))
                    used += 1
                    c.req(e[1] == Q.TW + "::get", "calls", evsite(e), lambda: "%s calls %s" % (f.qn, e[1]))
                elif e[0] == "vcall":
                    c.req(e[1] == NS + "Collectable::Collect", "calls", evsite(e), lambda: "%s calls %s" % (f.qn, e[1]))
        c.sample("%s: %d accesses, %d reads of a window" % (sig(f), len(r.accesses), used))
    # what reading the window may change
    Q.window_ops(c, w, ("get",))
    k = Q.Ckms(c)
    if not k.roles(c):
        return
    val, ints = Q.items(c)
    inv, _ = Q.fill_bound(c, k, c.fn(Q.CK + "::insert", 1))
    if inv is None:
        raise AnalysisError("the bound of the fill counter is not known")
    Q.sample_get(c, k, inv, val, ints)
    c.assumptions += ["collectables of other libraries", "the clock is monotonic"]


CHECKS = {"C35": c35}
