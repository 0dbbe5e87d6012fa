"""C33: classes whose objects have an identity."""
import os, re, subprocess
import frontend
from chk import *

NS = "prometheus::"
ONE = ("Registry", "Counter", "Gauge", "Histogram", "Summary", "Exposer", "Gateway", "detail::Endpoint", "detail::CurlWrapper")
TYPES = ("Counter", "Gauge", "Histogram", "Info", "Summary")
CLASSES = [NS + n for n in ONE] + [NS + "Family<%s%s>" % (NS, t) for t in TYPES]
# (what, question to the type checker, a program that does it)
WAYS = [
    ("copied", "std::is_constructible<T, const T&>::value", "void f(const T& x) { T y(x); (void)y; }"),
    ("copied from a modifiable object", "std::is_constructible<T, T&>::value", "void f(T& x) { T y(x); (void)y; }"),
    ("moved", "std::is_constructible<T, T&&>::value", "void f(T& x) { T y(std::move(x)); (void)y; }"),
    ("moved from a constant object", "std::is_constructible<T, const T&&>::value", "void f(const T& x) { T y(std::move(x)); (void)y; }"),
    ("assigned", "std::is_assignable<T&, const T&>::value", "void f(T& x, const T& y) { x = y; }"),
    ("assigned from a modifiable object", "std::is_assignable<T&, T&>::value", "void f(T& x, T& y) { x = y; }"),
    ("move assigned", "std::is_assignable<T&, T&&>::value", "void f(T& x, T& y) { x = std::move(y); }"),
    ("move assigned from a constant object", "std::is_assignable<T&, const T&&>::value", "void f(T& x, const T& y) { x = std::move(y); }"),
]


def clang(text, std, flags):
    d = frontend.scratch()
    p = os.path.join(d, "witness.cc")
    open(p, "w").write(text)
    r = subprocess.run(["clang++", "-fsyntax-only", "-ferror-limit=0", "-w", "-std=" + std] + flags + [p], capture_output=True, text=True)
    return r.returncode, r.stderr


def c33(c):
    c.rule("witness", "no program that copies, moves or assigns the object type-checks, in any of the supported language versions")
    files = []
    for k in CLASSES:
        loc = c.P.cls(k)["loc"]
        f = os.path.join(frontend.REPO, loc[0])
        if f not in files:
            files.append(f)
    files.append(os.path.join(frontend.REPO, c.P.cls(NS + "Info")["loc"][0]))
    flags = []
    for _, _, fl in frontend.commands():
        flags += [x for x in fl if x.startswith(("-I", "-D", "-isystem")) and x not in flags]
    head = "#include <type_traits>\n#include <utility>\n" + "".join('#include "%s"\n' % f for f in dict.fromkeys(files))
    stds = ("c++11", "c++17", "c++20") if c.tier != "thorough" else ("c++11", "c++14", "c++17", "c++20", "c++23")
    for std in stds:
        rc, err = clang(head, std, flags)
        if rc:
            if std == "c++11":
                raise AnalysisError("the headers do not type-check:\n" + err[:2000])
            c.note("headers do not type-check as %s" % std)
            continue
        text, at = head, {}
        for k in CLASSES:
            for what, q, prog in WAYS:
                text += "namespace w%d { typedef %s T; static_assert(!%s, \"\"); }\n" % (len(at), k, q)
                at[text.count("\n")] = (k, what, prog)
        rc, err = clang(text, std, flags)
        failed = {int(x) for x in re.findall(r"witness\.cc:(\d+):\d+: error: static assertion failed", err)}
        if rc and not failed:
            raise AnalysisError("the witness program does not type-check:\n" + err[:2000])
        for n, (k, what, prog) in at.items():
            bad = n in failed
            if bad:     # declared, but perhaps not usable
                bad = clang(head + "typedef %s T;\n%s\n" % (k, prog), std, flags)[0] == 0
            loc = c.P.cls(k)["loc"]
            c.req(not bad, "witness", "%s:%s" % (loc[0], loc[1]), lambda: "%s can be %s (%s): `%s` type-checks; %s" % (k, what, std, prog, members(c, k)))
            c.functions.add("special members of " + k)
    c.sample("static_assert(!%s) with T = %s" % (WAYS[0][1], CLASSES[0]))
    c.assumptions.append("clang's type checker")


def members(c, k):
    """declared members that take such an object"""
    out = []
    for f in c.P.fns.values():
        if f.cls == k and f.kind in ("ctor", "method") and len(f.params) == 1 and f.name in ("operator=", k.split("<")[0].split("::")[-1]):
            t = f.params[0]["t"].strip()
            if t.s.replace("const ", "") == k:
                out.append("%s at %s:%s" % (sig(f), f.file, f.line))
    return "; ".join(sorted(out)) or "by a member that the compiler supplies"


CHECKS = {"C33": c33}
