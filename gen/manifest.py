#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
CH = {}
for m in sorted(os.listdir(V + "/checks")):
    if m.endswith(".py"):
        CH.update(importlib.import_module(m[:-3]).CHECKS)
AI = "abstract interpretation of the clang AST"
TECH = {
    "C01": AI + ": lockset analysis over all public operations",
    "C02": AI + ": effect analysis of atomic read-modify-writes",
    "C03": AI + ": effect analysis with sign facts",
    "C04": AI + ": lockset and critical-section analysis",
    "C05": AI + ": loop summaries with float orderings that know NaN",
    "C06": AI + ": loop summaries of the snapshot",
    "C07": AI + ": throw-path and effect analysis",
    "C08": AI + ": effect analysis and snapshot provenance",
    "C09": AI + ": rotation loop transition rules",
    "C10": AI + ": inductive buffer and weight invariants, index obligations",
    "C11": AI + ": symbolic scan loops, per-character classification tables",
    "C12": AI + ": map-effect analysis with label-key provenance, exceptional paths",
    "C13": AI + ": map-effect analysis and provenance of returned references",
    "C14": AI + ": loop summaries and provenance of the collected families",
    "C15": AI + ": loop summaries and erase effects of the registry containers",
    "C16": AI + ": case analysis of the insert behaviours against facts of every path",
    "C17": AI + ": grammar of the emitted byte sequence, per-character escape tables",
    "C18": AI + ": provenance of every emitted value",
    "C19": AI + ": typestate of the stream at each number insertion",
    "C20": AI + ": grammar and provenance of the HTTP response",
    "C21": AI + ": typestate and buffer bounds of the zlib calls",
    "C22": AI + ": dominance of the credential check over acceptance",
    "C23": AI + ": event-order typestate of handler registration and life time",
    "C24": AI + ": weak-reference loop summaries and effects",
    "C25": AI + ": lock-order graph and lock pairing on normal and exceptional paths",
    "C26": AI + ": relation of returned status and request results on every path",
    "C27": AI + ": provenance of URL, method and body of each request",
    "C28": AI + ": typestate of the shared client handle",
    "C29": AI + ": provenance of URL segments with per-character facts",
    "C30": AI + ": bit provenance of encoder and decoder output, per-character tables",
    "C31": AI + ": resource pairing typestate on normal and exceptional paths",
    "C32": AI + ": provenance of configured values into constructors",
    "C33": "compile-fail witnesses: static assertions on every special member, per language version",
    "C34": AI + ": effect analysis of the handler's own metrics",
    "C35": AI + ": write-effect analysis of the collecting and serializing functions",
    "C36": AI + ": case analysis of endpoint lookup, provenance of forwarded arguments",
    "C37": AI + ": purity and fold completeness of the hash",
    "C38": AI + ": provenance of client options through the set-up object",
    "C39": AI + ": index bounds by inductive loop and class invariants, null and lifetime typestate",
}
NA = {
    "C50": "the rank error bound of the sampling algorithm quantifies over all value histories and float rounding; no "
           "sound static argument in reach bounds it (C10 decides the structural part: no observation lost or duplicated)",
    "C51": "depends on the number formatting of the standard library and the host libc, which is not part of the analysed "
           "source (C19 decides the precision, notation and locale in force when numbers are written)",
    "C52": "quantifies over real time and scheduling, which have no static bound (C09 decides the rotation steps)",
    "C53": "depends on the life time of objects in user code and on the futures returned by asynchronous pushes, which no "
           "analysis of this library's source can bound",
}
NOTE = ("Every path of the listed functions (callees inlined, loops summarised at a fixpoint) satisfies the rules listed "
        "in the evidence file. Trusted: clang's AST, the exporter, the abstract interpreter and its models of the "
        "standard library, zlib, libcurl and civetweb calls; see DESIGN.md for the assumptions per property.")
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in CH:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "python3 check.py --thorough " + i,
                       "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check for it exists yet")})
json.dump({"version": 1, "setup_cmd": "make -s -C tool", "checks": checks, "not_applicable": na,
           "notes": "One driver (check.py) with one static analysis engine (lib/); rules per property in checks/. "
                    "No hooks are needed in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
