#!/usr/bin/env python3
"""seed.py [-j N] [--no-tests] [--all-checks] <seed id>... : confirms planted bugs of
/verif/seeded in scratch copies of /repo (bind-mounted over /repo in a private mount
namespace) and runs the checks on them.  Not used by any check."""
import argparse, json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--dir", default=os.path.join(V, "seeded"))
a = ap.parse_args()
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(i):
    sd = os.path.join(a.dir, i)
    prop = json.load(open(sd + "/meta.json"))["property"] if os.path.exists(sd + "/meta.json") else None
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.mkdir(d + "/demo")
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch", ".json")):
                shutil.copy(os.path.join(sd, f), d + "/demo")

        def ns(cmd, timeout=900):
            r = subprocess.run(["unshare", "-Urmn", "bash", "-c",
                                "ip link set lo up 2>/dev/null; mount --bind %s/repo /repo && cd /repo && %s" % (d, cmd)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            return r.returncode, r.stdout
        ns("git checkout -q -- .")
        rc, o = ns("bash /opt/vp/build.sh")
        if rc:
            return i, ["clean build failed " + o[-500:]]
        if not a.no_demo:
            rc, o = ns("bash %s/demo/demo.sh" % d)
            out.append("demo clean %s" % ("ok" if rc == 0 else "FAILS rc=%d %s" % (rc, o[-800:])))
        rc, o = ns("git apply %s/patch.diff && bash /opt/vp/build.sh" % sd)
        if rc:
            return i, out + ["patched build FAILED " + o[-1500:]]
        if not a.no_tests:
            rc, o = ns("bash /opt/vp/test.sh %s/t.json" % d)
            t = json.load(open(d + "/t.json"))
            miss = BASE - set(t["passed"])
            out.append("tests %s" % ("ok (%d)" % len(BASE) if not miss else "FAIL %s" % sorted(miss)[:5]))
        if not a.no_demo:
            rc, o = ns("bash %s/demo/demo.sh" % d)
            out.append("demo patched %s" % ("fails (good) rc=%d" % rc if rc else "PASSES?"))
        ids = "all" if a.all_checks or not prop else prop
        os.makedirs(d + "/v")
        subprocess.run("cp -a %s/lib %s/checks %s/check.py %s/tool %s/build %s/known-findings.txt %s/v/" % ((V,) * 6 + (d,)), shell=True, check=True)
        rc, o = ns("cd %s/v && python3 check.py %s" % (d, ids))
        out.append("check rc=%d" % rc)
        out += ["   " + l[:260] for l in o.splitlines() if l.startswith(("VIOL", "Trace")) or l[:1] == "C" and l[1:3].isdigit() and " ok: " not in l][:12]
    finally:
        shutil.rmtree(d)
    return i, out


with ThreadPoolExecutor(a.j) as ex:
    for i, out in ex.map(one, a.ids):
        print("==", i)
        for l in out:
            print("  ", l, flush=True)
