#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and runs the checks on it (development aid, not a check).

   seed.py ID [--props C01,C02 | --all]     build, tests, demo on both trees, then the checks
   seed.py ID --no-tests
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    sid = sys.argv[1]
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = {"id": sid, "property": meta["property"]}
    try:
        t = w + "/repo"
        sh(f"git clone -q /repo {t}")
        drv = open("/opt/vp/driver.py").read().replace('REPO = "/repo"', f'REPO = "{t}"')
        open(w + "/driver.py", "w").write(drv)
        r = sh(f"bash {d}/demo.sh", cwd=t); out["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh(f"git -C {t} apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
        r = sh(f"bash {d}/demo.sh", cwd=t); out["demo_patched"] = r.returncode
        if "--no-tests" not in sys.argv:
            r = sh(f"python3 {w}/driver.py build"); out["build"] = r.returncode
            if r.returncode: print(r.stdout[-1500:])
            sh(f"python3 {w}/driver.py test {w}/res")
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = open(w + "/res").read().splitlines() if os.path.exists(w + "/res") else []
            ok = {l[5:] for l in res if l.startswith("PASS ")}
            bad = sorted(stable - ok)
            out["tests_failed"] = len(bad)
            if bad: print("FAILED TESTS", bad[:8])
        props = [meta["property"]]
        for i, a in enumerate(sys.argv):
            if a == "--props": props = sys.argv[i + 1].split(",") if sys.argv[i + 1] else []
            if a == "--all": props = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(f"{V}/props/c{i:02d}.py")]
        out["checks"] = {}
        for p in props:
            r = sh(f"python3 {V}/check.py {p}", env=dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=w))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out["checks"][p] = (r.returncode, len(v))
            if p == meta["property"] and not v: print(r.stdout[-1500:])
    finally:
        shutil.rmtree(w)
    print(json.dumps(out))
main()
