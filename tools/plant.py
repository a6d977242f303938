#!/usr/bin/env python3
"""plant.py [ID...]: (re)generate seeded/<ID> from tools/bugs.py and confirm each one: applies, builds, passes the stable tests,
demo passes on the clean tree and fails with the change; then run the property's quick check on it.  /repo is restored afterwards."""
import json, os, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    t = tempfile.mktemp(suffix=".json")
    sh(f"bash /opt/vp/test.sh {t}")
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(t))
    os.unlink(t)
    def S(d):
        for k in ("passed", "pass", "stable", "tests"):
            if k in d and isinstance(d[k], list):
                return set(d[k])
    return S(b) - S(o)


def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    fast = "-f" in sys.argv      # only the check
    assert sh("git -C /repo status --porcelain -uno").stdout.strip() == "", "repo dirty"
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        res = []
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                n = b.get("count", 1)
                assert s.count(old) == n, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            if not fast:
                r = sh("bash /opt/vp/build.sh")
                if r.returncode:
                    res.append("BUILD-FAILS")
                m = stable()
                if m:
                    res.append(f"TESTS-FAIL {len(m)}")
                r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300)
                if r.returncode == 0:
                    res.append("DEMO-PASSES-WITH-BUG")
            for prop in [b["prop"]] + b.get("also", []):
                r = sh(f"python3 bin/check {prop}", cwd=V)
                cl = sorted({x.split()[0] for x in r.stdout.splitlines() if x.startswith("  clause=")})
                res.append(f"{prop}:{'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d' % r.returncode} {','.join(cl)}"
                           + (r.stdout[-600:] if r.returncode == 2 else ""))
        finally:
            sh("git -C /repo checkout -- .")
        if not fast:
            r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300)
            if r.returncode:
                res.append("DEMO-FAILS-CLEAN " + r.stdout[-500:])
        print(b["id"], "; ".join(res), flush=True)


main()
