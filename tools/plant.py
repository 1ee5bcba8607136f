#!/usr/bin/env python3
"""Plants one bug: plant.py SPEC.py, where SPEC.py defines id, prop, edits, needs, breaks, demo.

Confirms in /repo (applied, then undone) that it builds, keeps the stable tests and is shown by the demo,
then writes /verif/seeded/<id>/ and, with --check, runs the property's check against it."""
import json
import os
import subprocess
import sys

REPO, VERIF = "/repo", "/verif"
PRE = '''import os, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import copy, struct, logging
import numpy as np
logging.disable(logging.CRITICAL)
'''
SH = '''#!/bin/bash
# exit 0 when the property holds on the demonstration, nonzero otherwise (cwd: /repo)
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(f"git -C {REPO} checkout -- .")


def main(fn, check):
    s = {}
    exec(open(fn).read(), s)
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert sh(f"git -C {REPO} status --porcelain").stdout.strip() == "", "repo not clean"
    base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.split()[0]
    with open(d + "/demo.py", "w") as f:
        f.write(PRE + s["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        f.write("\n")
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r.returncode != 0:
        print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:])
        return 1
    try:
        for file, old, new in s["edits"]:
            p = os.path.join(REPO, "src/pymech", file)
            t = open(p).read()
            assert t.count(old) == 1, (file, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                ok = sh(f"git -C {REPO} grep -F -q -e {json.dumps(line[1:].strip())} {base} -- src").returncode == 0
                if not ok:
                    print(s["id"], "note: line not in the original:", line)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(s["id"], "BUILD FAILS", b.stdout[-500:])
            return 1
        sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out = json.dumps(json.load(open("/tmp/plant_tests.json")))
        res = json.load(open("/tmp/plant_tests.json"))
        passed = set(res.get("passed", []))
        if not stable <= passed:
            print(s["id"], "STABLE TESTS BROKEN", stable - passed, out[:300])
            return 1
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r.returncode == 0:
            print(s["id"], "DEMO DOES NOT SHOW THE BUG")
            return 1
        print(s["id"], "ok; demo says:", r.stdout.strip().splitlines()[-1:])
        if check:
            e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run([VERIF + "/check.py", s["prop"]], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x or x.startswith("rejected")]
            print("   ", "CAUGHT" if r.returncode == 1 and any(f"VIOLATION property={s['prop']}" in x for x in v) else f"MISSED rc={r.returncode}", v[:1])
    finally:
        clean()
        sh("bash /opt/vp/build.sh")
    return 0


if __name__ == "__main__":
    rc = 0
    for fn in [a for a in sys.argv[1:] if a != "--check"]:
        try:
            rc |= main(fn, "--check" in sys.argv)
        except AssertionError as e:
            print(fn, "EDIT FAILED", e)
            clean()
            rc = 1
    sys.exit(rc)
