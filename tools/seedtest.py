#!/usr/bin/env python3
"""Tries planted bugs (seeded/<id>) in the scratch clone /tmp/wt (made with git clone /repo, configured and built in _build).

usage: seedtest.py [--checks C01,C02] ID...     prints, per bug: builds, tests pass, demo fails, and which checks catch it
Not used by any check.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    args = sys.argv[1:]
    checks = None
    if args[0] == "--checks":
        checks = args[1].split(",")
        args = args[2:]
    sh("git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt reset -q --hard FETCH_HEAD")
    ids = args if args != ["all"] else sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        sh("git -C /tmp/wt checkout -q -- . && ninja -C /tmp/wt/_build")
        base = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
        a = sh("git -C /tmp/wt apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout)
            continue
        b = sh("ninja -C /tmp/wt/_build")
        t = sh("ctest --test-dir /tmp/wt/_build -j8 --timeout 100")
        try:
            demo = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
            drc, dout = demo.returncode, demo.stdout
        except subprocess.TimeoutExpired:
            drc, dout = 99, "timeout"
        print("%s: build %s, tests %s, demo clean %d%s, demo patched %d [%s]" % (
            i, "ok" if b.returncode == 0 else "FAILED\n" + b.stdout[-1500:], "pass" if t.returncode == 0 else "FAIL\n" + t.stdout[-1500:],
            base.returncode, "" if base.returncode == 0 else base.stdout[-800:], drc, dout.strip()[-200:]), flush=True)
        for c in checks or [prop]:
            t0 = time.time()
            r = sh("VP_REPO=/tmp/wt python3 %s/tools/check.py %s" % (V, c), cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            why = [r.stdout.splitlines()[k - 1][:160] for k, l in enumerate(r.stdout.splitlines()) if l.startswith("VIOLATION")]
            print("   %s: %s (exit %d, %.0fs) %s" % (c, "CAUGHT" if r.returncode == 1 and v else "missed", r.returncode, time.time() - t0, why[:1]), flush=True)
        sh("git -C /tmp/wt checkout -q -- .")


main()
