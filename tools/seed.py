#!/usr/bin/env python3
"""Confirm a seeded change in a scratch copy: applies, builds, stable tests pass, demo 0 before / nonzero after, and which checks see it.

usage: seed.py ID [ID ...]   (no check reads the result)
"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in sys.argv[1:]:
        d = os.path.join(ROOT, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        clean = sh("git -C /repo status --porcelain").stdout.strip()
        if clean:
            sys.exit("repo not clean")
        r0 = sh(f"bash {d}/demo.sh", "/repo")
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stderr)
            continue
        try:
            b = sh("bash /opt/vp/build.sh")
            r1 = sh(f"bash {d}/demo.sh", "/repo")
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
            miss = stable - set(o["passed"])
            c = sh(f"python3 -m speyver {meta['property']}", ROOT)
            caught = c.returncode == 1
        finally:
            sh("git -C /repo checkout -- .")
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss and b.returncode == 0
        print(f"{i}: {'OK' if ok else 'BAD'} demo {r0.returncode}->{r1.returncode} build {b.returncode} missing {sorted(miss)[:3]} check {meta['property']}: {'CAUGHT' if caught else 'missed rc=%d' % c.returncode}")
        if not ok:
            print("   ", r0.stdout[-300:], r0.stderr[-600:], "|| patched:", r1.stdout[-200:], r1.stderr[-300:])


main()
