#!/usr/bin/env python3
"""Try the planted changes: python3 tools/seedtest.py [--tests] [--nocheck] [ID...]

Each is applied to a scratch copy of /repo; its demonstration has to pass on
/repo and fail on the copy, and (--tests) the stable tests have to pass there.
Then the check of its property is run against the copy."""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def own_lines(repo, patch):
    """Removed lines which are not of the original repository."""
    base = json.load(open("/opt/vp/BASELINE.json")).get("commit") or BASE
    bad, f, n = [], None, 0
    for l in open(patch):
        l = l.rstrip("\n")
        if l.startswith("--- "):
            f = l[6:]
            old = set(subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout.split("\n"))
        elif l.startswith("-") and l[1:] not in old:
            bad.append(l[1:])
    return bad


BASE = "976eaae"


def one(sid, tests, check):
    src = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(src + "/meta.json"))
    top = "/tmp/sd-" + sid
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    repo = top + "/repo"
    out = [sid, meta["property"]]
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        r = subprocess.run(["git", "-C", repo, "apply", src + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return out + ["DOES NOT APPLY " + r.stderr.strip()]
        mine = own_lines(repo, src + "/patch.diff")
        if mine:
            out.append("CHANGES LINES OF OUR OWN COMMITS: %s" % mine)
        demo = top + "/demo"
        shutil.copytree(src, demo)
        for where, want in (("/repo", 0), (repo, 1)):
            r = subprocess.run(["bash", demo + "/demo.sh"], cwd=where, capture_output=True, text=True, timeout=300)
            if (r.returncode != 0) != bool(want):
                out.append("DEMO %s on %s: %s" % (r.returncode, where, (r.stdout + r.stderr)[-300:]))
            else:
                out.append("demo ok")
        if tests:
            s = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("/opt/vp/work", top + "/work")
            open(top + "/test.sh", "w").write(s)
            subprocess.run(["bash", top + "/test.sh", top + "/out.json"], capture_output=True, timeout=900)
            res = json.load(open(top + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            txt = json.dumps(res)
            passed = res.get("passed", [])
            bad = [t for t in stable if t not in passed]
            out.append("tests ok" if not bad else "TESTS FAIL %s" % bad)
        if check:
            for p in [meta["property"]] + meta.get("also", []):
                t = time.time()
                r = subprocess.run(
                    ["python3-vt", "run.py", p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SCRATCH="1")
                )
                o = r.stdout + r.stderr
                v = "VIOLATION property=" + p in o
                out.append("%s: %s rc=%d %.0fs" % (p, "CAUGHT" if v and r.returncode == 1 else "MISSED", r.returncode, time.time() - t))
                if not v or r.returncode != 1:
                    out.append(o[-600:])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return out


def main():
    args = sys.argv[1:]
    tests, check = "--tests" in args, "--nocheck" not in args
    jobs = 4
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    with concurrent.futures.ThreadPoolExecutor(jobs if tests else 2) as ex:
        for r in ex.map(lambda s: one(s, tests, check), ids):
            print(" | ".join(r), flush=True)


main()
