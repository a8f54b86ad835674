#!/usr/bin/env python3
"""Replays counterexamples against the un-instrumented code of the repository.

    python3-vt replay.py replays/C02-0.json       exit 1 when the violation shows
"""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

LIMIT = 120  # seconds per replay
HANG_LIMIT = 40  # for inputs which are small and suspected of never ending


def isolated(check, job):
    """One process per job: hung threads and patches do not leak."""
    cfg = job["cfg"]
    limit = HANG_LIMIT if job.get("hang") else LIMIT
    d = tempfile.mkdtemp(prefix="verif-replay-", dir=cfg.get("tmp") or None)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        try:
            res = check.concrete(cfg, job["params"], d)
        except BaseException:
            res = {"error": traceback.format_exc()[-1500:]}
        with os.fdopen(w, "w") as fo:
            fo.write(json.dumps(res, default=str))
        os._exit(0)
    os.close(w)
    txt, timed_out, end = b"", False, time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        txt += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if timed_out:
        if job.get("hang"):
            return {"outcome": "hang", "violations": ["the code does not come to an end"]}
        return {"error": "replay timed out"}
    try:
        return json.loads(txt.decode("utf-8", "replace"))
    except ValueError:
        return {"error": "replay process died"}


def main():
    with open(sys.argv[-1]) as f:
        data = json.load(f)
    check = importlib.import_module("checks." + data["property"].lower())
    out = os.fdopen(os.dup(1), "w")
    if sys.argv[1] == "--batch":
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        for j in data["jobs"]:
            out.write("@@" + json.dumps(isolated(check, j)) + "\n")
            out.flush()
        os._exit(0)
    res = isolated(check, data)
    print(json.dumps(res, indent=1, default=str))
    sys.stdout.flush()
    os._exit(1 if res.get("violations") else 0)


main()
