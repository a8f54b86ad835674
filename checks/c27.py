"""C27: closing an image source ends everything it started."""

import gc
import os
import subprocess
import threading
import time

from symx import core, real, values, world as W
from symx.values import And, Or, Not
from .translib import SymT, RealT, Resp, SeekResp, Tools, TOOLS, position, stages

BOUNDS = {
    "quick": "plain, compressed (gz, tar.gz, zip), http, ssh and compressed remote sources; closing at once, after one or two reads or "
    "forward seeks of any length up to 3 MiB, at the end of the data, after a failure of the peer or of the tool, and after an attempt to "
    "open which failed; image size symbolic up to 16 MiB, packed size up to 3 MiB; a decompressor which takes its input only as fast as its output is taken; "
    "processes which have or have not ended by then; eager and lazy helper thread",
    "thorough": "as quick with every suffix, every pair of operations and packed sizes up to 6 MiB",
}
OUTSIDE = "a remote host which stops answering while its data are awaited; the standard input"
ASSUMPTIONS = ["a process ends when its input has ended and its output was taken, when it writes to a closed pipe, or when it is killed"]
MIB = 1 << 20
PIPE = 1 << 18  # what may be on the way in pipes and buffers
BUDGET = {"quick": 200, "thorough": 800}


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("max_size", 16 * MIB)
        k.setdefault("max_packed", 3 * MIB)
        k.setdefault("min_size", 1)
        k.setdefault("tools", sorted(TOOLS))
        out.append(dict(k, name=name))

    kinds = ["plain", "packed", "http", "http-noseek", "http-packed", "ssh", "ssh-packed"]
    for kind in kinds:
        for ops in ("", "r", "a", "s", "rr", "rs"):
            add("%s-%s" % (kind, ops or "open"), kind=kind, ops=ops)
    for kind in ("http-packed", "ssh-packed"):
        for ops in ("", "r", "rr"):
            add("%s-%s-lazy" % (kind, ops or "open"), kind=kind, ops=ops, policy="lazy")
    for suffix in (".tar.gz", ".zip", ".zst"):
        for kind in ("packed", "http-packed"):
            add("%s%s-r" % (kind, suffix), kind=kind, ops="r", suffix=suffix)
    for kind, fails in (("packed", "tool"), ("http", "reset"), ("http-packed", "tool"), ("http-packed", "reset"), ("ssh", "ssh"), ("ssh-packed", "ssh"), ("ssh-packed", "tool")):
        for ops in ("", "r", "a"):
            add("%s-fails-%s-%s" % (kind, fails, ops or "open"), kind=kind, ops=ops, fails=fails)
    for kind in ("packed", "http-packed", "ssh-packed", "ssh"):
        add("%s-missing" % kind, kind=kind, ops="r", free=["gzip", "pigz", "ssh"], refused=True)
    for what in ("true", "test"):
        add("ssh-no-%s" % what, kind="ssh", ops="r", refused=True, ssh_fails=what)
    if tier == "thorough":
        for kind in ("packed", "http-packed", "ssh-packed"):
            for suffix in (".gz", ".bz2", ".xz", ".lzo", ".lz4", ".tar.bz2", ".tar.xz", ".tar.lzo", ".tar.lz4", ".tar.zst"):
                for ops in ("r", "a"):
                    add("t-%s%s-%s" % (kind, suffix, ops), kind=kind, ops=ops, suffix=suffix)
        for kind in kinds:
            for ops in ("rrr", "rsr", "sr", "ss", "ra", "sa"):
                add("t-%s-%s" % (kind, ops), kind=kind, ops=ops, max_packed=6 * MIB)
    return out


def scenario(env):
    cfg = env.cfg
    kind, f = env.call(env.open)
    env.kind = kind
    if kind != "ok":
        env.check(bool(cfg.get("refused")), "the image cannot be opened: %s" % kind)
        env.forget()
        env.nothing_left("after opening failed")
        return
    pos = 0
    for op in cfg["ops"]:
        if op == "r":
            k, d = env.call(f.read, env.int("n", 0, 3 * MIB))
            if k == "ok":
                pos = pos + env.length(d)
        elif op == "a":
            k, d = env.call(f.read)
            if k == "ok":
                pos = pos + env.length(d)
        else:
            by = env.int("by", 0, 3 * MIB)
            k, _ = env.call(f.seek, by, 1)
        env.check(k != "hang", "reading does not come to an end")
        if k != "ok":
            break
    env.forget()
    k, _ = env.call(f.close)
    env.check(k != "hang", "closing does not come to an end")
    env.check(k == "ok", "closing fails: %s" % k)
    env.nothing_left("after closing")
    k, _ = env.call(f.close)
    env.check(k == "ok", "closing again fails: %s" % k)
    k, d = env.call(f.read, 1)
    env.check(k not in ("ok", "hang"), "reading after closing is not an error (%s)" % k)


class Live(W.Proc):
    """A process, as far as its ending goes."""

    feed = None  # the writing end of its input, when that is a pipe
    dead = False
    taken = 0  # bytes of its input

    def __init__(self, env, rc=0, **k):
        super().__init__(rc, **k)
        self.env = env
        env.procs.append(self)
        if self.stdout is not None:
            self.stdout.proc = self

    def output_taken(self):
        if self.stdout is None or self.stdout.closed:
            return True
        return self.env.decide(self.stdout.left() == 0)

    def can_end(self):
        if self.killed or self.dead:
            return True
        if self.stdout is not None and self.stdout.closed:
            return True
        return self.output_taken() and (self.feed is None or self.feed.closed)

    def gone(self):
        """It takes nothing from its input any more."""
        return self.killed or self.dead or self.stdout is not None and self.stdout.closed

    def room(self, n):
        """Would n more bytes of input be taken (as fast as the output is)?"""
        if self.gone():
            return True
        return self.env.decide(Or(self.taken + n <= self.stdout.pos + PIPE, self.stdout.left() <= PIPE))

    def wait(self, timeout=None):
        if self.returncode is not None:
            return self.returncode
        sched = self.env.w.sched
        if not self.can_end():
            if not sched.block(self.can_end, "waiting for a process", timeout):
                raise subprocess.TimeoutExpired("process", timeout)
        self.dead = True
        if self.feed is not None and not self.killed and self._rc == 0 and not bool(self.feed.node.size == self.env.P):
            self._rc = 1
        if self.killed:
            self._rc = -9
        return super().wait()

    def poll(self):
        if self.returncode is None and self.can_end():
            if self.env.c.flag("ended"):
                return self.wait()
        return self.returncode


class Out(W.PipeReader):
    """The output of a process: taking some of it makes it take more input."""

    proc = None

    def left(self):
        return values.imax(0, self.node.size - self.pos)

    def _take(self, n):
        self._chk()
        r = super()._take(n)
        self.w.sched.point()
        return r


class Feed(W.SinkFile):
    """The input of a process."""

    proc = None

    def write(self, b):
        p = self.proc
        n = values.sx_len(b)
        self.w.sched.block(lambda: p.room(n), "writing to a process")
        if p.gone():
            raise BrokenPipeError(32, "Broken pipe")
        p.taken = p.taken + n
        return super().write(b)

    def close(self):
        had = self.pend is not None and not self.closed
        super().close()
        if had and self.proc.gone():
            raise BrokenPipeError(32, "Broken pipe")


class Sym(SymT):
    def __init__(self, c, cfg, tools):
        self.procs, self.resps = [], []
        super().__init__(c, cfg, tools)
        self.w.sched.policy = cfg.get("policy", "eager")

    def urlopen(self, url, opener, timeout):
        self.urls.append(url)
        r = (Resp if self.cfg["kind"] == "http-noseek" else SeekResp)(W.PipeReader(self.w, self.part(self.file, self.arrives), "<response>"))
        if self.fails == "reset":
            r.broken = ConnectionResetError(104, "Connection reset by peer")
        return r

    def popen(self, info):
        args = info["args"]
        args = values.force(args) if not isinstance(args, (list, tuple)) else [values.force(a) for a in args]
        self.cmds.append((args, info["shell"]))
        w = self.w
        toks = stages(args)[0]
        if toks and os.path.basename(toks[0]) in ("ssh", "sshpass"):
            if toks[-1].startswith("cat "):
                return Live(self, self.rc if self.fails == "ssh" else 0, stdout=Out(w, self.part(self.file, self.arrives), "<ssh>"))
            what = "test" if toks[-1].startswith("test") else "true"
            return Live(self, 1 if self.cfg.get("ssh_fails") == what else 0)
        si = info["stdin"]
        good = self.suits(args)
        f = None
        if si != -1:
            f = w.fds.get(si if isinstance(si, int) else si.fileno())
            good = good and f is not None and f.node is self.file and position(f) == 0
        p = Live(self, self.rc if self.fails == "tool" else 0 if good else 1, stdout=Out(w, self.part(self.img, self.comes) if good else W.DataNode("<nothing>", 0), "<pipe>"))
        p.stdout.proc = p
        if si == -1:
            f = Feed(w, W.SinkNode("<stdin>", 0), "<stdin>", "wb")
            f.proc = p
            p.stdin = p.feed = f
        return p

    def forget(self):
        if self.exc is not None:
            self.exc.__traceback__ = None
            self.exc = None
        gc.collect()

    def nothing_left(self, when):
        w = self.w
        for f in list(w.fds.values()):
            if isinstance(f, W.OpenFile) and not f.closed:
                self.check(False, "%s is still open %s" % (str(f.name).strip("<>"), when))
        for p in self.procs:
            self.check(p.returncode is not None, "a process is left behind %s" % when)
        left = [t for t in w.sched.tasks if t is not w.sched.main and not t.done]
        self.check(not left, "a thread is left behind %s" % when)


TOOL = """#!/usr/bin/python3 -S
import sys, os, json
d = %(dir)r
args = [os.path.basename(sys.argv[0])] + sys.argv[1:]
meta = json.load(open(d + "/meta"))
rc = 0
src, n = d + "/image", meta["comes"]
pump = True
if args[0] in ("ssh", "sshpass"):
    pump = False
    cmd = args[-1]
    k = "cat" if cmd.startswith("cat ") else "test" if cmd.startswith("test") else "true"
    if meta["ssh_fails"] == k:
        sys.exit(1)
    if k != "cat":
        sys.exit(0)
    src, n = d + "/source", meta["arrives"]
    rc = meta["rc"] if meta["fails"] == "ssh" else 0
elif meta["fails"] == "tool":
    rc = meta["rc"]
with open(src, "rb") as f:
    while n > 0:
        # (the input is taken as the output is)
        if pump:
            os.read(0, 65536)
        b = f.read(min(n, 65536))
        if not b:
            break
        os.write(1, b)
        n -= len(b)
while pump and os.read(0, 65536):
    pass
if rc < 0:
    os.kill(os.getpid(), -rc)
sys.exit(rc)
"""


class Real(RealT):
    def __init__(self, cfg, p, d):
        super().__init__(cfg, p, d)
        import json

        with open(d + "/meta") as f:
            m = json.load(f)
        m["ssh_fails"] = cfg.get("ssh_fails")
        with open(d + "/meta", "w") as f:
            json.dump(m, f)
        for t in self.names:
            with open(self.bin + "/" + t, "w") as f:
                f.write(TOOL % dict(dir=d))
        self.responses = []

    def response(self):
        r = super().response()
        self.responses.append(r)
        return r

    def fds(self):
        out = {}
        for n in os.listdir("/proc/self/fd"):
            try:
                out[int(n)] = os.readlink("/proc/self/fd/" + n)
            except OSError:
                pass
        return out

    def open(self):
        real.mod("TransRead")
        self.before = self.fds()
        self.threads = set(threading.enumerate())
        return super().open()

    def forget(self):
        if self.exc is not None:
            self.exc.__traceback__ = None
            self.exc = None
        gc.collect()

    def nothing_left(self, when):
        for t in threading.enumerate():
            if t not in self.threads:
                self.v.append("a thread is left behind %s" % when)
        new = {n: t for n, t in self.fds().items() if self.before.get(n) != t}
        for n, t in new.items():
            self.v.append("%s is still open %s" % (t, when))
        try:
            # (those not collected, ended or not)
            os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
            self.v.append("a process is left behind %s" % when)
        except ChildProcessError:
            pass

    def call(self, f, *a, **k):
        k2, r = super().call(f, *a, **k)
        return k2, r


def harness(c, cfg):
    env = Sym(c, cfg, Tools(c, free=cfg.get("free", ())))
    scenario(env)
    c.extra["outcome"] = env.kind


def concrete(cfg, p, d):
    env = Real(cfg, p, d)
    with env:
        scenario(env)
    return {"outcome": env.kind, "violations": env.v}
