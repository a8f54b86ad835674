"""C11: the kernel tunables of the block device are restored afterwards."""

import builtins
import errno
import io
import logging
import os

from symx import lib, real, world as W
from symx.values import And, Or, Not
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "whole disk, partition, and devices with a missing or unreadable tunable; 8 scheduler files and 4 write-back "
    "limits; one failing access to the tunables (EACCES, EIO or an interrupt, at a symbolic position among all accesses) "
    "combined with one failing read, write, synchronisation or an interrupt at a symbolic position of the copy, or a "
    "checksum mismatch; image size symbolic up to 4 TiB",
    "thorough": "as quick with two ranges and more batches",
}
OUTSIDE = "an interrupt between a successful write to a tunable and the next statement; other writers to the tunables"
ASSUMPTIONS = ["the kernel accepts exactly the schedulers it lists and limits of 0..100"]

SCHED = ["[mq-deadline] none\n", "mq-deadline [none]\n", "none\n", "noop deadline [cfq]\n", "mq-deadline kyber [bfq] none\n",
         "none [Bfq_v2.1] kyber\n", "[none]\n", "[mq-deadline]\n"]
RATIO = ["100\n", "1\n", "0\n", "37\n"]
BASE = "/sys/dev/block/250:7/"


class Tunables:
    """The two sysfs files, as the kernel behaves."""

    def __init__(self, sched, ratio):
        self.options = [x.strip("[]") for x in sched.split()]
        cur = [x.strip("[]") for x in sched.split() if x.startswith("[")]
        self.sched = cur[0] if cur else self.options[0]
        self.plain = not cur
        self.ratio = ratio.strip()
        self.start = self.state()
        self.restore_failed = False
        # Why a tunable could not be read or changed: name -> reason
        self.refused = {}

    def state(self):
        return {"scheduler": self.sched, "max_ratio": int(self.ratio)}

    def changed(self, name):
        return self.state()[name] != self.start[name]

    def read(self, name):
        if name == "max_ratio":
            return self.ratio + "\n"
        if self.plain:
            return self.sched + "\n"
        return " ".join("[%s]" % x if x == self.sched else x for x in self.options) + "\n"

    def write(self, name, v):
        v = v.strip()
        if name == "max_ratio":
            if not v.isdigit() or int(v) > 100:
                self.refused[name] = "Invalid argument"
                raise OSError(errno.EINVAL, "Invalid argument")
            self.ratio = v
        else:
            if v not in self.options:
                self.refused[name] = "Invalid argument"
                raise OSError(errno.EINVAL, "Invalid argument")
            self.sched = v


LAYOUTS = {
    "disk": {"queue/scheduler": "scheduler", "bdi/max_ratio": "max_ratio"},
    "partition": {"../queue/scheduler": "scheduler", "../bdi/max_ratio": "max_ratio"},
    "no-bdi": {"queue/scheduler": "scheduler"},
    "no-scheduler": {"bdi/max_ratio": "max_ratio"},
    "nothing": {},
}
DIRS = {
    "disk": ["queue", "bdi"],
    "partition": ["../queue", "../bdi"],
    "no-bdi": ["queue"],
    "no-scheduler": ["queue", "bdi"],
    "nothing": [],
}
SYSERR = ["EACCES", "EIO", "interrupt"]


def fail(kind, path):
    if kind == "interrupt":
        raise KeyboardInterrupt()
    e = getattr(errno, kind)
    raise OSError(e, os.strerror(e), path)


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("ranges", 1)
        k.setdefault("max_range_blocks", 300)
        k.setdefault("min_size", 8192)
        k.update(dest="bdev", dest_old=False)
        out.append(dict(k, name=name))

    for lay in LAYOUTS:
        few = lay not in ("disk", "partition")
        add("sys-" + lay, layout=lay, sysfault=True, max_range_blocks=2, tail=True, few=lay == "nothing", weight=4)
        add("ok-" + lay, layout=lay, few=lay == "nothing")
        for f in ("write", "read", "fsync", "interrupt"):
            add("%s-%s" % (f, lay), layout=lay, copyfault=f, few=few, weight=2)
    add("mismatch-disk", layout="disk", cs=True, content="free", max_range_blocks=2, tail=True)
    add("mismatch-partition", layout="partition", cs=True, content="free", few=True)
    add("both-write", layout="disk", sysfault=True, copyfault="write", few=True, weight=3)
    add("both-interrupt", layout="partition", sysfault=True, copyfault="interrupt", few=True, weight=3)
    add("known", layout="disk", nobmap="known", max_size=3 << 20, copyfault="write", few=True)
    if tier == "thorough":
        for lay in ("disk", "partition"):
            for f in ("write", "read", "fsync", "interrupt"):
                add("t-%s-%s" % (f, lay), layout=lay, copyfault=f, sysfault=True, ranges=2, weight=5)
    return out


def pick(choice, cfg):
    sched = choice("sched", SCHED[:1] if cfg.get("few") else SCHED)
    ratio = choice("ratio", RATIO[:1] if cfg.get("few") else RATIO)
    return Tunables(sched, ratio)


class Faults:
    """One failing access to the tunables, and one of the copy."""

    def __init__(self, cfg, sys_at, sys_kind, copy_at):
        self.cfg, self.sys_at, self.sys_kind, self.copy_at = cfg, sys_at, sys_kind, copy_at
        self.nsys = self.ncopy = 0
        self.sys_hit = self.copy_hit = False

    def sysfs(self, tun, name, writing, path):
        if self.sys_at is None or self.nsys > 12:
            return
        n = self.nsys
        self.nsys += 1
        if self.sys_at == n:
            self.sys_hit = True
            if writing and tun.changed(name):
                tun.restore_failed = True
            elif self.sys_kind != "interrupt":
                tun.refused[name] = os.strerror(getattr(errno, self.sys_kind))
            fail(self.sys_kind, path)

    def copy(self, op):
        if self.copy_at is None or self.ncopy > 6:
            return
        want = self.cfg["copyfault"]
        if op != ("write" if want == "interrupt" else want):
            return
        n = self.ncopy
        self.ncopy += 1
        if self.copy_at == n:
            self.copy_hit = True
            fail("interrupt" if want == "interrupt" else "EIO", "device")


def judge(k, tun, flt, cfg, content_ok, msgs, check):
    """The property; check(cond, msg).  `msgs` are the messages shown to the user."""
    missing = {"max_ratio", "scheduler"} - set(LAYOUTS[cfg["layout"]].values())
    for name, why in sorted(dict(tun.refused, **{m: os.strerror(errno.ENOENT) for m in missing}).items()):
        words = {"scheduler": "scheduler", "max_ratio": "ratio"}
        if k == "ok":
            check(
                any(why in m and words[name] in m for m in msgs),
                "no message says that %s could not be changed because of '%s'" % (name, why),
            )
    restored = tun.state() == tun.start
    if not restored:
        check(
            tun.restore_failed and k != "ok",
            "the tunables are left changed: %r instead of %r" % (tun.state(), tun.start),
        )
    if k == "hang":
        check(False, "the copy never ends")
    if k == "ok":
        check(not flt.copy_hit, "success although the copy failed")
        check(content_ok, "success although the data does not match")
    elif not flt.copy_hit and not tun.restore_failed and not (flt.sys_hit and flt.sys_kind == "interrupt"):
        check(Not(content_ok) if not isinstance(content_ok, bool) else not content_ok, "the copy fails because of the tunables: %s" % k)


def harness(c, cfg):
    s = Scene(c, cfg)
    w = s.w
    tun = pick(c.choice, cfg)
    for d in DIRS[cfg["layout"]]:
        w.add(BASE + d, W.DirNode(BASE + d))
    nodes = {}
    for rel, name in LAYOUTS[cfg["layout"]].items():
        n = W.TextNode(BASE + rel, tun.read(name))
        n.on_read = lambda f, name=name: setattr(f.node, "content", tun.read(name))
        n.on_write = lambda v, name=name: tun.write(name, v)
        w.add(BASE + rel, n)
        nodes[n] = name
    flt = Faults(
        cfg,
        c.int("sys_at", 0, 12) if cfg.get("sysfault") else None,
        c.choice("sys_kind", SYSERR) if cfg.get("sysfault") else None,
        c.int("copy_at", 0, 6) if cfg.get("copyfault") else None,
    )

    def hook(op, f):
        if op == "open":
            n = w.nodes.get(f[0]) if isinstance(f[0], str) else None
            if n in nodes:
                flt.sysfs(tun, nodes[n], isinstance(f[1], str) and ("w" in f[1] or "+" in f[1]), f[0])
            return
        n = getattr(f, "node", None)
        if n in nodes:
            if op in ("read", "write"):
                flt.sysfs(tun, nodes[n], op == "write", n.name)
            return
        if n is s.dst and op in ("write", "fsync") or n is s.img and op == "read":
            flt.copy(op)

    w.fault_hook = hook
    k = s.run(close=False)
    content = And(*s.okflags) if getattr(s, "okflags", None) else True
    judge(k, tun, flt, cfg, content, [m.text() for m in w.msgs if m.level != "debug"], c.check)
    if k == "ok":
        w.fault_hook = None
        k2, e2 = lib.outcome_of(s.f_dst.close)
        c.check(k2 == "ok", "closing fails")
        s.check_dest("after the copy")


class FakeFile(io.StringIO):
    def __init__(self, tun, name, mode, flt, path):
        self.tun, self.name_, self.mode, self.flt, self.path = tun, name, mode, flt, path
        flt.sysfs(tun, name, "w" in mode or "+" in mode, path)
        super().__init__()
        self.buf = ""

    def read(self, *a):
        self.flt.sysfs(self.tun, self.name_, False, self.path)
        return self.tun.read(self.name_)

    def readline(self, *a):
        return self.read()

    def write(self, v):
        self.flt.sysfs(self.tun, self.name_, True, self.path)
        self.tun.write(self.name_, v)
        return len(v)

    def __exit__(self, *a):
        self.close()


class R(RealScene):
    pass


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    opts = lambda name, options: options[0] if len(options) == 1 else options[p.get(name, 0)]
    tun = pick(opts, cfg)
    flt = Faults(
        cfg,
        p.get("sys_at", 0) if cfg.get("sysfault") else None,
        opts("sys_kind", SYSERR) if cfg.get("sysfault") else None,
        p.get("copy_at", 0) if cfg.get("copyfault") else None,
    )
    files = {BASE + r: n for r, n in LAYOUTS[cfg["layout"]].items()}
    dirs = {BASE + x for x in DIRS[cfg["layout"]]}
    o_open, o_exists, o_fsync = builtins.open, os.path.exists, os.fsync

    def f_open(path, mode="r", *a, **k):
        if isinstance(path, str) and path.startswith("/sys/"):
            if path not in files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            return FakeFile(tun, files[path], mode, flt, path)
        return o_open(path, mode, *a, **k)

    def f_exists(path):
        if isinstance(path, str) and path.startswith("/sys/"):
            return path in files or path in dirs
        return o_exists(path)

    def f_fsync(fd):
        flt.copy("fsync")
        return o_fsync(fd)

    orig_init = io.FileIO.write
    from . import copylib

    o_write, o_read = copylib.LimitedRaw.write, copylib.FaultyImage.read

    def wr(self, b):
        flt.copy("write")
        return o_write(self, b)

    def rd(self, *a):
        flt.copy("read")
        return o_read(self, *a)

    def rdi(self, b):
        flt.copy("read")
        return copylib_readinto(self, b)

    copylib_readinto = copylib.FaultyImage.readinto
    builtins.open, os.path.exists, os.fsync = f_open, f_exists, f_fsync
    copylib.LimitedRaw.write, copylib.FaultyImage.read, copylib.FaultyImage.readinto = wr, rd, rdi
    s.cfg = dict(cfg, count=True, sync=True)
    msgs = []
    handler = logging.Handler(logging.INFO)
    handler.emit = lambda r: msgs.append(r.getMessage())
    root, level = logging.getLogger(), logging.getLogger().level
    root.addHandler(handler)
    root.setLevel(logging.INFO)
    try:
        k = s.run()
    finally:
        root.removeHandler(handler)
        root.setLevel(level)
        builtins.open, os.path.exists, os.fsync = o_open, o_exists, o_fsync
        copylib.LimitedRaw.write, copylib.FaultyImage.read, copylib.FaultyImage.readinto = o_write, o_read, copylib_readinto
    v = []
    content = all(p.get("content_ok%d" % i, True) for i in range(cfg["ranges"])) if cfg.get("cs") else True
    judge(k, tun, flt, cfg, content, msgs, lambda cond, msg: None if cond else v.append(msg))
    if k == "ok":
        v += s.dest_violations("after the copy")
    return {"outcome": k, "violations": v}
