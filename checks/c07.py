"""C07: an I/O failure while copying is never reported as success."""

import errno

from symx.values import Not
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "one failing operation at any position among the first 13 of its kind (image read, image seek, destination "
    "write, truncate, flush, fsync), with or without a bmap, sizes symbolic, up to 2 ranges x 2 batches and long runs of "
    "up to 10 batches, system call errors of any number and errors of the image source itself, regular file (buffered or not) and block device, two thread schedules",
    "thorough": "as quick with more ranges, batches and schedules",
}
OUTSIDE = "several failures in one run; failures of close() after a successful copy; failures of child processes (C19)"
ASSUMPTIONS = ["a failing system call reports an error (OSError), a failing image source that or its own error"]
MB = 1 << 20


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("dest_old", False)
        out.append(dict(k, name=name))

    for kind in ("read", "seek", "write", "truncate", "flush", "fsync"):
        add("%s" % kind, fault=kind, ranges=2, kb=2, version="1.2", max_size=1 << 36)
        add("%s-lazy-cs" % kind, fault=kind, ranges=2, kb=1, cs=True, policy="lazy", errno="ENOSPC", max_size=1 << 36)
        if kind != "truncate":
            add("%s-bdev" % kind, fault=kind, ranges=2, kb=1, version="1.2", dest="bdev", max_size=1 << 36)
    for kind in ("read", "write", "truncate", "fsync"):
        add("%s-known" % kind, fault=kind, nobmap="known", max_size=4 * MB)
        add("%s-unknown" % kind, fault=kind, nobmap="unknown", max_size=4 * MB, min_size=0)
    for kind in ("read", "seek"):
        add("%s-source" % kind, fault=kind, source_error=True, ranges=2, kb=1, version="1.2", max_size=1 << 36)
    add("read-source-known", fault="read", source_error=True, nobmap="known", max_size=4 * MB, policy="lazy")
    add("read-source-unknown", fault="read", source_error=True, nobmap="unknown", max_size=4 * MB, min_size=0, dest="bdev")
    add("write-unbuf", fault="write", ranges=2, kb=1, version="1.2", buffering=0, max_size=1 << 36)
    add("read-long", fault="read", bs=MB, ranges=1, kb=10, version="1.2", max_size=1 << 36)
    add("read-long-lazy", fault="read", bs=MB, ranges=1, kb=10, version="1.2", policy="lazy", max_size=1 << 36)
    add("write-long", fault="write", bs=MB, ranges=1, kb=10, version="1.2", max_size=1 << 36)
    add("fsync-long-bdev", fault="fsync", bs=MB, ranges=1, kb=14, version="1.2", dest="bdev", max_size=1 << 36, sync=False)
    add("write-unknown-bdev", fault="write", nobmap="unknown", max_size=4 * MB, dest="bdev")
    add("full-bdev", nobmap="unknown", max_size=6 * MB, dest="bdev", capacity="free", full=True)
    for kind in ("read", "write", "seek", "fsync", "truncate"):
        k = dict(ranges=1, kb=1, version="1.2", max_size=1 << 36) if kind == "seek" else dict(nobmap="unknown", max_size=4 * MB, min_size=0)
        add("%s-classes" % kind, fault=kind, classes=True, fault_max=4, **k)
    add("end", ending=True, nobmap="unknown", max_size=4 * MB, min_size=0)
    add("end-lazy", ending=True, nobmap="unknown", max_size=4 * MB, min_size=0, policy="lazy", dest="bdev")
    add("end-known", ending=True, nobmap="known", file_size="short", max_size=4 * MB, min_size=0)
    if tier == "thorough":
        for kind in ("read", "write", "fsync"):
            add("t-%s-r3" % kind, fault=kind, ranges=3, kb=2, version="1.2", max_size=1 << 36)
            add("t-%s-explore" % kind, fault=kind, bs=MB, ranges=1, kb=3, version="1.2", policy="explore", max_size=1 << 36)
    return out


class Ending:
    """An image source which fails where its data end."""

    def __init__(self, f):
        self._f, self.name = f, f.name

    def read(self, *a):
        d = self._f.read(*a)
        if not d and a[:1] != (0,):
            raise OSError(errno.EIO, "Input/output error")
        return d

    def __getattr__(self, name):
        return getattr(self._f, name)


class S(Scene):
    def wrap_image(self, f):
        return Ending(f) if self.cfg.get("ending") else f


class R(RealScene):
    wrap_image = S.wrap_image


def harness(c, cfg):
    s = S(c, cfg)
    k = s.run(close=False)
    if cfg.get("full"):
        if k == "ok":
            c.check(s.N <= s.cap, "copied 'successfully' to a device smaller than the image")
        else:
            c.check(s.N > s.cap, "failed although the image fits")
        return
    if cfg.get("ending"):
        c.check(k not in ("ok", "hang"), "the failing end of the image is not reported")
        return
    if k == "ok":
        c.check(not s.fault_hit, "a failing %s was not reported" % cfg["fault"])
    elif k == "hang":
        c.fail("a failing %s leaves the copy hanging" % cfg["fault"])
    else:
        c.check(s.fault_hit, "failed (%s) although nothing went wrong" % k)


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    k = s.run(40)
    v = []
    if cfg.get("ending"):
        if k in ("ok", "hang"):
            v.append("the failing end of the image is not reported")
        return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
    if cfg.get("full"):
        if k == "ok" and s.N > p["capacity"]:
            v.append("copied 'successfully' to a device smaller than the image")
        if k != "ok" and s.N <= p["capacity"]:
            v.append("failed although the image fits: %s" % s.err)
        return {"outcome": k.replace("close-", ""), "violations": v, "err": str(s.err)[:200]}
    hit = s.fault_hit()
    if k == "ok" and hit:
        v.append("a failing %s was not reported" % cfg["fault"])
    elif k == "hang":
        v.append("a failing %s leaves the copy hanging" % cfg["fault"])
    elif k != "ok" and not hit:
        v.append("failed (%s %s) although nothing went wrong" % (k, s.err))
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
