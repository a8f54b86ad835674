"""C01: creating a bmap and copying with it reproduces the image."""

import io
import os
import sys

from symx import lib, real, values, world as W
from symx.values import And, Or, Not, Implies, SymInt
from symx.buffers import filled
from .createlib import SymCreate, RealCreate, IMG, OUT

BOUNDS = {
    "quick": "0-3 data areas, whole blocks (FIEMAP and SEEK_HOLE) or arbitrary bytes (SEEK_HOLE), each of up to 1-3 MiB with and "
    "without checksums; image size symbolic up to 4 TiB; block sizes 512/4096/12288/65536/1 MiB/2 MiB; all digest kinds; "
    "image by path or as a file object at any position; regular file with or without old content and block device as destination; through the classes and the command line",
    "thorough": "as quick with up to 4 areas of up to 4 MiB",
}
OUTSIDE = "data areas above the stated size (one batch after the other is copied alike: C02); files that change meanwhile"
ASSUMPTIONS = [
    "the kernel reports the mapping truthfully; what it does not report as data reads as zeroes (C13-C15)",
    "digests identify data",
    "a fresh file reads as zeroes where nothing was written",
]
DST = "/work/dst"


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 2)
        k.setdefault("max_bytes", 1 << 20)
        out.append(dict(k, name=name))

    for n in (0, 1, 2):
        add("fiemap%d" % n, n=n, tail=n == 1)
        add("seek%d" % n, n=n, method="seek")
        add("plain%d" % n, n=n, checksums=False)
    for n in (1, 2):
        add("bytes%d" % n, n=n, method="seek", gran="bytes")
        add("bytes-plain%d" % n, n=n, method="seek", gran="bytes", checksums=False)
    add("fiemap3", n=3, bs=1 << 20)
    for bs in (512, 12288, 65536, 1 << 20, 1 << 21):
        add("bs%d" % bs, bs=bs, n=1, tail=True, kb=2)
        add("bs%d-bytes" % bs, bs=bs, n=1, method="seek", gran="bytes")
    add("long", n=1, kb=3)
    for t in ("sha1", "md5", "sha512", "blake2b"):
        add("type-" + t, n=1, cs_type=t)
    add("old-dest", n=1, old=True)
    add("bdev", n=2, dest="bdev")
    add("cli", via="cli", n=2)
    add("cli-plain", via="cli", n=2, checksums=False)
    add("cli-seek", via="cli", n=1, method="seek", gran="bytes")
    add("lazy", n=2, policy="lazy")
    add("obj-at", n=1, via="api-obj", at=10000, from0=True)
    add("obj-at-seek", n=2, via="api-obj", at=4096, method="seek", bufsz=65536)
    if tier == "thorough":
        add("t-3", n=3)
        add("t-4", n=4, bs=1 << 20)
        add("t-4-seek", n=4, method="seek")
        add("t-bytes3", n=3, method="seek", gran="bytes")
        for bs in (512, 1024, 4096, 65536, 1 << 18):
            add("t-bs%d" % bs, bs=bs, n=2, kb=3, tail=True)
            add("t-bs%d-bytes" % bs, bs=bs, n=2, kb=2, method="seek", gran="bytes")
            add("t-cli-%d" % bs, bs=bs, n=2, via="cli", tail=True)
    return out


class S(SymCreate):
    def __init__(self, c, cfg):
        super().__init__(c, dict(cfg), W.World(c, cfg.get("policy", "eager")))
        if not cfg.get("checksums", True):
            # (copied in as many batches as with checksums)
            for s, e in self.segs:
                c.assume(e - s <= max(cfg.get("kb", 1) << 20, self.bs))
        self.D0 = 0
        if cfg.get("dest") == "bdev":
            self.cap = c.int("capacity", 1, 1 << 43)
            c.assume(self.cap >= self.N)
            self.dst = self.w.add(DST, W.SinkNode(DST, bdev=True, capacity=self.cap, rdev=os.makedev(250, 7)))
        elif cfg.get("old") or not cfg.get("via", "api").startswith("cli"):
            self.D0 = c.int("dest_size", 0, 1 << 42) if cfg.get("old") else 0
            self.dst = self.w.add(DST, W.SinkNode(DST, self.D0))

    def copy(self):
        w, cfg = self.w, self.cfg
        if cfg.get("via") == "cli":
            args = ["bmaptool", "copy", "--bmap", OUT, IMG, DST]
            w.argv[:] = args
            old, err = sys.argv, sys.stderr
            sys.argv, sys.stderr = args, io.StringIO()
            try:
                r = w.mod("CLI").main()
                if r:
                    raise SystemExit(r)
            finally:
                sys.argv, sys.stderr = old, err
            self.dst = w.nodes.get(DST)
            return
        if hasattr(self, "creator"):
            del self.creator
        m = w.mod("BmapCopy")
        bdev = cfg.get("dest") == "bdev"
        f = w.open(DST, "rb+" if not bdev else "wb")
        wr = (m.BmapBdevCopy if bdev else m.BmapCopy)(w.open(IMG, "rb"), f, w.open(OUT, "rb"), None)
        wr.copy(True, True)
        f.close()

    def copied(self):
        k, e = lib.outcome_of(self.copy)
        self.c.check(k in ("ok", "exit0"), "copying with the generated bmap fails: %s: %s" % (k, e))
        return k in ("ok", "exit0")

    def compare(self):
        c, N = self.c, self.N
        x = c.int("x", 0)
        t = SymInt(self.dst.tag(x))
        zero = Not(Or(*[And(s <= x, x < e) for s, e in self.segs])) if self.segs else True
        zero = Or(zero, filled(x, self.img.src))
        inside = x < N
        # what is skipped keeps its content: zeroes in a fresh file
        blank = Or(t == -3, And(x < self.D0, t == -1)) if self.cfg.get("dest") != "bdev" else t == -1
        c.check(Implies(inside, Or(t == x, And(zero, blank))), "the copy differs from the image")
        if self.cfg.get("dest") != "bdev":
            c.check(Implies(Not(inside), t == -2), "the copy is longer than the image")
        else:
            c.check(Implies(And(Not(inside), x < self.cap, zero), t == -1), "bytes beyond the image were written")


class R(RealCreate):
    def copy(self):
        cfg = self.cfg
        self.dst = os.path.join(self.d, "dst")
        if cfg.get("via") == "cli":
            sys.argv = ["bmaptool", "copy", "--bmap", self.out, self.path, self.dst]
            r = real.mod("CLI").main()
            if r:
                raise SystemExit(r)
            return
        m = real.mod("BmapCopy")
        with open(self.dst, "wb") as f:
            if cfg.get("old"):
                f.truncate(self.p.get("dest_size", 0))
            if cfg.get("dest") == "bdev":
                f.truncate(self.p["capacity"])
        f = open(self.dst, "rb+")
        wr = m.BmapCopy(open(self.path, "rb"), f, open(self.out, "rb"), None)
        if cfg.get("dest") == "bdev":
            f2 = os.ftruncate
            os.ftruncate = lambda *a: None
        try:
            wr.copy(True, True)
        finally:
            if cfg.get("dest") == "bdev":
                os.ftruncate = f2
        f.close()

    def copied(self):
        import gc
        import logging

        self.creator = None
        gc.collect()
        so, se, sa = sys.stdout, sys.stderr, sys.argv
        root = logging.getLogger()
        handlers = list(root.handlers)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            k, e = real.outcome_of(self.copy)
        finally:
            sys.stdout, sys.stderr, sys.argv = so, se, sa
            root.handlers[:] = handlers
        self.check(k in ("ok", "exit0"), "copying with the generated bmap fails: %s: %s" % (k, e))
        return k in ("ok", "exit0")

    def compare(self):
        n, N = os.path.getsize(self.dst), self.N
        if self.cfg.get("dest") != "bdev":
            self.check(n <= N, "the copy is longer than the image")
        top = max(n, N)
        ends = [self.segs and self.segs[0] or (0, 0)] + self.segs
        for a, b in real.probe_points(top, self.segs, (N,)):
            while a < b:
                k = min(b - a, 8 << 20)
                want = real.read_at(self.path, a, k)
                got = real.read_at(self.dst, a, k)
                if self.cfg.get("dest") == "bdev" or n > N:
                    want = want + bytes(len(got) - len(want))
                if got != want:
                    self.check(False, "the copy differs from the image")
                    return
                a += k


def scenario(s):
    good = s.run()
    s.check(good, "generation failed: %s: %s" % (s.kind, s.err))
    if good and s.copied():
        s.compare()


def harness(c, cfg):
    scenario(S(c, cfg))


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    scenario(s)
    return {"outcome": s.kind, "violations": s.v}
