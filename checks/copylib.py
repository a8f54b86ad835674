"""Scenarios around BmapCopy.copy(): symbolic set-up and concrete replay."""

import errno
import hashlib
import io
import os
import stat
import sys
import threading
import time
import types

import z3

from symx import core, lib, threads, values, world as W
from symx.buffers import filled
from symx.values import And, Or, Not, Implies, If, SymInt, as_z3int, mk_bool, mk_int, imin, imax

ERRS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC}


# A checksum attribute which is not the checksum, though much like it
DAMAGES = ["cut to one", "cut by one", "other half", "one more", "twice", "of another length"]


def damaged(tok, kind):
    return {
        "cut to one": tok[:1],
        "cut by one": tok[:-1],
        "other half": tok[len(tok) // 2 :],
        "one more": tok + "0",
        "twice": tok + tok,
        "of another length": "0" * 8,
    }[kind]


class Scene:
    """image + bmap + destination, sizes and ranges symbolic.

    cfg keys: bs, ranges (count), kb (max batches per range), max_size,
    version, cs (range checksums in the bmap), verify, sync, dest (reg|bdev),
    policy, nobmap (None|known|unknown), singles (bool), cs_type,
    content ('true' -> all digests match, 'free' -> a symbolic bool per range),
    file_size ('same' | 'free'), mapped ('same'|'free'), capacity
    """

    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.w = w = W.World(c, cfg.get("policy", "eager"))
        w.sched.preempt = cfg.get("preempt")
        if not cfg.get("real_sizes"):
            w.summarise_human_size()
        bs = self.bs = cfg["bs"]
        batch = max(1, (1 << 20) // bs)
        maxb = cfg.get("max_range_blocks") or cfg.get("kb", 2) * batch
        N = self.N = c.int("size", cfg.get("min_size", 1), cfg.get("max_size", 1 << 42))
        self.blocks = (N + bs - 1) // bs
        nr = cfg.get("ranges", 1)
        self.r = lib.Ranges(c, nr, self.blocks, maxb, gap=cfg.get("gap", 0)) if not cfg.get("nobmap") else None
        if cfg.get("tail"):
            # the last range ends exactly at the last block of the image
            c.assume(self.r.items[-1][1] == self.blocks - 1)
        F = self.F = N
        fs = cfg.get("file_size", "same")
        if fs != "same":
            F = self.F = c.int("file_size", 0, cfg.get("max_size", 1 << 42))
            if fs == "longer":
                c.assume(F >= N)
                c.assume(F < N + cfg.get("longer_by", 3 * bs))
            elif fs == "short":
                c.assume(F < N)
        self.img = w.add("/work/img.raw", W.DataNode("/work/img.raw", F))
        self.algo = lib.algo_of(cfg.get("version", "2.0"), cfg.get("cs_type", "sha256"))
        self.bmap = None
        if not cfg.get("nobmap"):
            if cfg.get("reverse"):
                self.r.items.reverse()
            self._bmap()
        D0 = self.D0 = c.int("dest_size", 0, cfg.get("max_size", 1 << 42)) if cfg.get("dest_old", True) else 0
        if cfg.get("dest") == "bdev":
            cap = c.int("capacity", 0, 1 << 43)
            if cfg.get("capacity") != "free":
                c.assume(cap >= N)
            self.cap = cap
            self.dst = W.SinkNode("/dev/sdx", bdev=True, capacity=cap, rdev=os.makedev(250, 7))
            self.dst.tight = cfg.get("nobmap") == "unknown"
        elif cfg.get("dest") == "null":
            self.dst = W.SinkNode("/dev/null", 0, mode=stat.S_IFCHR | 0o666, rdev=os.makedev(1, 3))
        else:
            self.dst = W.SinkNode("/work/out", D0)
            # (in nearly every configuration) the file already has old content
        w.add(self.dst.name, self.dst)
        self.faults()

    def _bmap(self):
        cfg, c = self.cfg, self.c
        nr = cfg.get("ranges", 1)
        self.okflags = []
        rows = []
        for i, (f, l) in enumerate(self.r.items):
            tok = None
            if cfg.get("cs") and self.algo and not (cfg.get("cs_mask") and not cfg["cs_mask"][i]):
                tok = W.hash_hex(self.algo, b"range-%d" % i)
                ok = True
                if cfg.get("content") == "free":
                    ok = c.bool("content_ok%d" % i)
                self.okflags.append(ok)
                bs = self.bs
                start = f * bs
                end = imin((l + 1) * bs, self.N)
                self.w.hash_facts.append(
                    W.Fact(self.algo, [("s", self.img.src, start, end - start)], tok, ok)
                )
                if i == cfg.get("damage"):
                    tok = damaged(tok, c.choice("damage", DAMAGES))
                    self.okflags[-1] = False
            else:
                self.okflags.append(True)
            single = False
            if cfg.get("singles"):
                if f == l:
                    single = c.flag("single%d" % i)
            rows.append((f, l, tok, single))
        mapped = getattr(self, "mapped_total", self.r.count)
        if cfg.get("mapped") == "free":
            mapped = c.int("mapped", 0, cfg.get("max_size", 1 << 42))
        self.mapped = mapped
        self.text = self.render(self.N, self.bs, self.blocks, mapped, rows)
        self.bmap = self.w.add("/work/img.bmap", W.TextNode("/work/img.bmap", self.text))

    def render(self, size, bs, blocks, mapped, rows):
        cfg = self.cfg
        return lib.bmap_text(
            cfg.get("version", "2.0"), size, bs, blocks, mapped, rows, cfg.get("cs_type", "sha256"), vtext=self.vtext(), pad=cfg.get("pad", 0)
        )

    def number(self, name, lo, hi):
        return self.c.int(name, lo, hi)

    def vtext(self):
        """A version which is not published yet."""
        kind = self.cfg.get("sym_version")
        if kind == "major":
            return "%s.%s" % (self.number("major", 3, 10**6), self.number("minor", 0, 10**6))
        if kind == "minor":
            return "%s.%s" % (self.cfg["version"].split(".")[0], self.number("minor", 1, 10**6))
        return None

    def faults(self):
        """At most one failing operation, chosen symbolically."""
        kind = self.cfg.get("fault")
        if not kind:
            return
        k = self.c.int("fault_at", 0, self.cfg.get("fault_max", 12))
        seen = {"n": 0}
        self.fault_hit = False

        def hook(op, f):
            # ops on the destination or image, per kind
            if isinstance(f, tuple) or f is None:
                node = None
            else:
                node = f.node
            if kind == "read":
                want = op == "read" and node is self.img
            elif kind == "seek":
                want = op == "seek" and node is self.img
            else:
                want = op == kind and (node is self.dst or node is None)
            if not want:
                return
            n = seen["n"]
            seen["n"] += 1
            if n > self.cfg.get("fault_max", 12):
                return
            if k == n:
                self.fault_hit = True
                if self.cfg.get("source_error"):
                    # what an image source reports by itself
                    raise self.w.mod("TransRead").Error("the source failed")
                if self.cfg.get("classes"):
                    e = lib.CLASSED[self.c.choice("error_class", list(range(len(lib.CLASSED))))]
                    raise OSError(e, os.strerror(e))
                if "errno" not in self.cfg:
                    raise lib.any_oserror(self.c)
                e = ERRS[self.cfg["errno"]]
                raise OSError(e, os.strerror(e))

        self.w.fault_hook = hook

    # -- running the code under test ---------------------------------------
    def open_all(self):
        w = self.w
        self.f_img = self.wrap_image(w.open("/work/img.raw", "rb"))
        if self.cfg.get("dest") == "bdev":
            fd = w.mod("BmapCopy").os.open(self.dst.name, os.O_WRONLY | os.O_EXCL)
            self.f_dst = w.mod("BmapCopy").os.fdopen(fd, "wb")
            self.f_dst.name = self.dst.name
        else:
            self.f_dst = w.open(self.dst.name, "rb+", self.cfg.get("buffering", -1))
        self.f_bmap = w.open("/work/img.bmap", "rb") if self.bmap else None

    def make(self):
        m = self.w.mod("BmapCopy")
        cls = m.BmapBdevCopy if self.cfg.get("dest") == "bdev" else m.BmapCopy
        size = None
        if self.cfg.get("nobmap") == "known" or self.cfg.get("give_size"):
            size = self.N
        if self.cfg.get("other_size"):
            size = self.c.int("given_size", 1, 1 << 42)
            self.given = size
        self.writer = cls(self.f_img, self.f_dst, self.f_bmap, size)
        self.Error = m.Error
        return self.writer

    def wrap_image(self, f):
        return f

    def copy(self):
        self.open_all()
        self.make()
        if self.cfg.get("progress"):
            self.prog = W.OutStream(self.w, "<progress>")
            self.writer.set_progress_indicator(self.prog, self.cfg.get("fmt", "%d"))
        self.prepare(self.writer)
        self.writer.copy(self.cfg.get("sync", True), self.cfg.get("verify", True))

    def prepare(self, writer):
        pass

    def run(self, close=True):
        kind, e = lib.outcome_of(self.copy)
        if kind != "ok" and hasattr(self, "Error") and isinstance(e, self.Error):
            kind = "Error"
        self.err = e
        self.kind = kind
        if close and kind == "ok":
            k2, e2 = lib.outcome_of(self.f_dst.close)
            if k2 != "ok":
                self.kind, self.err = "close-" + k2, e2
        self.c.extra["outcome"] = self.kind
        return self.kind

    # -- expectations --------------------------------------------------------
    def check_dest(self, msg):
        """Every byte of the destination is what the bmap says."""
        c, N, bs = self.c, self.N, self.bs
        x = c.int("x", 0)
        t = SymInt(self.dst.tag(x))
        if self.r is None:
            mapped = True
        else:
            mapped = self.r.has_byte(x, bs)
        inside = x < N
        zero = And(filled(x, self.img.src), t == -3)
        c.check(Implies(And(inside, mapped), Or(t == x, zero)), msg + ": a mapped byte is not the image's")
        if self.cfg.get("dest") == "bdev":
            c.check(
                Implies(And(x < self.cap, Or(Not(inside), Not(mapped))), t == -1),
                msg + ": a byte outside the mapped blocks was modified",
            )
        else:
            c.check(Implies(Not(inside), t == -2), msg + ": destination longer than the image")
            c.check(Implies(inside, t != -2), msg + ": destination shorter than the image")
            c.check(
                Implies(
                    And(inside, Not(mapped)),
                    Or(And(x < self.D0, t == -1), And(x >= self.D0, t == -3)),
                ),
                msg + ": an unmapped byte was modified",
            )


# ---------------------------------------------------------------------------
# concrete side
# ---------------------------------------------------------------------------


class LimitedRaw(io.FileIO):
    """A real file that fails like a device: capacity, or the k-th write."""

    limit = None
    fail_at = None
    err = errno.EIO
    count = 0
    delay = 0
    total = 0
    unsynced = 0
    max_unsynced = 0
    tap = None
    events = None

    def write(self, b):
        if self.delay:
            time.sleep(self.delay)
        if self.tap:
            self.tap(len(b))
        n = self.count
        self.count += 1
        if self.fail_at is not None and n == self.fail_at:
            self.hit["v"] = True
            raise OSError(self.err, os.strerror(self.err))
        if self.limit is not None and self.tell() + len(b) > self.limit:
            raise OSError(errno.ENOSPC, "No space left on device")
        r = super().write(b)
        if self.events is not None and r:
            self.events.append("write")
        self.total += r
        self.unsynced += r
        self.max_unsynced = max(self.max_unsynced, self.unsynced)
        return r

    def truncate(self, n=None):
        n = self.tell() if n is None else n
        os.ftruncate(self.fileno(), n)
        return n


class FaultyImage:
    def __init__(self, f, kind, at, err):
        self._f, self.kind, self.at, self.err = f, kind, at, err
        self.n = 0
        self.name = f.name
        self.delay = 0
        self.total = 0
        self.tap = None

    def _hit(self):
        n = self.n
        self.n += 1
        if n == self.at:
            self.hit["v"] = True
            if isinstance(self.err, Exception):
                raise self.err
            raise OSError(self.err, os.strerror(self.err))

    def _count(self, n):
        self.total += n
        if self.tap:
            self.tap(n)

    def read(self, *a):
        if self.delay:
            time.sleep(self.delay)
        if self.kind == "read":
            self._hit()
        r = self._f.read(*a)
        self._count(len(r))
        return r

    def readinto(self, b):
        if self.delay:
            time.sleep(self.delay)
        if self.kind == "read":
            self._hit()
        n = self._f.readinto(b)
        self._count(n)
        return n

    def seek(self, *a):
        if self.kind == "seek":
            self._hit()
        return self._f.seek(*a)

    def __getattr__(self, n):
        return getattr(self._f, n)


class RealScene:
    def __init__(self, cfg, p, d):
        from symx import real

        self.real = real
        self.cfg, self.p, self.d = cfg, p, d
        bs = self.bs = cfg["bs"]
        N = self.N = p["size"]
        F = self.F = p.get("file_size", N)
        self.blocks = (N + bs - 1) // bs
        self.items = []
        if not cfg.get("nobmap"):
            for i in range(cfg.get("ranges", 1)):
                f = p["r%d_first" % i]
                self.items.append((f, f + p["r%d_len" % i] - 1))
            if cfg.get("reverse"):
                self.items.reverse()
        self.areas = [(f * bs, (l + 1) * bs) for f, l in self.items]
        if cfg.get("nobmap"):
            self.areas = [(0, N)]
        self.img = os.path.join(d, "img.raw")
        real.make_image(self.img, F, self.areas)
        real.apply_fills(self.img, p)
        self.algo = lib.algo_of(cfg.get("version", "2.0"), cfg.get("cs_type", "sha256"))
        self.bmap = None
        if not cfg.get("nobmap"):
            rows = []
            for i, (f, l) in enumerate(self.items):
                tok = None
                if cfg.get("cs") and self.algo and not (cfg.get("cs_mask") and not cfg["cs_mask"][i]):
                    a, b = f * bs, min((l + 1) * bs, N)
                    tok = real.digest_of(self.img, a, b - a, self.algo)
                    if not p.get("content_ok%d" % i, True):
                        k = p.get("digest_diff" if "digest_diff" in p else "", 2)
                        # the digest in the bmap is that of other content
                        tok = self._corrupt(tok, i)
                    if i == cfg.get("damage"):
                        tok = damaged(tok, DAMAGES[p.get("damage", 0)])
                rows.append((f, l, tok, p.get("single%d" % i, False)))
            mapped = p.get("mapped", sum(l - f + 1 for f, l in self.items))
            text = self.render(N, bs, self.blocks, mapped, rows)
            self.bmap = os.path.join(d, "img.bmap")
            with open(self.bmap, "w") as fo:
                fo.write(text)
        self.D0 = p.get("dest_size", 0)
        self.out = os.path.join(d, "out")
        cap = p.get("capacity")
        if cfg.get("dest") == "null":
            self.out = "/dev/null"
        with open(self.out, "wb+") as fo:
            if cfg.get("dest") == "null":
                pass
            elif cfg.get("dest") == "bdev":
                fo.truncate(cap)
                for a, b in real.probe_points(cap, self.areas):
                    real.write_pattern(fo, a, b - a, 7)
            else:
                fo.truncate(self.D0)
                for a, b in real.probe_points(self.D0, [x for x in self.areas if x[0] < self.D0]):
                    if b > a:
                        real.write_pattern(fo, a, b - a, 7)
        self.events = []
        self._hit = {"v": False}

    render = Scene.render
    prepare = Scene.prepare
    wrap_image = Scene.wrap_image
    vtext = Scene.vtext

    def number(self, name, lo, hi):
        return self.p.get(name, lo)

    def _corrupt(self, tok, i):
        p = self.p
        flip = lambda ch: "1" if ch != "1" else "2"
        kinds = [v for k, v in sorted(p.items()) if k.startswith("digest_diff")]
        kind = kinds[0] if kinds else 2
        if kind == 0:
            return flip(tok[0]) + tok[1:]
        if kind == 1:
            return tok[:-1] + flip(tok[-1])
        return hashlib.new(self.algo, b"other").hexdigest()

    def run(self, seconds=100):
        real, cfg, p = self.real, self.cfg, self.p
        m = real.mod("BmapCopy")
        kind = cfg.get("fault")
        at = p.get("fault_at")
        err = ERRS[cfg["errno"]] if "errno" in cfg else p.get("errno", errno.EIO)
        if cfg.get("classes"):
            err = lib.CLASSED[p.get("error_class", 0)]
        if cfg.get("source_error"):
            err = real.mod("TransRead").Error("the source failed")
        f_img = self.wrap_image(open(self.img, "rb"))
        pol = cfg.get("policy", "eager")
        raw = LimitedRaw(self.out, "rb+")
        hit = raw.hit = self._hit
        raw.events = self.events
        if kind in ("read", "seek") or pol == "lazy" or cfg.get("count"):
            f_img = FaultyImage(f_img, kind, at, err)
            f_img.hit = hit
            f_img.delay = 0.004 if pol == "lazy" else 0
            self.f_img = f_img
        if pol != "lazy":
            raw.delay = 0.004
        self.inflight = self.max_inflight = 0
        lock = threading.Lock()

        def tap(n):
            with lock:
                self.inflight += n
                self.max_inflight = max(self.max_inflight, self.inflight)

        if cfg.get("count"):
            f_img.tap = tap
            raw.tap = lambda n: tap(-n)
        if cfg.get("dest") == "bdev":
            raw.limit = p.get("capacity")
            raw.name_ = self.out
            f_dst = io.BufferedWriter(raw)
        elif cfg.get("buffering", -1) == 0:
            f_dst = raw
        else:
            f_dst = io.BufferedRandom(raw)
        if kind == "write":
            raw.fail_at, raw.err = at, err
        f_bmap = open(self.bmap, "rb") if self.bmap else None
        self.f_dst, self.raw = f_dst, raw
        self.synced_total = None
        fd = raw.fileno()
        cnt = {"truncate": 0, "fsync": 0, "flush": 0}
        saved = {}

        def patch(name, k):
            orig = getattr(os, name)
            saved[name] = orig

            def g(x, *a):
                xx = x if isinstance(x, int) else x.fileno()
                if xx == fd:
                    n = cnt[k]
                    cnt[k] += 1
                    self.events.append(k)
                    if kind == k and n == at:
                        self._hit["v"] = True
                        raise OSError(err, os.strerror(err))
                    if k == "fsync":
                        raw.unsynced = 0
                        self.synced_total = raw.total
                return orig(x, *a)

            setattr(os, name, g)

        patch("ftruncate", "truncate")
        patch("fsync", "fsync")
        patch("fdatasync", "fsync")
        if kind == "flush":

            class Flushy:
                def __init__(s, f):
                    s.__dict__["_f"] = f

                def __getattr__(s, n):
                    return getattr(s._f, n)

                def flush(s):
                    n = cnt["flush"]
                    cnt["flush"] += 1
                    if n == at:
                        hit["v"] = True
                        raise OSError(err, os.strerror(err))
                    return s._f.flush()

            f_dst = Flushy(f_dst)
        if cfg.get("dest") == "bdev":
            orig_fstat = os.fstat
            saved["fstat"] = orig_fstat

            def fstat(x):
                st = orig_fstat(x)
                if x == fd:
                    return types.SimpleNamespace(
                        st_mode=stat.S_IFBLK | 0o660, st_rdev=os.makedev(250, 7), st_size=0
                    )
                return st

            os.fstat = fstat
        self.prog = io.StringIO()

        def body():
            cls = m.BmapBdevCopy if cfg.get("dest") == "bdev" else m.BmapCopy
            size = self.N if cfg.get("nobmap") == "known" or cfg.get("give_size") else None
            size = p.get("given_size", size)
            wr = self.writer = cls(f_img, f_dst, f_bmap, size)
            if cfg.get("progress"):
                wr.set_progress_indicator(self.prog, cfg.get("fmt", "%d"))
            self.prepare(wr)
            wr.copy(cfg.get("sync", True), cfg.get("verify", True))

        self.sched = None
        restore = lambda: None
        if pol == "explore":
            self.sched, restore = threads.script_into(m, p, cfg.get("preempt"))
        try:
            k, e = real.outcome_of(body, seconds)
            if isinstance(e, threads.Hang):
                k = "hang"
            if isinstance(e, m.Error):
                k = "Error"
            self.kind, self.err = k, e
            self.sync_later = ("ok", None)
            if k == "ok" and not cfg.get("sync", True) and not cfg.get("fault"):
                self.sync_later = real.outcome_of(self.writer.sync, 30)
            st = self.state_at_end = {
                "last": self.events[-1] if self.events else None,
                "modified": any(x in ("write", "truncate") for x in self.events),
                "unsynced": raw.unsynced,
                "late": 0,
            }
            before = raw.total
            if k == "ok" and not cfg.get("fault"):
                k2, e2 = real.outcome_of(f_dst.close, 30)
                st["late"] = raw.total - before
                if k2 != "ok":
                    self.kind, self.err = "close-" + k2, e2
            if self.sched is not None:
                left = self.sched.settle()
                self.left = [t for t in left if not t.daemon]
        finally:
            restore()
            for n, o in saved.items():
                setattr(os, n, o)
        return self.kind

    def fault_hit(self):
        return self._hit["v"]

    def in_mapped(self, x):
        if not self.items and self.cfg.get("nobmap"):
            return True
        return any(a <= x < b for a, b in self.areas)

    def dest_violations(self, msg):
        """Byte-for-byte comparison with what the bmap promises."""
        out = []
        N, real = self.N, self.real
        size = os.path.getsize(self.out)
        bdev = self.cfg.get("dest") == "bdev"
        if not bdev and size != N:
            out.append("%s: destination size %d, image size %d" % (msg, size, N))
        top = self.p.get("capacity") if bdev else max(size, N)
        marks = sorted({0, top, min(N, top), min(self.D0, top)} | {min(y, top) for a in self.areas for y in a})
        probes = real.probe_points(top, self.areas, (N, self.D0))
        for a, b in zip(marks, marks[1:]):
            for pa, pb in probes:
                s, e = max(a, pa), min(b, pb)
                while s < e and len(out) < 4:
                    n = min(e - s, 8 << 20)
                    got = real.read_at(self.out, s, n)
                    if s < N and self.in_mapped(s):
                        want = real.read_at(self.img, s, n)
                        what = "mapped"
                    elif bdev:
                        want = real.pattern(s, n, 7)
                        what = "outside the mapped blocks"
                    elif s >= N:
                        break
                    elif s < self.D0:
                        want = real.pattern(s, n, 7)
                        what = "unmapped"
                    else:
                        want = bytes(n)
                        what = "unmapped"
                    if got != want:
                        k = next(
                            (i for i in range(min(len(got), len(want))) if got[i] != want[i]),
                            min(len(got), len(want)),
                        )
                        out.append("%s: byte %d (%s) differs" % (msg, s + k, what))
                        break
                    s += n
        return out
