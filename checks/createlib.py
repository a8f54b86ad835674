"""Scenarios around bmap generation: symbolic set-up and concrete replay."""

import hashlib
import io
import os
import re
import sys
import tempfile

from xml.etree import ElementTree

from symx import core, lib, real, values, world as W
from symx.values import And, Or, Not, Implies, SymInt, imin, imax
from . import maplib as M

IMG, OUT = "/work/img.raw", "/work/out.bmap"


class DirtyFile(W.DataFile):
    """The caller's image file object with data which is not written out yet."""

    dirty = True

    def flush(self):
        super().flush()
        if self.dirty:
            self.dirty = False
            self.node.size = self.full

    def read(self, n=-1):
        self.flush()
        return super().read(n)

    read1 = read

    def readinto(self, v):
        self.flush()
        return super().readinto(v)

    readinto1 = readinto

    def seek(self, *a):
        self.flush()
        return super().seek(*a)


def many(cfg):
    """More data areas than fit any buffer."""
    return [(2 * i, 1) for i in range(cfg["many"])]


class SymCreate:
    """cfg: dirty (file object with unwritten data at its end), bs, n (data areas), kb (1 MiB batches per area, for checksums),
    method fiemap|seek, gran (granularity of the areas: 'blocks' or 'bytes'),
    via api-path|api-obj|cli|cli-stdout, cs_type, checksums (bool), bufsz,
    max_size, exact (exact widths of numbers), late."""

    symbolic = True

    def __init__(self, c, cfg, w=None):
        self.c, self.cfg = c, cfg
        self.w = w = w or W.World(c)
        bs = self.bs = cfg["bs"]
        c.exact_width = bool(cfg.get("exact"))
        if not cfg.get("exact"):
            w.summarise_human_size()
        N = self.N = c.int("size", cfg.get("min_size", 1), cfg.get("max_size", 1 << 42))
        self.blocks = (N + bs - 1) // bs
        self.img = w.add(IMG, W.DataNode(IMG, N))
        self.img.bsz_ioctl = bs
        if cfg.get("no_figetbsz"):
            self.img.bsz_ioctl = None
            self.img.blksize = bs
        self.img.bufsz = cfg.get("bufsz") or bs
        n = cfg["n"]
        cs = cfg.get("checksums", True)
        lim = max(1, (cfg.get("kb", 1) << 20) // bs) if cs else max(1 << 40, cfg.get("max_size", 0))
        seek = cfg.get("method") == "seek"
        if cfg.get("gran") == "bytes":
            self.segs = M.sym_segs(c, n, N, lim * bs)
            ext = []
            self.areas = [(s // bs, (e - 1) // bs) for s, e in self.segs]
        elif cfg.get("many"):
            b = many(cfg)
            c.assume(N > b[-1][0] * bs)
            ext = [(f * bs, l * bs) for f, l in b]
            self.segs = ext
            self.areas = [(f, f + l - 1) for f, l in b]
        else:
            b = M.sym_extents(c, n, bs, limit=max(1 << 40, cfg.get("max_size", 0)))
            for f, l in b:
                c.assume(l <= lim)
            if cfg.get("from0"):
                c.assume(b[0][0] == 0)
            if n:
                c.assume(b[-1][0] + b[-1][1] <= self.blocks)
                if cfg.get("tail"):
                    c.assume(b[-1][0] + b[-1][1] == self.blocks)
            if seek:
                for (f, l), (f2, _) in zip(b, b[1:]):
                    c.assume(f2 > f + l)
            ext = [(f * bs, l * bs) for f, l in b]
            self.segs = [(s, imin(s + l, N)) for s, l in ext]
            self.areas = [(f, f + l - 1) for f, l in b]
        self.kern = M.Kernel(w, self.img, ext, self.segs)
        if seek:
            self.kern.fiemap = 95
        w.popen = M.df_proc()
        self.status = None

    def covered(self, b):
        bs = self.bs
        return Or(*[And(s < (b + 1) * bs, e > b * bs) for s, e in self.segs]) if self.segs else False

    def go(self):
        w, c, cfg = self.w, self.c, self.cfg
        via = cfg.get("via", "api-path")
        if via.startswith("cli"):
            args = ["bmaptool", "create", IMG]
            if not cfg.get("checksums", True):
                args.insert(2, "--no-checksum")
            if via == "cli":
                args += ["-o", OUT]
            w.argv[:] = args
            c.extra["sysmodules"] = w.loader.modules
            w.loader.stubs["sys"].__dict__["modules"] = w.loader.modules
            old, err = sys.argv, sys.stderr
            sys.argv, sys.stderr = args, io.StringIO()
            try:
                r = w.mod("CLI").main()
                if r:
                    raise SystemExit(r)
            finally:
                sys.argv, sys.stderr = old, err
            return
        m = w.mod("BmapCreate")
        self.Error = m.Error
        image = IMG
        if via == "api-obj":
            image = w.open(IMG, "rb", cfg.get("bufsz") or -1)
            if cfg.get("at"):
                image.read(cfg["at"])
            if cfg.get("dirty"):
                image = DirtyFile(w, self.img, IMG, "rb+")
                image.bufsz = 1 << 17
                image.full = self.N
                self.img.size = c.int("flushed", 0, cfg["max_size"])
                c.assume(self.img.size <= self.N)
                image.pos = self.N
        out = OUT
        if via == "api-obj":
            out = w.open(OUT, "w+")
            w.nodes[OUT].log = self.log = []
            self.f_out = out
        self.f_image = image
        cr = m.BmapCreate(image, out, cfg.get("cs_name") or cfg.get("cs_type", "sha256"))
        self.creator = cr
        cr.generate(cfg.get("checksums", True))

    def run(self):
        kind, e = lib.outcome_of(self.go)
        self.kind, self.err = kind, e
        self.good = kind in ("ok", "exit0")
        if not self.cfg.get("via", "api-path").startswith("cli"):
            self.clear = hasattr(self, "Error") and isinstance(e, self.Error)
        else:
            self.clear = kind.startswith("exit")
        self.c.extra["outcome"] = kind
        return self.good

    def text(self):
        if self.cfg.get("via") == "cli-stdout":
            return self.w.stdout.text()
        n = self.w.nodes.get(OUT)
        return n.text() if n is not None else None

    def num(self, t):
        v = values.parse_sentinel(t)
        if v is not None:
            return v
        return int(t)

    def check(self, cond, msg):
        self.c.check(cond, msg)

    def digest_ok(self, tok, f, l, algo):
        bs, src = self.bs, self.img.src
        end = imin((l + 1) * bs, self.N)
        for h in self.w.hash_facts:
            if h.token == tok and h.algo == algo:
                r = W.same_range(h.pieces, [("s", src, f * bs, end - f * bs)])
                return False if r is None else r
        return False

    def any_block(self):
        b = self.c.int("b")
        self.c.assume(b >= 0)
        self.c.assume(b < self.blocks)
        return b


class RealCreate:
    symbolic = False

    def __init__(self, cfg, p, d):
        self.cfg, self.p, self.d = cfg, p, d
        self.v = []
        bs = self.bs = cfg["bs"]
        N = self.N = p["size"]
        self.blocks = (N + bs - 1) // bs
        self.path = os.path.join(d, "img.raw")
        self.tmp = None
        if N >= 1 << 43:
            # larger than a file of ext4 can be
            self.tmp = tempfile.TemporaryDirectory(dir="/dev/shm")
            self.path = os.path.join(self.tmp.name, "img.raw")
        self.out = os.path.join(d, "out.bmap")
        n = cfg["n"]
        if cfg.get("gran") == "bytes":
            self.segs = M.conc_segs(p, n)
            ext = []
        else:
            b = many(cfg) if cfg.get("many") else M.conc_extents(p, n)
            ext = [(f * bs, l * bs) for f, l in b]
            self.segs = [(s, min(s + l, N)) for s, l in ext]
        self.areas = [(s // bs, (e - 1) // bs) for s, e in self.segs]
        with open(self.path, "wb") as f:
            f.truncate(N)
            for s, e in self.segs if not cfg.get("many") else ():
                # (an area without checksums may be huge: only its ends)
                if e - s <= 64 << 20:
                    real.write_pattern(f, s, e - s)
                else:
                    real.write_pattern(f, s, 65536)
                    real.write_pattern(f, e - 65536, 65536)
        real.apply_fills(self.path, p)
        self.kern = M.RealKernel(self.path, ext, self.segs)
        if cfg.get("method") == "seek":
            self.kern.fiemap = 95
        self.kern.bsz = bs
        self.bufsz = cfg.get("bufsz")

    def covered(self, b):
        bs = self.bs
        return any(s < (b + 1) * bs and e > b * bs for s, e in self.segs)

    def go(self):
        cfg = self.cfg
        via = cfg.get("via", "api-path")
        with self.kern:
            if via.startswith("cli"):
                args = ["bmaptool", "create", self.path]
                if not cfg.get("checksums", True):
                    args.insert(2, "--no-checksum")
                if via == "cli":
                    args += ["-o", self.out]
                sys.argv = args
                sys.stdout = self.buf
                sys.stderr = io.StringIO()
                r = real.mod("CLI").main()
                if r:
                    raise SystemExit(r)
                return
            m = real.mod("BmapCreate")
            self.Error = m.Error
            image, out = self.path, self.out
            if via == "api-obj":
                image = open(self.path, "rb", cfg.get("bufsz") or -1)
                if cfg.get("at"):
                    image.read(cfg["at"])
                if cfg.get("dirty"):
                    n = self.p.get("flushed", 0)
                    rest = real.read_at(self.path, n, self.N - n)
                    image = open(self.path, "rb+", 1 << 17)
                    image.truncate(n)
                    image.seek(n)
                    image.write(rest)
                out = Recorder(self.out)
                self.log = out.log
                self.f_out = out
            self.f_image = image
            cr = m.BmapCreate(image, out, cfg.get("cs_name") or cfg.get("cs_type", "sha256"))
            self.creator = cr
            cr.generate(cfg.get("checksums", True))

    def run(self):
        import builtins
        import logging

        old = M.fake_df(self.d, "ext4")
        so, se, sa = sys.stdout, sys.stderr, sys.argv
        root = logging.getLogger()
        handlers = list(root.handlers)
        self.buf = io.StringIO()
        o_open = builtins.open
        path, bufsz = self.path, self.bufsz

        def my_open(name, mode="r", buffering=-1, *a, **k):
            if name == path and mode == "rb" and buffering == -1 and bufsz:
                buffering = bufsz
            return o_open(name, mode, buffering, *a, **k)

        builtins.open = my_open
        try:
            kind, e = real.outcome_of(self.go)
        finally:
            builtins.open = o_open
            sys.stdout, sys.stderr, sys.argv = so, se, sa
            os.environ["PATH"] = old
            root.handlers[:] = handlers
        self.kind, self.err = kind, e
        self.good = kind in ("ok", "exit0")
        if not self.cfg.get("via", "api-path").startswith("cli"):
            self.clear = hasattr(self, "Error") and isinstance(e, self.Error)
        else:
            self.clear = kind.startswith("exit")
        return self.good

    def text(self):
        if self.cfg.get("via") == "cli-stdout":
            return self.buf.getvalue()
        if not os.path.exists(self.out):
            return None
        with open(self.out) as f:
            return f.read()

    def num(self, t):
        return int(t)

    def check(self, cond, msg):
        if not cond:
            self.v.append(msg)

    def digest_ok(self, tok, f, l, algo):
        a = f * self.bs
        b = min((l + 1) * self.bs, self.N)
        return tok == real.digest_of(self.path, a, b - a, algo)

    def any_block(self):
        return self.p.get("b", 0)


class Recorder(io.TextIOWrapper):
    """A real text file that remembers what was written where."""

    def __init__(self, path):
        super().__init__(open(path, "wb+"), encoding="utf-8", newline="\n")
        self.log = []
        self._path = path

    @property
    def name(self):
        return self._path

    def write(self, s):
        self.flush()
        self.log.append((self.tell(), s))
        return super().write(s)


def judge_text(s, text):
    """The generated bmap describes the image truthfully."""
    cfg, check = s.cfg, s.check
    algo = hashlib.new(cfg.get("cs_type", "sha256")).name
    if text is None:
        check(False, "no bmap was written")
        return
    try:
        root = ElementTree.fromstring(text.encode())
    except ElementTree.ParseError as e:
        check(False, "the bmap is not well-formed: %s" % e)
        return
    check(root.tag == "bmap" and root.attrib.get("version", "").split(".")[0] == "2", "wrong version of the format")

    def field(n):
        e = root.findall(n)
        if len(e) != 1 or e[0].text is None:
            check(False, "the field %s is missing" % n)
            return 0
        try:
            return s.num(e[0].text.strip())
        except ValueError:
            check(False, "the field %s is not a number: %r" % (n, e[0].text))
            return 0

    check(field("ImageSize") == s.N, "wrong image size")
    check(field("BlockSize") == s.bs, "wrong block size")
    check(field("BlocksCount") == s.blocks, "wrong block count")
    mapped = field("MappedBlocksCount")
    ty = root.find("ChecksumType")
    check(ty is not None and (ty.text or "").strip() == algo, "wrong checksum type")
    own = root.find("BmapFileChecksum")
    own = (own.text or "").strip() if own is not None else ""
    n = len(hashlib.new(algo).hexdigest())
    ok = len(own) == n and text.count(own) >= 1
    if ok:
        ok = hashlib.new(algo, text.replace(own, "0" * n, 1).encode()).hexdigest() == own
    check(ok, "the checksum of the bmap itself is wrong")
    rs = []
    prev = None
    total = 0
    order = []
    bm = root.find("BlockMap")
    if bm is None:
        check(False, "no block map")
        return
    for e in bm.findall("Range"):
        t = (e.text or "").strip()
        f, _, l = t.partition("-")
        try:
            f = s.num(f.strip())
            l = s.num(l.strip()) if l else f
        except ValueError:
            check(False, "bad range %r" % t)
            return
        order += [f <= l, f >= 0, l < s.blocks]
        if prev is not None:
            order.append(f > prev)
        prev = l
        total = total + (l - f + 1)
        rs.append((f, l))
        tok = e.attrib.get("chksum")
        if cfg.get("checksums", True):
            check(tok is not None, "a range has no checksum")
            if tok is not None:
                check(s.digest_ok(tok, f, l, algo), "a range checksum is not the digest of the range")
        else:
            check(not e.attrib, "a range has a checksum although none was requested")
    check(And(*order) if order else True, "the ranges are not increasing, disjoint and inside the image")
    check(mapped == total, "wrong count of mapped blocks")
    if cfg.get("many"):
        check(rs == s.areas, "the ranges are not the data areas")
        return rs
    b = s.any_block()
    inside = Or(*[And(b >= f, b <= l) for f, l in rs]) if rs else False
    cov = s.covered(b)
    check(Implies(cov, inside), "a mapped block is missing")
    check(Implies(inside, cov), "an unmapped block is listed")
    return rs
