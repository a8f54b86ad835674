"""C26: every failure while generating a bmap is reported."""

import builtins
import errno
import fcntl
import io
import os
import tempfile

from symx import lib, real, world as W
from symx.values import And, Or, Not
from . import maplib as M
from .createlib import IMG, OUT, SymCreate, RealCreate, judge_text

BOUNDS = {
    "quick": "one failing operation (opening, inspecting, synchronising, asking for the block size or the mapping of, seeking in or "
    "reading the image; opening, writing, positioning, reading back or flushing the bmap; creating a temporary file) at any position among the first "
    "13 of its kind, as an I/O error, a full disk or running out of memory, and among the first 3 (5 of the writes) with every error that has a class of its own; both mapping methods; 0-2 data areas of up to 2 MiB, image size symbolic up to 64 GiB; "
    "by path, by file object and through the command line; an image of size zero, a directory, a missing image, unknown checksum types",
    "thorough": "as quick with up to 3 areas of 3 MiB and positions among the first 25",
}
OUTSIDE = "several failures in one run; a failure of closing the bmap after a successful flush; a failing standard output"
ASSUMPTIONS = ["a failing system call reports an error"]

HARD = ("image-read", "image-fsync", "image-open", "bmap-open", "bmap-write", "bmap-seek", "bmap-flush", "bmap-read")
SOFT = ("image-fstat", "image-ioctl", "image-lseek", "image-seek", "tempfile")
ERRS = {"io": errno.EIO, "full": errno.ENOSPC, "memory": "memory", "access": errno.EACCES}


def failure(err):
    return MemoryError() if err == "memory" else OSError(err, os.strerror(err))


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 1)
        k.setdefault("kb", 1)
        k.setdefault("max_size", 1 << 36)
        k.setdefault("last", 12)
        out.append(dict(k, name=name))

    for kind in HARD + SOFT:
        for via in ("api-path", "api-obj", "cli"):
            if via == "api-obj" and kind.endswith("-open"):
                continue
            for method in ("fiemap", "seek"):
                if kind in ("image-lseek", "tempfile") and method == "fiemap":
                    continue
                if kind.endswith("-open") and method == "seek":
                    continue
                add("%s-%s-%s" % (kind, via, method), fault=kind, via=via, method=method, err="access" if kind.endswith("-open") else "io")
    for via in ("api-path", "cli"):
        for kind in ("bmap-write", "bmap-flush"):
            add("%s-%s-full" % (kind, via), fault=kind, via=via, err="full", n=2, checksums=False)
        for kind in ("bmap-write", "image-read"):
            add("%s-%s-memory" % (kind, via), fault=kind, via=via, err="memory")
        for kind in HARD:
            if not kind.endswith("-open"):
                add("%s-%s-classes" % (kind, via), fault=kind, via=via, err="class", last=4 if kind == "bmap-write" else 2)
    add("read-long", fault="image-read", kb=2, n=2, bs=65536)
    add("write-none", fault="bmap-write", n=0)
    add("stdout-tempfile", fault="tempfile", via="cli-stdout", err="full")
    add("stdout-read", fault="image-read", via="cli-stdout")
    for via in ("api-path", "api-obj", "cli"):
        add("empty-%s" % via, bad="empty", via=via, n=0)
    for via in ("api-path", "cli", "cli-stdout"):
        add("missing-%s" % via, bad="missing", via=via, n=0)
        add("directory-%s" % via, bad="directory", via=via, n=0)
    add("nodir-api-path", bad="nodir", via="api-path")
    add("nodir-cli", bad="nodir", via="cli")
    for t in ("sha255", "none", "sha1 ", "shake_128"):
        add("type-%s" % t.strip(), bad="type", cs_name=t)
    if tier == "thorough":
        for kind in HARD + SOFT:
            for method in ("fiemap", "seek"):
                if not kind.endswith("-open"):
                    add("t-%s-%s" % (kind, method), fault=kind, n=3, kb=2, method=method, last=24, max_size=1 << 42)
    return out


class S(SymCreate):
    hit = False

    def __init__(self, c, cfg):
        super().__init__(c, cfg)
        w = self.w
        if cfg.get("bad") == "empty":
            self.img.size = self.N = 0
        elif cfg.get("bad") == "missing":
            del w.nodes[IMG]
        elif cfg.get("bad") == "directory":
            w.nodes[IMG] = W.DirNode(IMG)
        elif cfg.get("bad") == "nodir":
            w.on_create = self.no_dir
        for n in ("/proc/meminfo", "/proc/self/status"):
            w.add(n, W.TextNode(n, "MemTotal: 1 kB\n"))
        if not cfg.get("fault"):
            return
        which, _, op = cfg["fault"].partition("-")
        at = c.int("fault_at", 0, cfg["last"])
        if cfg.get("err") == "class":
            err = lib.CLASSED[c.choice("error_class", list(range(len(lib.CLASSED))))]
        else:
            err = ERRS[cfg.get("err", "io")]
        cnt = [0]
        names = {"image": IMG, "bmap": OUT}

        def hook(kind, f):
            if which == "tempfile":
                if kind != "tempfile":
                    return
            else:
                if kind != op:
                    return
                if isinstance(f, tuple):
                    f = f[0]
                if isinstance(f, (str, os.PathLike)):
                    if w.nodes.get(w.resolve(os.fspath(f)), f) is not w.nodes.get(names[which]) and w.resolve(os.fspath(f)) != names[which]:
                        return
                elif getattr(f, "node", None) is None or f.node is not w.nodes.get(names[which]):
                    return
            k = cnt[0]
            cnt[0] += 1
            if k <= cfg["last"] and at == k:
                self.hit = True
                raise failure(err)

        w.fault_hook = hook

    def no_dir(self, path, mode):
        if path == OUT:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)


class FImage(io.BufferedReader):
    def __init__(self, path, size, trip):
        super().__init__(io.FileIO(path, "r"), size)
        self.trip = trip

    def read(self, *a):
        self.trip("image-read")
        return super().read(*a)

    def read1(self, *a):
        self.trip("image-read")
        return super().read1(*a)

    def readinto(self, *a):
        self.trip("image-read")
        return super().readinto(*a)

    def seek(self, *a):
        self.trip("image-seek")
        return super().seek(*a)


class FBmap(io.TextIOWrapper):
    inner = False

    def __init__(self, path, trip):
        super().__init__(io.BufferedRandom(io.FileIO(path, "wb+")), encoding="utf-8", newline="\n")
        self.trip = trip
        self._path = path

    @property
    def name(self):
        return self._path

    def _do(self, kind, fn, *a):
        if self.inner:
            return fn(*a)
        self.trip(kind)
        self.inner = True
        try:
            return fn(*a)
        finally:
            self.inner = False

    def read(self, *a):
        return self._do("bmap-read", super().read, *a)

    def seek(self, *a):
        return self._do("bmap-seek", super().seek, *a)

    def tell(self, *a):
        return self._do("bmap-tell", super().tell, *a)

    def write(self, *a):
        return self._do("bmap-write", super().write, *a)

    def flush(self, *a):
        return self._do("bmap-flush", super().flush, *a)

    def close(self):
        self.inner = True
        super().close()


class R(RealCreate):
    hit = False

    def __init__(self, cfg, p, d):
        super().__init__(cfg, p, d)
        bad = cfg.get("bad")
        if bad == "empty":
            self.N = 0
            os.truncate(self.path, 0)
        elif bad in ("missing", "directory"):
            os.remove(self.path)
            if bad == "directory":
                os.mkdir(self.path)
        elif bad == "nodir":
            self.out = os.path.join(d, "nothing", "out.bmap")

    def go(self):
        cfg = self.cfg
        if not cfg.get("fault"):
            return super().go()
        at = self.p.get("fault_at", 0)
        if cfg.get("err") == "class":
            err = lib.CLASSED[self.p.get("error_class", 0)]
        else:
            err = ERRS[cfg.get("err", "io")]
        cnt = [0]

        def trip(kind):
            if kind != cfg["fault"]:
                return
            k = cnt[0]
            cnt[0] += 1
            if k == at:
                self.hit = True
                raise failure(err)

        img, out = self.path, self.out

        def is_image(fd):
            try:
                fd = fd if isinstance(fd, int) else fd.fileno()
                return os.readlink("/proc/self/fd/%d" % fd) == img
            except (OSError, AttributeError):
                return False

        o_open, o_ioctl = builtins.open, fcntl.ioctl
        o_fstat, o_fsync, o_lseek = os.fstat, os.fsync, os.lseek
        o_tmp = {n: getattr(tempfile, n) for n in ("TemporaryFile", "NamedTemporaryFile")}

        def f_open(name, mode="r", buffering=-1, *a, **k):
            if isinstance(name, (str, os.PathLike)):
                if os.fspath(name) == img and "r" in mode and "b" in mode:
                    trip("image-open")
                    size = self.bufsz or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
                    return FImage(img, size, trip)
                if os.fspath(name) == out and "w" in mode:
                    trip("bmap-open")
                    return FBmap(out, trip)
            return o_open(name, mode, buffering, *a, **k)

        def wrap(kind, fn):
            def f(fd, *a, **k):
                if is_image(fd):
                    trip(kind)
                return fn(fd, *a, **k)

            return f

        def f_lseek(fd, off, whence):
            if whence in (3, 4) and is_image(fd):
                trip("image-lseek")
            return o_lseek(fd, off, whence)

        def f_tmp(name):
            def f(*a, **k):
                trip("tempfile")
                return o_tmp[name](*a, **k)

            return f

        # below the stand-ins for the kernel
        kern = self.kern

        class K(M.RealKernel):
            def ioctl(s, fd, req, arg=0, mutate=True):
                if is_image(fd):
                    trip("image-ioctl")
                return super().ioctl(fd, req, arg, mutate)

            def lseek(s, fd, off, whence):
                if whence in (3, 4) and is_image(fd):
                    trip("image-lseek")
                return super().lseek(fd, off, whence)

        k = K.__new__(K)
        k.__dict__.update(kern.__dict__)
        self.kern = k
        import sys

        patched = []
        real.mod("BmapCreate")
        new = {o_fstat: wrap("image-fstat", o_fstat), o_fsync: wrap("image-fsync", o_fsync)}
        for n in o_tmp:
            new[o_tmp[n]] = f_tmp(n)
        for name, m in list(sys.modules.items()):
            if name.startswith("bmaptools"):
                for key, v in list(vars(m).items()):
                    if callable(v) and v.__hash__ and v in new:
                        setattr(m, key, new[v])
                        patched.append((m, key, v))
        builtins.open = io.open = f_open
        os.fstat, os.fsync = new[o_fstat], new[o_fsync]
        for n in o_tmp:
            setattr(tempfile, n, new[o_tmp[n]])
        try:
            if cfg.get("via") == "api-obj":
                return self.by_object(trip)
            return super().go()
        finally:
            builtins.open = io.open = o_open
            os.fstat, os.fsync = o_fstat, o_fsync
            for n in o_tmp:
                setattr(tempfile, n, o_tmp[n])
            for m, key, v in patched:
                setattr(m, key, v)

    def by_object(self, trip):
        cfg = self.cfg
        with self.kern:
            m = real.mod("BmapCreate")
            self.Error = m.Error
            self.f_image = FImage(self.path, self.bufsz or io.DEFAULT_BUFFER_SIZE, trip)
            self.f_out = FBmap(self.out, trip)
            cr = m.BmapCreate(self.f_image, self.f_out, cfg.get("cs_name") or cfg.get("cs_type", "sha256"))
            self.creator = cr
            cr.generate(cfg.get("checksums", True))


def scenario(s):
    cfg = s.cfg
    good = s.run()
    s.check(s.kind != "hang", "generation does not come to an end")
    if cfg.get("bad"):
        s.check(not good, "generation succeeds although it cannot (%s)" % cfg["name"])
        s.check("</bmap>" not in (s.text() or ""), "a bmap was produced although it cannot be right (%s)" % cfg["name"])
        return
    if not s.hit:
        s.check(good, "failed although nothing went wrong: %s: %s" % (s.kind, s.err))
        return
    if good and cfg["fault"] in HARD:
        s.check(False, "a failing %s is not reported" % cfg["fault"].replace("-", " "))
    elif good:
        # another way was found: the result has to be right all the same
        judge_text(s, s.text())


def harness(c, cfg):
    scenario(S(c, cfg))


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    scenario(s)
    return {"outcome": s.kind, "violations": s.v, "err": str(s.err)[:300]}
