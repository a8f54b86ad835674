"""Scenarios driven through the command line entry point.

A scenario is written once against an environment interface; SymEnv runs it on
the symbolic executor, RealEnv on real files with the un-instrumented code."""

import builtins
import contextlib
import errno
import hashlib
import io
import logging
import os
import stat
import sys
import types

from symx import core, lib, real, values, world as W
from symx.buffers import filled
from symx.values import And, Or, Not, Implies, If, SymInt, SymBool
from . import maplib as M

RDEV = os.makedev(250, 7)


def failure(err):
    if err == "interrupt":
        return KeyboardInterrupt()
    return MemoryError() if err == "memory" else OSError(err, os.strerror(err))


class GpgError(Exception):
    def getstring(self):
        return "General error"

    def __getitem__(self, i):
        return ("", "", "General error")[i]


class BadSigs(Exception):
    pass


def contents(x):
    """What gpg is given: an open file, or bytes."""
    if x is None:
        return None
    if hasattr(x, "read"):
        x = x.read()
    return x if isinstance(x, str) else bytes(x).decode("utf-8", "replace")


def gpg_module(verdict):
    """A stand-in for the gpg module.  verdict(data, sig) gets the contents and
    returns 'bad', 'error' or the list of signature summaries."""

    class Sig:
        def __init__(self, summary, n):
            self.summary = summary
            self.fpr = "%040X" % (0xABC + n)
            self.status = 0
            self.exp_timestamp = 0
            self.timestamp = 1
            self.validity = 0

    class Context:
        def __init__(self, **k):
            pass

        def verify(self, signed_data, signature=None, sink=None, verify=[]):
            r = verdict(contents(signed_data), contents(signature))
            if r == "error":
                raise GpgError("failed")
            if r == "bad":
                raise BadSigs("bad signature")
            sigs = [Sig(s, i) for i, s in enumerate(r)]
            return (None, types.SimpleNamespace(signatures=sigs))

        def get_key(self, fpr, secret=False):
            uid = types.SimpleNamespace(name="Some One", email="a@b.c")
            return types.SimpleNamespace(uids=[uid])

        def set_engine_info(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    m = types.ModuleType("gpg")
    m.Context = Context
    m.core = types.SimpleNamespace(Context=Context)
    m.constants = types.SimpleNamespace(
        SIGSUM_VALID=1,
        SIGSUM_GREEN=2,
        SIGSUM_RED=4,
        SIGSUM_KEY_REVOKED=0x10,
        SIGSUM_KEY_EXPIRED=0x20,
        SIGSUM_SIG_EXPIRED=0x40,
        SIGSUM_KEY_MISSING=0x80,
        SIGSUM_SYS_ERROR=0x800,
        sigsum=types.SimpleNamespace(VALID=1, GREEN=2, RED=4),
    )
    m.errors = types.SimpleNamespace(
        GPGMEError=GpgError, BadSignatures=BadSigs, NO_ERROR=0, GpgError=GpgError
    )
    return m


def bmap_digest(tag, algo="sha256"):
    return W.hash_hex(algo, tag.encode())


class SymEnv:
    symbolic = True

    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.base = "/work"
        self.w = W.World(c, cfg.get("policy", "eager"))
        self.w.summarise_human_size()
        self.w.exec_files.update("/usr/bin/" + x for x in cfg.get("tools", ()))
        self.dests = {}
        self.verified = []
        self.fault_hit = False
        self.urls = {}
        self.w.urlopen = self.urlopen

    def path(self, rel):
        return rel if rel.startswith("/") or "://" in rel else self.base + "/" + rel

    # inputs
    def int(self, name, lo, hi):
        return self.c.int(name, lo, hi)

    def flag(self, name):
        return self.c.flag(name)

    def boolean(self, name):
        return self.c.bool(name)

    def choice(self, name, options):
        return self.c.choice(name, options)

    def assume(self, cond):
        self.c.assume(cond)

    # files
    def urlopen(self, url, opener, timeout):
        from .translib import Resp

        n = self.urls.get(url)
        if n is None:
            import urllib.error

            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        if isinstance(n, W.TextNode):
            return Resp(W.TextFile(self.w, n, "<response>", "rb"))
        return Resp(W.PipeReader(self.w, W.DataNode("<response>", n.size, n.src), "<response>"))

    def image(self, rel, size):
        if "://" in rel:
            n = self.urls[rel] = W.DataNode(rel, size)
            return n
        n = self.w.add(self.path(rel), W.DataNode(self.path(rel), size))
        return n

    def packed(self, rel, raw):
        """A compressed image, standing for 'raw'."""
        size = self.c.int("packed_size", 1, 1 << 30)
        n = W.DataNode(self.path(rel), size)
        n.raw = raw
        self.w.add(self.path(rel), n)
        env = self

        def popen(info):
            f = env.w.fds.get(info["stdin"]) if isinstance(info["stdin"], int) else None
            src = f.node if f is not None else None
            r = getattr(src, "raw", None)
            if r is None:
                env.c.cut("a process on something else than a packed image")
            p = W.PipeReader(env.w, W.DataNode("<pipe>", r.size, r.src), "<pipe>")
            return W.Proc(0, stdout=p)

        self.w.popen = popen
        return n

    def text(self, rel, content):
        if "://" in rel:
            n = self.urls[rel] = W.TextNode(rel, content)
            return n
        return self.w.add(self.path(rel), W.TextNode(self.path(rel), content))

    def shm(self):
        """A scratch directory under /dev."""
        self.w.add("/dev/shm/scratch", W.DirNode("/dev/shm/scratch"))
        return "/dev/shm/scratch"

    def directory(self, rel):
        return self.w.add(self.path(rel), W.DirNode(self.path(rel)))

    def bmap(self, rel, img, size, bs, rows, version="2.0", selfsum=True, mapped=None):
        """rows: [(first, last, ok)] ok: None (no checksum), or whether it matches."""
        out = []
        algo = lib.algo_of(version)
        for i, (f, l, ok) in enumerate(rows):
            tok = None
            if ok is not None and algo:
                tok = W.hash_hex(algo, ("%s-%d" % (rel, i)).encode())
                a = f * bs
                b = values.imin((l + 1) * bs, size)
                self.w.hash_facts.append(W.Fact(algo, [("s", img.src, a, b - a)], tok, ok))
            out.append((f, l, tok, False))
        blocks = (size + bs - 1) // bs
        if mapped is None:
            mapped = 0
            for f, l, ok in rows:
                mapped = mapped + (l - f + 1)
        t = lib.bmap_text(version, size, bs, blocks, mapped, out, selfsum=selfsum)
        return self.text(rel, t)

    def dest(self, rel, kind="reg", size=0, capacity=None, busy=False):
        p = self.path(rel)
        if kind == "bdev":
            n = W.SinkNode(p, bdev=True, capacity=capacity, rdev=RDEV)
            n.size0 = capacity
            n.tight = True
        else:
            n = W.SinkNode(p, size)
        n.busy = busy

        def err(mode):
            if isinstance(mode, int) and mode & os.O_EXCL and n.busy:
                return errno.EBUSY
            return 0

        n.open_error = err
        self.w.add(p, n)
        self.dests[rel] = n
        return n

    def gpg(self, verdict):
        self.w.loader.stubs["gpg"] = gpg_module(verdict)

    def mapping(self, img, size, bs, rows, method="fiemap"):
        """What the kernel answers about an image: data in the blocks of rows."""
        img.bsz_ioctl = bs
        ext = [(f * bs, (l - f + 1) * bs) for f, l in rows]
        segs = [(a, values.imin(a + n, size)) for a, n in ext]
        k = M.Kernel(self.w, img, ext, segs)
        if method != "fiemap":
            k.fiemap = errno.EOPNOTSUPP
        if method == "none":
            k.seek = errno.EINVAL
        self.w.popen = M.df_proc()

    def refuse(self, rel, err):
        """Opening this file fails."""
        self.w.nodes.pop(self.path(rel), None)
        target = self.path(rel)

        def hook(kind, f):
            if kind == "open" and f[0] == target:
                raise OSError(err, os.strerror(err), target)

        self.w.fault_hook = hook

    def refuse_temp(self, err):
        def hook(kind, f):
            if kind == "tempfile":
                raise OSError(err, os.strerror(err))

        self.w.fault_hook = hook

    def terminal(self, out, err):
        self.w.stdout.tty, self.w.stderr.tty = out, err

    def stderr(self):
        return self.w.stderr.text()

    def splash(self, rel):
        """A splash screen's pipe; the lines it gets are in self.lines."""
        n = W.TextNode(self.path(rel), "")
        n.mode = stat.S_IFIFO | 0o644
        self.lines = []
        n.on_write = lambda t: self.lines.append(t if isinstance(t, str) else bytes(t).decode())
        self.w.add(self.path(rel), n)

    def splash_text(self):
        return "".join(str(x) for x in self.lines)

    def proc_files(self):
        for n in ("/proc/meminfo", "/proc/self/status"):
            self.w.add(n, W.TextNode(n, "MemTotal: 1 kB\n"))

    def content(self, rel):
        n = self.urls.get(rel) or self.w.nodes.get(self.path(rel))
        return n.text() if n is not None else None

    def inputs(self):
        return {p: n for p, n in self.w.nodes.items() if isinstance(n, (W.DataNode, W.TextNode)) and not getattr(n, "temp", False)}

    def protect(self):
        """Nothing that is there may be opened for writing."""

        def err(mode):
            if mode & os.O_ACCMODE if isinstance(mode, int) else any(x in mode for x in "wax+"):
                return errno.EACCES
            return 0

        for n in self.inputs().values():
            n.open_error = err

    def snapshot(self):
        self.before = {p: (n, getattr(n, "content", None)) for p, n in self.inputs().items()}

    def check_inputs(self, outputs, msg):
        """Nothing but the outputs was changed, removed or created."""
        w = self.w
        w.publish()
        gone, changed = [], []
        for p, (n, content) in self.before.items():
            if w.nodes.get(p) is not n:
                gone.append(p)
            elif getattr(n, "harmed", None) or content != getattr(n, "content", None):
                changed.append(p)
        new = [
            p
            for p, n in w.nodes.items()
            if p not in self.before
            and p not in [self.path(x) for x in outputs]
            and isinstance(n, (W.DataNode, W.TextNode, W.SinkNode))
            and not (getattr(n, "temp", False) and not n.keep)
        ]
        self.c.check(not gone, "%s: an input file is gone" % msg)
        self.c.check(not changed, "%s: an input file was altered" % msg)
        self.c.check(not new, "%s: a file is left behind" % msg)

    def num(self, t):
        v = values.parse_sentinel(t)
        return int(t) if v is None else v

    def fault(self, kind, rel, at, err=errno.EIO):
        """The at-th operation of this kind on a destination fails."""
        node = lambda: self.w.nodes.get(self.path(rel))
        cnt = {"n": 0}

        def hook(op, f):
            n = getattr(f, "node", None)
            if op != kind or n is None or n is not node():
                return
            k = cnt["n"]
            cnt["n"] += 1
            if k > 6:
                return
            if at == k:
                self.fault_hit = True
                raise failure(err)

        self.w.fault_hook = hook

    def _sys(self):
        w = self.w
        return w.loader

    def call(self, fn):
        """A use of the modules by a program: fn(module, open)."""
        return self.main([], lambda: fn(self.w.mod, self.w.open))

    def main(self, argv, call=None):
        w, c = self.w, self.c
        old = sys.argv
        self.snapshot()
        args = ["bmaptool"] + [self.path(a[1:]) if a.startswith("@") else a for a in argv]
        w.argv[:] = args
        c.extra["sysmodules"] = w.loader.modules
        w.loader.stubs["sys"].__dict__["modules"] = w.loader.modules
        err = sys.stderr

        def body():
            self.ret = (call or w.mod("CLI").main)()

        sys.argv = args
        sys.stderr = io.StringIO()
        try:
            k, e = lib.outcome_of(body)
        finally:
            sys.argv = old
            sys.stderr = err
        self.err = e
        if k == "ok":
            self.status = self.ret or 0
        elif k.startswith("exit"):
            code = e.code
            self.status = 0 if code in (None, 0) else code if isinstance(code, int) else 1
        elif k == "hang":
            self.status = "hang"
        else:
            self.status = 1
            self.uncaught = k
        c.extra["outcome"] = "status %s" % self.status
        # the process ends: its files are closed
        if self.status == 0 or True:
            for f in list(w.fds.values()):
                if isinstance(f, W.SinkFile) and not f.closed:
                    try:
                        f.close()
                    except OSError:
                        pass
        return self.status

    # oracles
    def check(self, cond, msg):
        self.c.check(cond, msg)

    def written(self, rel):
        n = self.w.nodes.get(self.path(rel))
        if n is None or not isinstance(n, W.SinkNode):
            return False
        return any(op[0] == "w" for op in n.ops)

    def exists(self, rel):
        return self.path(rel) in self.w.nodes

    def synced(self, rel):
        n = self.w.nodes[self.path(rel)]
        mods = [i for i, op in enumerate(n.ops) if op[0] != "s"]
        syncs = [i for i, op in enumerate(n.ops) if op[0] == "s"]
        return not mods or (bool(syncs) and syncs[-1] > mods[-1])

    def check_copied(self, rel, img, size, bs, rows, msg, old=0, capacity=None):
        """rows None: everything is mapped."""
        n = self.w.nodes.get(self.path(rel))
        if n is None or not isinstance(n, W.SinkNode):
            self.c.fail(msg + ": there is no destination")
            return
        c = self.c
        x = c.int("x", 0)
        t = SymInt(n.tag(x))
        inside = x < size
        if rows is None:
            mapped = True
        else:
            mapped = Or(*[And(x >= r[0] * bs, x < (r[1] + 1) * bs) for r in rows]) if rows else False
        zero = And(filled(x, img.src), t == -3)
        c.check(Implies(And(inside, mapped), Or(t == x, zero)), msg + ": a mapped byte is not the image's")
        if capacity is not None:
            c.check(
                Implies(And(x < capacity, Or(Not(inside), Not(mapped))), t == -1),
                msg + ": a byte outside the mapped blocks was modified",
            )
        else:
            c.check(Implies(Not(inside), t == -2), msg + ": destination longer than the image")
            # (the command line truncates the destination when opening it)
            c.check(
                Implies(And(inside, Not(mapped)), t == -3),
                msg + ": an unmapped byte is not zero",
            )

    def messages(self, *levels):
        return [m.text() for m in self.w.msgs if not levels or m.level in levels]

    def stdout(self):
        return self.w.stdout.text()


class RealEnv:
    symbolic = False

    def __init__(self, cfg, p, d):
        self.cfg, self.p, self.d = cfg, p, d
        self.base = os.path.join(d, "work")
        os.makedirs(self.base, exist_ok=True)
        self.v = []
        self.meta = {}
        self.gpgmod = None
        self.have_gpg = False
        self.log = []
        self.sync_state = {}
        self.urls = {}

    shmdir = None

    def shm(self):
        import tempfile

        self.shmdir = tempfile.TemporaryDirectory(dir="/dev/shm")
        return self.shmdir.name

    def path(self, rel):
        if rel.startswith("/dev/shm/"):
            return rel
        if rel.startswith("/dev/"):
            return os.path.join(self.d, "dev_" + rel[5:].replace("/", "_"))
        return rel if rel.startswith("/") or "://" in rel else self.base + "/" + rel

    def int(self, name, lo, hi):
        return self.p.get(name, lo)

    def flag(self, name):
        return bool(self.p.get(name, False))

    boolean = flag

    def choice(self, name, options):
        options = list(range(options)) if isinstance(options, int) else list(options)
        if len(options) == 1:
            return options[0]
        return options[self.p.get(name, 0)]

    def assume(self, cond):
        pass

    def local(self, rel):
        """The local file which is served for an URL."""
        if "://" in rel:
            self.urls.setdefault(rel, os.path.join(self.d, "served%d" % len(self.urls)))
            return self.urls[rel]
        return self.path(rel)

    def image(self, rel, size, areas=()):
        p = self.local(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        real.make_image(p, size, self.p.get("_areas", areas) or [(0, min(size, 1 << 20))])
        real.apply_fills(p, self.p)
        return types.SimpleNamespace(path=p, size=size, areas=areas)

    def packed(self, rel, raw):
        import gzip
        import shutil

        with open(raw.path, "rb") as i, gzip.open(self.path(rel), "wb", 1) as o:
            shutil.copyfileobj(i, o)
        return types.SimpleNamespace(path=self.path(rel), size=None)

    def text(self, rel, content):
        p = self.local(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(content)
        return types.SimpleNamespace(path=p)

    def directory(self, rel):
        os.makedirs(self.path(rel), exist_ok=True)

    def bmap(self, rel, img, size, bs, rows, version="2.0", selfsum=True, mapped=None):
        # make sure the image has data where the rows say
        with open(img.path, "rb+") as f:
            for r in rows:
                a, b = r[0] * bs, min((r[1] + 1) * bs, size)
                if b > a:
                    real.write_pattern(f, a, b - a)
        out = []
        algo = lib.algo_of(version)
        for i, (f, l, ok) in enumerate(rows):
            tok = None
            if ok is not None and algo:
                a, b = f * bs, min((l + 1) * bs, size)
                if ok:
                    tok = real.digest_of(img.path, a, b - a, algo)
                else:
                    tok = hashlib.new(algo, b"other").hexdigest()
            out.append((f, l, tok, False))
        blocks = (size + bs - 1) // bs
        if mapped is None:
            mapped = sum(r[1] - r[0] + 1 for r in rows)
        t = lib.bmap_text(version, size, bs, blocks, mapped, out, selfsum=selfsum)
        return self.text(rel, t)

    def dest(self, rel, kind="reg", size=0, capacity=None, busy=False):
        p = self.path(rel)
        with open(p, "wb+") as f:
            n = capacity if kind == "bdev" else size
            f.truncate(n)
            for a, b in real.probe_points(n, []):
                if b > a:
                    real.write_pattern(f, a, min(b - a, 64 << 20), 7)
        self.meta[p] = dict(kind=kind, busy=busy, capacity=capacity, before=None)
        self.meta[p]["before"] = self._sig(p)
        return p

    def _sig(self, p):
        h = hashlib.sha1()
        size = os.path.getsize(p)
        for a, b in real.probe_points(size, []):
            h.update(real.read_at(p, a, min(b - a, 64 << 20)))
        return h.hexdigest()

    def gpg(self, verdict):
        self.gpgmod = gpg_module(verdict)

    kern = None

    def mapping(self, img, size, bs, rows, method="fiemap"):
        ext = [(f * bs, (l - f + 1) * bs) for f, l in rows]
        with open(img.path, "rb+") as f:
            for a, n in ext:
                real.write_pattern(f, a, min(n, size - a))
        k = self.kern = M.RealKernel(img.path, ext, [(a, min(a + n, size)) for a, n in ext])
        k.bsz = bs
        if method != "fiemap":
            k.fiemap = errno.EOPNOTSUPP
        if method == "none":
            k.seek = errno.EINVAL

    refused = None
    refused_temp = None
    tty = (False, False)

    def refuse(self, rel, err):
        p = self.path(rel)
        if os.path.exists(p):
            os.remove(p)
        self.refused = (p, err)

    def refuse_temp(self, err):
        self.refused_temp = err

    def terminal(self, out, err):
        self.tty = (out, err)

    def stderr(self):
        return self.err_text

    def splash(self, rel):
        os.mkfifo(self.path(rel))
        self.reader = os.open(self.path(rel), os.O_RDONLY | os.O_NONBLOCK)

    def splash_text(self):
        try:
            return os.read(self.reader, 1 << 16).decode()
        except OSError:
            return ""

    def proc_files(self):
        pass

    def content(self, rel):
        p = self.local(rel)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read()

    def _files(self):
        out = {}
        for top, _, files in os.walk(self.d):
            for f in files:
                p = os.path.join(top, f)
                out[p] = None if p in self.meta else self._state(p)
        return out

    def _state(self, p):
        st = os.stat(p)
        if not stat.S_ISREG(st.st_mode):
            return st.st_ino
        return st.st_ino, st.st_size, st.st_mtime_ns, self._sig(p)

    protected = frozenset()

    def protect(self):
        self.protected = frozenset(p for p in self._files() if p not in self.meta)

    before = None

    def snapshot(self):
        self.before = self._files()

    def check_inputs(self, outputs, msg):
        after = self._files()
        out = [self.path(x) for x in outputs]
        if any(p not in after for p in self.before):
            self.v.append("%s: an input file is gone" % msg)
        if any(p in after and s is not None and after[p] != s for p, s in self.before.items()):
            self.v.append("%s: an input file was altered" % msg)
        if any(p not in self.before and p not in out for p in after):
            self.v.append("%s: a file is left behind" % msg)

    def num(self, t):
        return int(t)

    fault_spec = None
    fault_hit = False

    def fault(self, kind, rel, at, err=errno.EIO):
        self.fault_spec = (kind, self.path(rel), at, err)

    def call(self, fn):
        return self.main([], call=lambda: fn(real.mod, open))

    def main(self, argv, seconds=60, call=None):
        m = real.mod("CLI")
        kern = M.fake_df(self.d, "ext4") if self.kern is not None else None
        import tempfile

        tempdir, tempfile.tempdir = tempfile.tempdir, os.path.join(self.d, "tmp")
        os.makedirs(tempfile.tempdir, exist_ok=True)
        self.snapshot()
        args = ["bmaptool"] + [self.path(a[1:]) if a.startswith("@") else a for a in argv]
        saved = dict(argv=sys.argv, out=sys.stdout, err=sys.stderr, gpg=sys.modules.get("gpg", self))
        bd = {p: i for p, i in self.meta.items() if i["kind"] == "bdev"}
        o_open, o_fstat, o_osopen, o_fsync, o_trunc, o_stat = (
            builtins.open, os.fstat, os.open, os.fsync, os.ftruncate, os.stat,
        )
        o_write, o_fdopen = os.write, os.fdopen
        root = logging.getLogger()
        handlers, level = list(root.handlers), root.level
        rec = self.log

        class H(logging.Handler):
            def emit(s, r):
                rec.append((r.levelname, r.getMessage()))

        def is_dev(fd):
            try:
                t = os.readlink("/proc/self/fd/%d" % fd)
            except (OSError, TypeError):
                return None
            return t if t in self.meta or (spec is not None and t == spec[1]) else None

        spec = self.fault_spec
        fcount = {"n": 0}

        def trip(kind, p):
            if spec is None or spec[0] != kind or p != spec[1]:
                return
            n = fcount["n"]
            fcount["n"] += 1
            if n == spec[2]:
                self.fault_hit = True
                raise failure(spec[3])

        def room(p, at, n):
            if p in bd and at + n > bd[p]["capacity"]:
                raise OSError(errno.ENOSPC, "No space left on device")

        class Raw(io.FileIO):
            def write(s, b):
                trip("write", s.path)
                room(s.path, s.tell(), len(b))
                return super().write(b)

            def truncate(s, n=None):
                n = s.tell() if n is None else n
                os.ftruncate(s.fileno(), n)
                return n

        class Text(io.TextIOWrapper):
            def write(s, t):
                trip("write", s.path)
                return super().write(t)

        class Reader(io.BufferedReader):
            def read(s, *a):
                trip("read", s.path)
                return super().read(*a)

        def f_trunc(fd, n):
            trip("truncate", is_dev(fd) if isinstance(fd, int) else None)
            return o_trunc(fd, n)

        def guard(path, writing):
            if writing and path in self.protected:
                raise OSError(errno.EACCES, os.strerror(errno.EACCES), path)

        def f_open(path, mode="r", *a, **k):
            guard(path, any(x in mode for x in "wax+"))
            if self.refused is not None and path == self.refused[0]:
                raise OSError(self.refused[1], os.strerror(self.refused[1]), path)
            if isinstance(path, str) and path in bd and "w" in mode:
                mode = "rb+"
            t = is_dev(path) if isinstance(path, int) else path
            if "b" in mode and (t in bd or spec is not None and t == spec[1] and spec[0] in ("write", "truncate")):
                if mode.strip("b") not in ("", "r"):
                    raw = Raw(path, mode.replace("b", ""))
                    raw.path = t
                    if a[:1] == (0,) or k.get("buffering") == 0:
                        return raw
                    return io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
            if spec is not None and t == spec[1]:
                if spec[0] == "write" and "b" not in mode and mode != "r":
                    f = Text(o_open(path, mode.replace("w", "wb").replace("+", "") + "+"))
                    f.path = t
                    return f
                if spec[0] == "read" and mode == "rb":
                    f = Reader(io.FileIO(path, "r"))
                    f.path = t
                    return f
            return o_open(path, mode, *a, **k)

        def f_write(fd, b):
            p = is_dev(fd)
            trip("write", p)
            if p in bd:
                room(p, os.lseek(fd, 0, 1), len(b))
            return o_write(fd, b)

        def f_fdopen(fd, mode="r", *a, **k):
            return f_open(fd, mode, *a, **k)

        o_fileio = io.FileIO

        class FileIO(o_fileio):
            def __init__(s, path, mode="r", *a, **k):
                guard(path, any(x in mode for x in "wax+"))
                super().__init__(path, mode, *a, **k)

        def f_osopen(path, flags, *a, **k):
            guard(path, flags & os.O_ACCMODE)
            if self.refused is not None and path == self.refused[0]:
                raise OSError(self.refused[1], os.strerror(self.refused[1]), path)
            if path in bd and bd[path]["busy"] and flags & os.O_EXCL:
                raise OSError(errno.EBUSY, "Device or resource busy")
            return o_osopen(path, flags, *a, **k)

        def f_fstat(fd):
            st = o_fstat(fd)
            p = is_dev(fd) if isinstance(fd, int) else None
            if p in bd:
                return types.SimpleNamespace(st_mode=stat.S_IFBLK | 0o660, st_rdev=RDEV, st_size=0)
            return st

        def f_stat(p, *a, **k):
            if isinstance(p, str) and p in bd:
                return types.SimpleNamespace(st_mode=stat.S_IFBLK | 0o660, st_rdev=RDEV, st_size=0)
            return o_stat(p, *a, **k)

        def f_fsync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            p = is_dev(n)
            if p:
                trip("fsync", p)
                self.sync_state[p] = (os.path.getsize(p), self._sig(p))
            return o_fsync(fd)

        class Response:
            def __init__(s, path):
                s.f = o_open(path, "rb")
                s.read, s.close = s.f.read, s.f.close

        import urllib.error
        import urllib.request as ur

        def u_open(s, url, data=None, timeout=None):
            url = url if isinstance(url, str) else url.full_url
            if "://" not in url:
                return ou_open(s, url, data, timeout)
            if url not in self.urls:
                raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
            return Response(self.urls[url])

        def body():
            with self.kern or contextlib.nullcontext():
                self.ret = (call or m.main)()

        sys.argv = args
        class Term(io.StringIO):
            tty = False

            def isatty(s):
                return s.tty

        def f_temp(*a, **k):
            raise OSError(self.refused_temp, os.strerror(self.refused_temp))

        o_temps = {n: getattr(tempfile, n) for n in ("TemporaryFile", "NamedTemporaryFile", "mkstemp", "mkdtemp")}
        if self.refused_temp is not None:
            for n in o_temps:
                setattr(tempfile, n, f_temp)
        sys.stdout = self.out = Term()
        sys.stderr = Term()
        sys.stdout.tty, sys.stderr.tty = self.tty
        if self.have_gpg and self.gpgmod is not None:
            sys.modules["gpg"] = self.gpgmod
        else:
            sys.modules["gpg"] = None
        builtins.open, os.fstat, os.open, os.fsync, os.stat = f_open, f_fstat, f_osopen, f_fsync, f_stat
        os.ftruncate, os.write, os.fdopen = f_trunc, f_write, f_fdopen
        io_open, io.open = io.open, f_open
        if self.protected:
            io.FileIO = FileIO
        ou_open, ur.OpenerDirector.open = ur.OpenerDirector.open, u_open
        root.handlers[:] = []
        root.addHandler(H())
        old_path = kern or os.environ["PATH"]
        try:
            k, e = real.outcome_of(body, seconds)
        finally:
            builtins.open, os.fstat, os.open, os.fsync, os.stat = o_open, o_fstat, o_osopen, o_fsync, o_stat
            os.ftruncate, os.write, os.fdopen = o_trunc, o_write, o_fdopen
            io.open, io.FileIO = io_open, o_fileio
            ur.OpenerDirector.open = ou_open
            tempfile.tempdir = tempdir
            os.environ["PATH"] = old_path
            root.handlers[:] = handlers
            root.setLevel(level)
            self.err_text = sys.stderr.getvalue()
            sys.argv, sys.stdout, sys.stderr = saved["argv"], saved["out"], saved["err"]
            for n in o_temps:
                setattr(tempfile, n, o_temps[n])
            if saved["gpg"] is self:
                sys.modules.pop("gpg", None)
            else:
                sys.modules["gpg"] = saved["gpg"]
        self.err = e
        if k == "ok":
            self.status = self.ret or 0
        elif k.startswith("exit"):
            code = e.code
            self.status = 0 if code in (None, 0) else code if isinstance(code, int) else 1
        elif k == "hang":
            self.status = "hang"
        else:
            self.status = 1
        import gc

        x = e
        while x is not None:  # nothing may keep the command's frames alive
            x.__traceback__ = None
            y = x.__context__ or x.__cause__
            x.__context__ = x.__cause__ = None
            x = y
        gc.collect()
        return self.status

    def check(self, cond, msg):
        if not cond:
            self.v.append(msg)

    def written(self, rel):
        p = self.path(rel)
        if not os.path.exists(p):
            return False
        if p in self.meta:
            if self.meta[p]["kind"] == "bdev":
                return self._sig(p) != self.meta[p]["before"]
        # the command line truncates a regular destination first
        with open(p, "rb") as f:
            for a, b in real.probe_points(os.path.getsize(p), []):
                f.seek(a)
                if f.read(min(b - a, 64 << 20)).strip(b"\0"):
                    return True
        return False

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def synced(self, rel):
        p = self.path(rel)
        return self.sync_state.get(p) == (os.path.getsize(p), self._sig(p))

    def check_copied(self, rel, img, size, bs, rows, msg, old=0, capacity=None):
        p = self.path(rel)
        if not os.path.exists(p):
            self.v.append(msg + ": there is no destination")
            return
        n = os.path.getsize(p)
        if capacity is None and n != size:
            self.v.append(msg + ": destination size %d, image size %d" % (n, size))
        top = capacity if capacity is not None else max(n, size)
        areas = [(0, size)] if rows is None else [(r[0] * bs, (r[1] + 1) * bs) for r in rows]
        marks = sorted({0, top, min(size, top)} | {min(y, top) for a in areas for y in a})
        probes = real.probe_points(top, areas, (size,))
        for a, b in zip(marks, marks[1:]):
            for pa, pb in probes:
                s, e = max(a, pa), min(b, pb)
                while s < e:
                    k = min(e - s, 8 << 20)
                    got = real.read_at(p, s, k)
                    mapped = any(x <= s < y for x, y in areas)
                    if s < size and mapped:
                        want, what = real.read_at(img.path, s, k), "mapped"
                    elif capacity is not None:
                        want, what = real.pattern(s, k, 7), "outside the mapped blocks"
                    elif s >= size:
                        break
                    else:
                        want, what = bytes(k), "unmapped"
                    if got != want:
                        self.v.append("%s: a byte at or after %d (%s) differs" % (msg, s, what))
                        return
                    s += k

    def messages(self, *levels):
        return [m for l, m in self.log]

    def stdout(self):
        return self.out.getvalue()


def harness_of(scenario):
    def harness(c, cfg):
        env = SymEnv(c, cfg)
        scenario(env, cfg)

    return harness


def concrete_of(scenario):
    def concrete(cfg, p, d):
        env = RealEnv(cfg, p, d)
        try:
            scenario(env, cfg)
        finally:
            if env.shmdir is not None:
                env.shmdir.cleanup()
        return {
            "outcome": "status %s" % env.status,
            "violations": env.v,
            "err": str(env.err)[:300],
        }

    return concrete
