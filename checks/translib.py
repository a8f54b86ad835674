"""Image sources for TransRead: symbolic models and real stand-ins.

Kinds: plain, packed (a compressed local file), http, http-noseek (a response
without seek/tell), http-packed, ssh, ssh-packed, stdin (a pipe), stdin-file."""

import errno
import io
import json
import os
import shlex
import stat
import subprocess
import sys

from symx import core, lib, real, strings, values, world as W
from symx.values import And, Or, Not, Implies, If, SymInt, SymStr, imin, imax

# what the tools accept and do -------------------------------------------------

SINGLE = {
    "gzip": "gz", "pigz": "gz", "bzip2": "bz2", "pbzip2": "bz2", "lbzip2": "bz2", "xz": "xz", "pixz": "xz",
    "lzop": "lzo", "lz4": "lz4", "zstd": "zst", "pzstd": "zst",
}
ALWAYS = {
    "gunzip": "gz", "zcat": "gz", "unpigz": "gz", "bunzip2": "bz2", "bzcat": "bz2", "unxz": "xz", "xzcat": "xz",
    "unlz4": "lz4", "lz4cat": "lz4", "unzstd": "zst", "zstdcat": "zst", "funzip": "zip",
}
TARFLAG = {"z": ("gz", "gzip"), "j": ("bz2", "bzip2"), "J": ("xz", "xz")}
TARLONG = {
    "--gzip": ("gz", "gzip"), "--gunzip": ("gz", "gzip"), "--ungzip": ("gz", "gzip"), "--bzip2": ("bz2", "bzip2"),
    "--xz": ("xz", "xz"), "--lzop": ("lzo", "lzop"), "--lzo": ("lzo", "lzop"), "--zstd": ("zst", "zstd"),
}


def stages(args):
    """The commands of a pipeline, as token lists."""
    if isinstance(args, str):
        out = [[]]
        for t in shlex.split(args.replace("|", " | ")):
            if t == "|":
                out.append([])
            elif t in ("exec", "2>/dev/null"):
                pass
            else:
                out[-1].append(t)
        return out
    return [[str(a) for a in args]]


def apply(tokens, layers, have):
    """What 'tokens' leaves of a file wrapped in 'layers' (outermost first), or
    None when the command fails."""
    if not tokens:
        return None
    prog, opts = os.path.basename(tokens[0]), tokens[1:]
    if not have(prog):
        return None
    if prog in ALWAYS:
        return layers[1:] if layers and layers[0] == ALWAYS[prog] else None
    short = "".join(o[1:] for o in opts if o.startswith("-") and not o.startswith("--"))
    if prog in SINGLE:
        if "d" not in short and not {"--decompress", "--uncompress"} & set(opts):
            return None
        if any(not o.startswith("-") for o in opts):
            return None  # (a file name: not the input)
        if prog == "pixz":
            pass
        return layers[1:] if layers and layers[0] == SINGLE[prog] else None
    if prog == "cat" and not opts:
        return layers
    if prog == "tar":
        comp, extract, out, i = None, False, False, 0
        opts = list(opts)
        while i < len(opts):
            o = opts[i]
            i += 1
            if o in TARLONG:
                comp = TARLONG[o]
            elif o.startswith("--use-compress-program"):
                if "=" in o:
                    p = o.split("=", 1)[1]
                else:
                    p = opts[i] if i < len(opts) else ""
                    i += 1
                p = p.split()[0] if p else ""
                comp = (SINGLE.get(p, "?"), p)
            elif o in ("--to-stdout",):
                out = True
            elif o in ("--extract", "--get"):
                extract = True
            elif o.startswith("--"):
                pass
            elif o.startswith("-"):
                fl = o[1:]
                while fl:
                    ch, fl = fl[0], fl[1:]
                    if ch in "ICfb":
                        if not fl:
                            fl = opts[i] if i < len(opts) else ""
                            i += 1
                        if ch == "I":
                            p = fl.split()[0] if fl else ""
                            comp = (SINGLE.get(p, "?"), p)
                        elif ch == "f" and fl != "-":
                            return None
                        fl = ""
                    elif ch in TARFLAG:
                        comp = TARFLAG[ch]
                    elif ch == "x":
                        extract = True
                    elif ch == "O":
                        out = True
            else:
                return None  # (a member name)
        if not (extract and out):
            return None
        if comp is not None:
            if not have(comp[1]) or not layers or layers[0] != comp[0]:
                return None
            layers = layers[1:]
        return layers[1:] if layers and layers[0] == "tar" else None
    return None


def unpack(args, layers, have):
    """Whether the command turns the wrapped file into the plain image."""
    for t in stages(args):
        layers = apply(t, layers, have)
        if layers is None:
            return False
    return layers == []


LAYERS = {
    ".gz": ["gz"], ".gzip": ["gz"], ".tar.gz": ["gz", "tar"], ".tgz": ["gz", "tar"], ".bz2": ["bz2"],
    ".tar.bz2": ["bz2", "tar"], ".tbz": ["bz2", "tar"], ".tbz2": ["bz2", "tar"], ".tb2": ["bz2", "tar"], ".xz": ["xz"],
    ".tar.xz": ["xz", "tar"], ".txz": ["xz", "tar"], ".lzo": ["lzo"], ".tar.lzo": ["lzo", "tar"], ".tzo": ["lzo", "tar"],
    ".lz4": ["lz4"], ".tar.lz4": ["lz4", "tar"], ".tlz4": ["lz4", "tar"], ".zst": ["zst"], ".tar.zst": ["zst", "tar"],
    ".tzst": ["zst", "tar"], ".zip": ["zip"],
}
TOOLS = ["gzip", "pigz", "bzip2", "pbzip2", "xz", "lzop", "lz4", "zstd", "tar", "funzip", "ssh", "sshpass"]


class Tools:
    """The installed programs, each a decision of its own."""

    def __init__(self, c, names=None, free=()):
        self.c, self.free = c, set(free)
        self.names = set(TOOLS if names is None else names)
        self.state = {}

    def have(self, n):
        """Asking forks."""
        return bool(self.cond(n))

    def cond(self, n):
        if n in self.free:
            if n not in self.state:
                self.state[n] = self.c.bool("have_" + n)
            return self.state[n]
        return n in self.names

    def __contains__(self, path):
        d, _, n = path.rpartition("/")
        return d == "/usr/bin" and self.have(n)


# the symbolic side -------------------------------------------------------------


class Resp:
    """An HTTP response."""

    total = None  # (what the server says is there)
    got = 0
    broken = None  # (error when the data end)

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        if name == "length" and self.total is not None:
            return self.total - self.got
        if name == "length":
            return None
        raise AttributeError(name)

    def read(self, n=-1):
        d = self._f.read(n)
        self.got = self.got + (d.symlen() if hasattr(d, "symlen") else len(d))
        if self.broken and (n is None or n < 0 or (not d and n)):
            raise self.broken
        return d

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def readinto(self, b):
        n = self._f.readinto(b)
        self.got = self.got + n
        return n

    def close(self):
        self._f.close()

    def readable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def info(self):
        return self.headers

    @property
    def headers(self):
        return {} if self.total is None else {"Content-Length": values.sx_str(self.total)}

    status = code = 200

    def getcode(self):
        return 200


class SeekResp(Resp):
    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("seek")

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class Tool(W.Proc):
    """A decompressor: it fails when the input is not the packed file."""

    feed = None

    def __init__(self, env, **k):
        super().__init__(**k)
        self.env = env

    def wait(self, timeout=None):
        if self.feed is not None and self.returncode is None and self._rc == 0:
            env = self.env
            env.w.sched.settle()
            if not env.cfg.get("lenient") and not bool(self.feed.size == env.P):
                self._rc = 1
        return super().wait()


def position(f):
    """Where the descriptor of an open file stands."""
    if f is None or isinstance(f, W.PipeReader):
        return 0
    if isinstance(f.pos, int) and f.pos == 0 and f.k is None and not f.hist:
        return 0
    return f.raw_tell()


class SymT:
    symbolic = True

    def __init__(self, c, cfg, tools=None):
        self.c, self.cfg = c, cfg
        self.w = w = W.World(c)
        w.env["PATH"] = "/usr/bin"
        self.tools = tools or Tools(c)
        w.exec_files = self.tools
        self.cmds = []  # commands run: (args, shell)
        self.urls = []
        self.fed = []
        kind = cfg["kind"]
        N = self.N = c.int("size", cfg.get("min_size", 0), cfg.get("max_size", 1 << 42))
        self.img = W.DataNode("<image>", N)
        self.packed = kind.endswith("packed")
        if self.packed:
            self.P = c.int("packed_size", 1, cfg.get("max_packed", 3 << 20))
            self.file = W.DataNode("<packed>", self.P)
        else:
            self.P, self.file = N, self.img
        self.layers = LAYERS[cfg.get("suffix", ".gz")] if self.packed else []
        # what arrives: of the file, and of the plain data
        self.fails = fails = cfg.get("fails")
        self.arrives, self.comes, self.rc = self.P, N, 0
        if fails in ("http", "ssh", "reset"):
            self.arrives = c.int("arrives", 0)
            c.assume(self.arrives < self.P)
        if fails:
            self.comes = c.int("comes", 0)
            c.assume(self.comes <= N)
        if fails in ("tool", "ssh"):
            self.rc = c.int("rc", -15, 255)
            # of gzip and xz, but not of tar with them, 2 is only a warning
            warns = fails == "tool" and tuple(self.layers) in (("gz",), ("xz",))
            c.assume(And(self.rc != 0, self.rc != 2) if warns else self.rc != 0)
        self.name = self.location()
        w.popen = self.popen
        w.urlopen = self.urlopen
        if cfg.get("short"):
            left = [cfg["short"]]

            def limit(f, n):
                if f.node is not self.file or left[0] <= 0 or getattr(f, "whole", False):
                    return n
                left[0] -= 1
                m = c.int("piece", 0)
                c.assume(m <= n)
                c.assume(Or(m >= 1, n == 0) if isinstance(n, SymInt) else (m >= 1 if n else m == 0))
                return m

            w.short_reads = limit

    def location(self):
        cfg, w = self.cfg, self.w
        kind = cfg["kind"]
        base = cfg.get("file", "img" + (cfg.get("suffix", ".gz") if self.packed else ".raw"))
        if kind.startswith("http"):
            return "http://host/dir/" + base
        if kind.startswith("ssh"):
            return "ssh://user@host/dir/" + base
        if kind.startswith("stdin"):
            f = W.DataFile(w, self.img, "<stdin>", "rb", kind == "stdin-file")
            if kind == "stdin":
                self.img.mode = stat.S_IFIFO | 0o600
            w.stdin = w.loader.stubs["sys"].__dict__["stdin"] = W.types.SimpleNamespace(buffer=f, fileno=f.fileno, read=f.read)
            return "-"
        w.add("/work/" + base, self.file)
        return "/work/" + base

    def urlopen(self, url, opener, timeout):
        self.urls.append(url)
        f = W.PipeReader(self.w, self.part(self.file, self.arrives), "<response>")
        r = (Resp if self.cfg["kind"] == "http-noseek" else SeekResp)(f)
        if self.fails == "reset":
            r.broken = ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if self.fails == "http" or self.cfg.get("length"):
            r.total = self.P
        return r

    @staticmethod
    def part(node, n):
        if node.size is n:
            return node
        return W.DataNode(node.name, n, node.src)

    def suits(self, args):
        """Whether the command unpacks the file."""
        return unpack(args, list(self.layers), self.tools.have)

    def popen(self, info):
        args = info["args"]
        args = values.force(args) if not isinstance(args, (list, tuple)) else [values.force(a) for a in args]
        self.cmds.append((args, info["shell"]))
        w = self.w
        toks = stages(args)[0]
        if toks and os.path.basename(toks[0]) in ("ssh", "sshpass"):
            if toks[-1].startswith("cat "):
                rc = self.rc if self.fails == "ssh" else 0
                return W.Proc(rc, stdout=W.PipeReader(w, self.part(self.file, self.arrives), "<ssh>"))
            return W.Proc(0)
        # a decompressor
        si = info["stdin"]
        p = Tool(self)
        good = self.suits(args)
        if si == -1:
            sink = W.SinkNode("<stdin %d>" % len(self.fed), 0)
            f = W.SinkFile(w, sink, "<stdin>", "wb")
            p.stdin = f
            p.feed = sink
            self.fed.append(("pipe", sink, f))
        elif isinstance(si, (int, W.OpenFile)):
            f = w.fds.get(si if isinstance(si, int) else si.fileno())
            self.fed.append(("fd", f, position(f)))
            if f is None or f.node is not self.file:
                good = False
        else:
            good = False
        p._rc = self.rc if self.fails == "tool" else 0 if good else 1
        p.stdout = W.PipeReader(w, self.part(self.img, self.comes) if good else W.DataNode("<nothing>", 0), "<pipe>")
        return p

    def fully_fed(self):
        """The decompressor got the packed file, all of it, from its start."""
        self.w.sched.settle()
        for kind, a, b in self.fed:
            if kind == "fd":
                self.c.check(b == 0, "the decompressor does not get the start of the file")
            else:
                x = self.c.int("y", 0)
                t = SymInt(a.tag(x))
                self.c.check(Implies(x < self.P, t == x), "the decompressor gets other bytes than the packed file's")
                self.c.check(Implies(x >= self.P, t == -2), "the decompressor gets more than the packed file")
                self.c.check(b.closed, "the input of the decompressor is not closed")

    def open(self):
        m = self.w.mod("TransRead")
        self.Error = m.Error
        return m.TransRead(self.name)

    def call(self, f, *a, **k):
        box = []
        kind, e = lib.outcome_of(lambda: box.append(f(*a, **k)))
        self.exc = e
        if kind != "ok" and isinstance(e, self.Error):
            kind = "Error"
        return kind, box[0] if box else None

    def text(self, e):
        a = [values.force(x) for x in e.args[:1]]
        return "".join(p if isinstance(p, str) else " ? " for p in strings.parts_of(a[0])) if a else ""

    def int(self, name, lo, hi):
        return self.c.int(name, lo, hi)

    def assume(self, cond):
        self.c.assume(cond)

    def check(self, cond, msg):
        self.c.check(cond, msg)

    def length(self, d):
        return d.symlen() if hasattr(d, "symlen") else len(d)

    def same(self, d, pos, n):
        """The bytes 'd' are those of the image from 'pos'."""
        p = d.pieces if hasattr(d, "pieces") else ([] if len(d) == 0 else [("b", bytes(d))])
        if not p:
            return n == 0
        r = W.same_range(p, [("s", self.img.src, pos, n)])
        return False if r is None else r

    min, max = staticmethod(imin), staticmethod(imax)

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        return bool(cond)


# the real side -------------------------------------------------------------------

SCRIPT = """#!/usr/bin/python3 -S
import sys, os, json
sys.path.insert(0, %(here)r)
d = %(dir)r
args = [os.path.basename(sys.argv[0])] + sys.argv[1:]
with open(d + "/log", "a") as f:
    f.write(json.dumps(args) + "\\n")

def give(path, n, rc):
    with open(path, "rb") as f:
        while n > 0:
            b = f.read(min(n, 1 << 20))
            if not b:
                break
            sys.stdout.buffer.write(b)
            n -= len(b)
    sys.stdout.buffer.flush()
    if rc < 0:
        os.kill(os.getpid(), -rc)
    sys.exit(rc)

if args[0] in ("ssh", "sshpass"):
    rc = json.load(open(d + "/rc"))
    cmd = args[-1]
    k = "cat" if cmd.startswith("cat ") else "test" if cmd.startswith("test") else "true"
    if rc.get(k):
        sys.exit(rc[k])
    meta = json.load(open(d + "/meta"))
    if k == "cat":
        give(d + "/source", meta["arrives"], meta["rc"] if meta["fails"] == "ssh" else 0)
    sys.exit(0)
import importlib.util, hashlib
spec = importlib.util.spec_from_file_location("tl", d + "/tl.py")
tl = importlib.util.module_from_spec(spec)
spec.loader.exec_module(tl)
h = hashlib.sha256()
while True:
    b = sys.stdin.buffer.read(1 << 20)
    if not b:
        break
    h.update(b)
meta = json.load(open(d + "/meta"))
ok = h.hexdigest() == meta["sha"]
have = lambda n: n in meta["tools"]
with open(d + "/fed", "a") as f:
    f.write("1" if ok else "0")
suits = tl.apply(args, meta["layers"], have) == []
if suits and (ok or meta["fails"]):
    give(d + "/image", meta["comes"], meta["rc"] if meta["fails"] == "tool" else 0 if ok or meta["lenient"] else 1)
sys.exit(3)
"""


class RealT:
    symbolic = False

    def __init__(self, cfg, p, d):
        self.cfg, self.p, self.d = cfg, p, d
        self.v = []
        self.cmds, self.urls = [], []
        kind = cfg["kind"]
        N = self.N = p.get("size", 0)
        self.packed = kind.endswith("packed")
        self.layers = self.wrapping()
        self.image = os.path.join(d, "image")
        real.make_image(self.image, N, [(0, 1 << 20)])
        self.src = self.image
        if self.packed:
            self.src = os.path.join(d, "packed")
            real.make_image(self.src, p.get("packed_size", 1), [], salt=3)
        self.bin = os.path.join(d, "bin")
        os.makedirs(self.bin)
        self.names = [t for t in cfg.get("tools", TOOLS) if t not in cfg.get("free", ()) or p.get("have_" + t)]
        import inspect

        src = "import os, shlex\n" + "\n".join(
            "%s = %r" % (n, globals()[n]) for n in ("SINGLE", "ALWAYS", "TARFLAG", "TARLONG")
        )
        src += "\n" + inspect.getsource(apply)
        with open(d + "/tl.py", "w") as f:
            f.write(src)
        self.fails = cfg.get("fails")
        P = self.P = os.path.getsize(self.src)
        self.arrives = p.get("arrives", 0) if self.fails in ("http", "ssh", "reset") else P
        comes = p.get("comes", 0) if self.fails else N
        with open(d + "/meta", "w") as f:
            json.dump(dict(rc=p.get("rc", 0), arrives=self.arrives, comes=comes, fails=self.fails, lenient=bool(cfg.get("lenient")), sha=real.digest_of(self.src, 0, os.path.getsize(self.src), "sha256"), tools=self.names, layers=self.layers), f)
        with open(d + "/rc", "w") as f:
            json.dump(self.exit_codes(), f)
        os.symlink(self.src, d + "/source")
        for t in self.names:
            with open(self.bin + "/" + t, "w") as f:
                f.write(SCRIPT % dict(here=d, dir=d))
            os.chmod(self.bin + "/" + t, 0o755)
        self.name = self.location()
        self.pieces = [p["piece%s" % ("" if i == 0 else "#%d" % i)] for i in range(9) if "piece%s" % ("" if i == 0 else "#%d" % i) in p]

    def exit_codes(self):
        return {}

    def wrapping(self):
        return LAYERS[self.cfg.get("suffix", ".gz")] if self.packed else []

    def location(self):
        cfg = self.cfg
        kind = cfg["kind"]
        base = cfg.get("file", "img" + (cfg.get("suffix", ".gz") if self.packed else ".raw"))
        if kind.startswith("http"):
            return "http://host/dir/" + base
        if kind.startswith("ssh"):
            return "ssh://user@host/dir/" + base
        if kind.startswith("stdin"):
            return "-"
        d = os.path.join(self.d, "w")
        os.makedirs(d, exist_ok=True)
        os.symlink(self.src, os.path.join(d, base))
        return os.path.join(d, base)

    def response(self):
        me = self
        f = open(self.src, "rb")
        left = list(self.pieces)

        class R:
            status = code = 200

            def read(s, n=None):
                there = me.arrives - f.tell()
                if n is None or n < 0:
                    d = f.read(there)
                else:
                    if left and me.cfg.get("short"):
                        n = min(n, left.pop(0))
                    d = f.read(min(n, there))
                if me.fails == "reset" and (n is None or n < 0 or (n and not d)):
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                return d

            if me.fails == "http" or me.cfg.get("length"):
                length = property(lambda s: me.P - f.tell())
                headers = {"Content-Length": str(me.P)}
            else:
                length = None
                headers = {}

            def getheader(s, name, default=None):
                return s.headers.get(name, default)

            def info(s):
                return s.headers

            def close(s):
                f.close()

        if me.cfg["kind"] != "http-noseek":

            def bad(s, *a):
                raise io.UnsupportedOperation("seek")

            R.seek = R.tell = R.fileno = bad
        return R()

    def __enter__(self):
        import urllib.request as ur

        real.use_repo()
        self.saved = (os.environ.get("PATH"), sys.stdin, ur.OpenerDirector.open, ur)
        os.environ["PATH"] = self.bin
        kind = self.cfg["kind"]
        if kind == "stdin":
            self.feeder = subprocess.Popen(["/bin/cat", self.image], stdout=subprocess.PIPE)
            sys.stdin = io.TextIOWrapper(self.feeder.stdout)
        elif kind == "stdin-file":
            sys.stdin = open(self.image)

        def opener(s, url, data=None, timeout=None):
            self.urls.append(url if isinstance(url, str) else url.full_url)
            self.opener = s
            return self.urlopen(url, s, timeout)

        ur.OpenerDirector.open = opener
        return self

    def urlopen(self, url, opener, timeout):
        return self.response()

    def __exit__(self, *a):
        path, stdin, op, ur = self.saved
        os.environ["PATH"] = path
        sys.stdin = stdin
        ur.OpenerDirector.open = op
        if hasattr(self, "feeder"):
            self.feeder.kill()
            self.feeder.wait()
        return False

    def log(self):
        p = self.d + "/log"
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [json.loads(l) for l in f]

    def fully_fed(self):
        p = self.d + "/fed"
        if not os.path.exists(p):
            return
        with open(p) as f:
            if "0" in f.read():
                self.v.append("the decompressor gets other bytes than the packed file's")

    def open(self):
        m = real.mod("TransRead")
        self.Error = m.Error
        return m.TransRead(self.name)

    def call(self, f, *a, **k):
        box = []
        kind, e = real.outcome_of(lambda: box.append(f(*a, **k)), 30)
        self.exc = e
        if kind != "ok" and isinstance(e, self.Error):
            kind = "Error"
        return kind, box[0] if box else None

    def text(self, e):
        return str(e)

    seen = None

    def int(self, name, lo, hi):
        # (names repeat: name, name#1, ...)
        if self.seen is None:
            self.seen = {}
        i = self.seen.get(name, 0)
        self.seen[name] = i + 1
        return self.p.get(name if i == 0 else "%s#%d" % (name, i), lo)

    def assume(self, cond):
        pass

    def check(self, cond, msg):
        if not cond:
            self.v.append(msg)

    def length(self, d):
        return len(d)

    def same(self, d, pos, n):
        return d == real.read_at(self.image, pos, n)

    min, max = staticmethod(min), staticmethod(max)

    def decide(self, cond):
        return bool(cond)
