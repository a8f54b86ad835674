"""The modelled environment of one path: files, devices, hashes, processes, time."""

import errno as _errno
import hashlib as _hashlib
import io as _io
import mmap as _mmap
import os as _os
import posixpath
import stat as _stat
import sys as _sys
import types
import xml.etree.ElementTree as _ET
import datetime as _dt
import z3

from . import core, loader, threads, values
from .buffers import (
    ArrayStub,
    StructStub,
    SymBuf,
    SymBytes,
    SymView,
    all_literal,
    is_byteslike,
    norm,
    pieces_of,
    plen,
    slice_pieces,
    total,
    clamp_index,
)
from . import strings, urls
from .values import (
    And,
    Not,
    Or,
    SymBool,
    SymInt,
    SymReal,
    SymStr,
    LazyStr,
    as_z3int,
    ctx,
    force,
    imax,
    imin,
    If,
    mk_int,
)

BUFSZ = 8192


class Source:
    """Opaque data; byte(i) is an uninterpreted value."""

    def __init__(self, name):
        self.name = name
        self.fn = z3.Function("byte_" + name, z3.IntSort(), z3.IntSort())

    def byte(self, i):
        t = self.fn(as_z3int(i))
        c = ctx()
        c.general()
        c._add(z3.And(t >= 0, t < 256))
        return SymInt(t)

    def __repr__(self):
        return "Source(%s)" % self.name


# ---------------------------------------------------------------------------
# nodes of the modelled file system
# ---------------------------------------------------------------------------


class Node:
    mode = _stat.S_IFREG | 0o644
    rdev = 0
    fstype = None

    def __init__(self, name):
        self.name = name
        self.blksize = 4096
        self.bsz_ioctl = None  # FIGETBSZ result, or an errno
        self.extents = None

    def get_size(self):
        return 0


class DataNode(Node):
    """A file whose content is opaque data of symbolic size."""

    def __init__(self, name, size, src=None, mapping=None):
        super().__init__(name)
        self.size = size
        self.src = src or Source(name)
        self.mapping = mapping
        self.reads = []  # (off, len)
        self.harmed = None  # how it was altered, if it was

    def get_size(self):
        return self.size


def is_zero(d):
    if isinstance(d, int):
        return d == 0
    d = z3.simplify(as_z3int(d))
    return z3.is_int_value(d) and d.as_long() == 0


def merge_writes(ops):
    """The same operations with back-to-back writes of consecutive data joined
    (only where that is syntactically evident; keeps the terms small)."""
    out = []
    for op in ops:
        if op[0] == "s":
            continue
        if op[0] == "w" and out and out[-1][0] == "w":
            last = out[-1]
            if is_zero(last[1] + total(last[2]) - op[1]):
                p, q = last[2][-1], op[2][0]
                if p[0] == "s" and q[0] == "s" and p[1] is q[1] and is_zero(p[2] + p[3] - q[2]):
                    j = ("s", p[1], p[2], p[3] + q[3])
                    out[-1] = ("w", last[1], last[2][:-1] + [j] + list(op[2][1:]))
                    continue
        out.append(op if op[0] != "w" else ("w", op[1], list(op[2])))
    return out


class SinkNode(Node):
    """A destination: the log of kernel-level operations on it."""

    def __init__(self, name, size=0, bdev=False, capacity=None, mode=None, rdev=0):
        super().__init__(name)
        self.size0 = size
        self.size = size
        self.bdev = bdev
        self.tight = False  # may turn out too small: decide when data is flushed
        self.capacity = capacity
        self.ops = []
        self.rdev = rdev
        if mode is not None:
            self.mode = mode
        elif bdev:
            self.mode = _stat.S_IFBLK | 0o660

    def get_size(self):
        return 0 if self.bdev else self.size

    def tag(self, x):
        """What byte x is at the end: z3 Int term.
        -2 beyond the end, -1 initial content, -3 zero, -4 other, >=0 offset in
        the (single) data source."""
        xt = as_z3int(x)
        size = as_z3int(self.size0)
        if self.bdev:
            t = z3.If(xt < as_z3int(self.capacity), z3.IntVal(-1), z3.IntVal(-2))
        else:
            t = z3.If(xt < size, z3.IntVal(-1), z3.IntVal(-2))
        for op in merge_writes(self.ops):
            if op[0] == "t":
                n = as_z3int(op[1])
                t = z3.If(xt >= n, z3.IntVal(-2), z3.If(t == -2, z3.IntVal(-3), t))
            elif op[0] == "w":
                off = op[1]
                end = as_z3int(off + total(op[2]))
                # a gap before the write reads as zeroes
                t = z3.If(z3.And(t == -2, xt < end, xt < as_z3int(off)), z3.IntVal(-3), t)
                s = off
                for p in op[2]:
                    n = plen(p)
                    inside = z3.And(xt >= as_z3int(s), xt < as_z3int(s + n))
                    if p[0] == "s":
                        v = as_z3int(p[2]) + xt - as_z3int(s)
                    elif (p[0] == "f" and p[1] == 0) or (
                        p[0] == "b" and not p[1].strip(b"\0")
                    ):
                        v = z3.IntVal(-3)
                    else:
                        v = z3.IntVal(-4)
                    t = z3.If(inside, v, t)
                    s = s + n
        return t


class TextNode(Node):
    """A small file with real content (held as text: one char per byte)."""

    def __init__(self, name, content="", mode=None):
        super().__init__(name)
        self.content = content  # str, or bytes
        if mode is not None:
            self.mode = mode
        self.writes = []  # [(content)] for sysfs-like nodes
        self.on_write = None
        self.on_read = None
        self.log = None  # list: gets (position, text) of every write

    def get_size(self):
        return len(self.content)

    def text(self):
        c = self.content
        return c if isinstance(c, str) else c.decode("utf-8")

    def data(self):
        c = self.content
        return c if isinstance(c, (bytes, bytearray)) else c.encode("utf-8")


class DirNode(Node):
    mode = _stat.S_IFDIR | 0o755


# ---------------------------------------------------------------------------
# open files
# ---------------------------------------------------------------------------


class OpenFile:
    closed = False
    encoding = None
    newlines = None

    def __init__(self, w, node, name, mode):
        self.w = w
        self.node = node
        self.name = name
        self.mode = mode
        self.fd = w.new_fd(self)

    def fileno(self):
        self._chk()
        return self.fd

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def isatty(self):
        return False

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def flush(self):
        self._chk()

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            self.w.event("close", self)

    @property
    def raw(self):
        return RawFile(self)

    def detach(self):
        return RawFile(self)

    @property
    def buffer(self):
        return self


class RawFile:
    def __init__(self, f):
        self._f = f

    def __getattr__(self, n):
        return getattr(self._f, n)

    def write(self, b):
        self._f._kwrite_at_pos(b)
        return values.sx_len(b)


class RawPos(SymInt):
    """The kernel's offset of a buffered reader whose buffer is in order."""


class DataFile(OpenFile):
    """Binary reader of a DataNode."""

    def __init__(self, w, node, name, mode="rb", seekable=True):
        super().__init__(w, node, name, mode)
        self.pos = 0
        self._seekable = seekable
        self.bufsz = 4096  # 0: unbuffered
        self.k = None  # the kernel's offset, if moved behind the buffer's back
        self.hist = []  # reads and seeks since the buffer was last discarded
        self.epoch = 0

    def seekable(self):
        return self._seekable

    def writable(self):
        return any(x in self.mode for x in "wa+") if isinstance(self.mode, str) else False

    # The buffer of a BufferedReader: it matters only once lseek() on the
    # descriptor has moved the kernel's offset.
    def window(self):
        """[a, b) of the file that the buffer holds, or None."""
        win = None
        for op, off, n in self.hist:
            if op == "s":
                if win is None or not (off >= win[0] and off <= win[1]):
                    win = None
                continue
            if isinstance(n, int) and n == 0:
                continue
            if win is not None:
                if off + n <= win[1]:
                    continue
                n = n - (win[1] - off)
                off = win[1]
            rest = n % self.bufsz
            if rest == 0:
                win = None
            else:
                a = off + n - rest
                win = (a, imin(a + self.bufsz, imax(self.node.size, a)))
        return win

    def moved(self, to):
        """lseek() on the descriptor."""
        if not self.bufsz:
            self.pos = to
        else:
            self.k = to

    def raw_tell(self):
        if not self.bufsz:
            return self.pos
        if self.k is not None:
            return self.k
        v = self.w.c.int("raw_offset", 0)
        self.w.c.assume(v >= self.pos)
        r = RawPos(as_z3int(v))
        r.raw_of = (self, self.epoch)
        return r

    def raw_seek(self, off):
        if getattr(off, "raw_of", None) == (self, self.epoch):
            self.k = None
            return off
        if self.hist or self.k is not None:
            self.k = off
            return off
        return self.seek(off)

    def _skewed(self, n):
        win = self.window()
        avail = 0
        if win is not None and self.pos >= win[0] and self.pos <= win[1]:
            avail = win[1] - self.pos
            if n <= avail:
                off = self.pos
                self.pos = self.pos + n
                return SymBytes.src(self.node.src, off, n)
        more = imin(n - avail, imax(0, self.node.size - self.k))
        d = SymBytes(
            [("s", self.node.src, self.pos, avail), ("s", self.node.src, self.k, more)]
        )
        self.pos = self.pos + avail + more
        self.k = self.k + more
        self.hist = []
        return d

    def _take(self, n):
        c = self.w.c
        self._chk()
        self.w.fault("read", self)
        left = imax(0, self.node.size - self.pos)
        if n is None or (isinstance(n, int) and n < 0):
            n = left
        elif isinstance(n, SymInt) and n < 0:
            n = left
        else:
            if isinstance(n, int) and n > 0x7FFFFFFFFFFFFFFF:
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            n = imin(n, left)
        n = self.w.limit_read(self, n)
        if self.k is not None:
            return None, n
        off = self.pos
        self.pos = self.pos + n
        self.hist.append(("r", off, n))
        self.node.reads.append((off, n))
        return off, n

    def read(self, n=-1):
        off, n = self._take(n)
        if off is None:
            return self._skewed(n)
        if isinstance(n, int) and n == 0:
            return b""
        return SymBytes.src(self.node.src, off, n)

    read1 = read

    def readinto(self, buf):
        v = buf if isinstance(buf, SymView) else SymView(buf)
        off, n = self._take(v.symlen())
        if off is None:
            d = self._skewed(n)
            n = d.symlen()
            v[0:n] = d
            return n
        v[0:n] = SymBytes.src(self.node.src, off, n)
        return n

    readinto1 = readinto

    def peek(self, n=0):
        p = self.pos
        r = self.read(BUFSZ)
        self.pos = p
        return r

    def pread(self, n, off):
        self._chk()
        self.w.fault("read", self)
        n = self.w.limit_read(self, imin(n, imax(0, self.node.size - off)))
        self.node.reads.append((off, n))
        return SymBytes.src(self.node.src, off, n)

    def seek(self, off, whence=0):
        self._chk()
        if not self._seekable:
            raise _io.UnsupportedOperation("underlying stream is not seekable")
        self.w.fault("seek", self)
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        elif whence == 2:
            new = self.node.size + off
        else:
            self.w.c.cut("seek whence %r" % (whence,))
        if new < 0:
            raise OSError(_errno.EINVAL, "Invalid argument")
        if self.k is not None:
            win = self.window()
            if whence == 2 or win is None or not (new >= win[0] and new <= win[1]):
                self.k = None
                self.hist = []
                self.epoch += 1
        elif self.hist:
            self.hist.append(("s", new, 0))
        self.pos = new
        return new

    def tell(self):
        self._chk()
        if not self._seekable:
            raise OSError(_errno.ESPIPE, "Illegal seek")
        return self.pos

    def write(self, b):
        return self._alter("write", values.sx_len(b))

    def truncate(self, n=None):
        return self._alter("truncate", self.pos if n is None else n)

    def _alter(self, what, r):
        self._chk()
        if not self.writable():
            raise _io.UnsupportedOperation(what)
        if self.node.harmed is None:
            self.node.harmed = what
        return r

    def __iter__(self):
        self.w.c.cut("line iteration over opaque data")

    def readline(self, *a):
        self.w.c.cut("readline of opaque data")

    readlines = readline


class SinkFile(OpenFile):
    """Buffered binary writer (BufferedWriter / BufferedRandom semantics)."""

    def __init__(self, w, node, name, mode="rb+", buffered=True):
        super().__init__(w, node, name, mode)
        self.pos = 0
        self.pend = None  # [off, pieces]
        self.buffered = buffered
        if "w" in mode and not node.bdev and _stat.S_ISREG(node.mode):
            w.sink_op(node, ("t", 0), fault=False)

    # kernel
    def _kwrite(self, off, pieces):
        self.w.fault("write", self)
        n = total(pieces)
        if self.node.capacity is not None:
            if off + n > self.node.capacity:
                raise OSError(_errno.ENOSPC, "No space left on device")
        self.w.sink_op(self.node, ("w", off, pieces))

    def _kwrite_at_pos(self, b):
        p = pieces_of(b)
        self._kwrite(self.pos, p)
        self.pos = self.pos + total(p)

    def _drain(self):
        if self.pend is not None:
            off, pieces = self.pend
            self._kwrite(off, pieces)
            self.pend = None

    def sync_pending(self):
        """Before an operation on the file descriptor: a write larger than the
        buffer has already reached the kernel."""
        if self.pend is not None:
            n = total(self.pend[1])
            if not (n <= BUFSZ):
                self._drain()

    def write(self, b):
        self._chk()
        if isinstance(b, (str, SymStr, LazyStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        p = pieces_of(b)
        if p is None:
            raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)
        n = total(p)
        self.w.event("write", self.node)
        if not self.buffered:
            self._kwrite(self.pos, p)
            self.pos = self.pos + n
            return n
        eager = self.w.fault_hook is not None or (
            # when a flush may fail it matters when it happens
            self.node.tight
            and not isinstance(n, int)
        )
        if self.pend is not None:
            # contiguous write without a seek in between
            off, q = self.pend
            if total(q) + n <= BUFSZ:
                self.pend = [off, norm(q + p)]
                self.pos = self.pos + n
                return n
            self._drain()
        self.pend = [self.pos, list(p)]
        self.pos = self.pos + n
        if isinstance(n, int):
            if n > BUFSZ:
                self._drain()
            elif n == 0:
                self.pend = None
        elif eager:
            if n > BUFSZ:
                self._drain()
        return n

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        self._chk()
        self.w.fault("flush", self)
        self._drain()

    def seek(self, off, whence=0):
        self._chk()
        self.w.fault("seek", self)
        self._drain()
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        elif whence == 2:
            new = (self.node.capacity if self.node.bdev else self.node.size) + off
        else:
            self.w.c.cut("seek whence")
        if new < 0:
            raise OSError(_errno.EINVAL, "Invalid argument")
        self.pos = new
        return new

    def tell(self):
        self._chk()
        return self.pos

    def truncate(self, n=None):
        self._chk()
        self._drain()
        if n is None:
            n = self.pos
        self.w.fault("truncate", self)
        if self.node.bdev:
            raise OSError(_errno.EINVAL, "Invalid argument")
        self.w.sink_op(self.node, ("t", n))
        return n

    def read(self, n=-1):
        if self.mode in ("wb", "ab"):
            raise _io.UnsupportedOperation("read")
        self.w.c.cut("reading the destination back")

    readinto = read

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                self.closed = True
                self.w.event("close", self)

    # descriptor-level
    def fd_lseek(self, off, whence):
        self.sync_pending()
        self.w.fault("lseek", self)
        if whence == 2:
            # the descriptor offset moves below the buffered layer; the code
            # under test always seeks before writing
            base = self.node.capacity if self.node.bdev else self.node.size
            self.pos = base + off
        elif whence == 0:
            self.pos = off
        else:
            self.pos = self.pos + off
        return self.pos

    def fd_truncate(self, n):
        self.sync_pending()
        self.w.fault("truncate", self)
        if self.node.bdev:
            raise OSError(_errno.EINVAL, "Invalid argument")
        if n < 0:
            raise OSError(_errno.EINVAL, "Invalid argument")
        self.w.sink_op(self.node, ("t", n))

    def fd_fsync(self, what="fsync"):
        self.sync_pending()
        self.w.fault("fsync", self)
        if not (_stat.S_ISREG(self.node.mode) or self.node.bdev):
            raise OSError(_errno.EINVAL, "Invalid argument")
        self.w.sink_op(self.node, ("s", what), fault=False)

    def fd_write(self, b):
        p = pieces_of(b)
        self._kwrite(self.pos, p)
        self.pos = self.pos + total(p)
        return total(p)

    def fd_pwrite(self, b, off):
        p = pieces_of(b)
        self._kwrite(off, p)
        return total(p)


class TextFile(OpenFile):
    """Small file: text or binary view of a TextNode, shared content."""

    def __init__(self, w, node, name, mode="r"):
        super().__init__(w, node, name, mode)
        self.binary = "b" in mode
        self.pos = 0
        self.buf = None
        self.dirty = False
        if "w" in mode:
            node.content = b"" if self.binary else ""
            w.event("trunc", node)
        self._load()

    def _load(self):
        self.buf = self.node.data() if self.binary else self.node.text()

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return "w" in self.mode or "+" in self.mode or "a" in self.mode

    def read(self, n=-1):
        self._chk()
        if not self.readable():
            raise _io.UnsupportedOperation("not readable")
        self.w.fault("read", self)
        self._sync()
        if self.node.on_read:
            self.node.on_read(self)
            self._load()
        if self.w.maps:
            self.w.publish()
            if self.node.content != self.buf:
                self._load()
        if n is None or n < 0:
            r = self.buf[self.pos :]
        else:
            if n > 0x7FFFFFFFFFFFFFFF:
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            r = self.buf[self.pos : self.pos + n]
        self.pos += len(r)
        return r

    read1 = read

    def readinto(self, b):
        r = self.read(values.sx_len(b))
        b[0 : len(r)] = r
        return len(r)

    def readline(self, n=-1):
        nl = b"\n" if self.binary else "\n"
        i = self.buf.find(nl, self.pos)
        end = len(self.buf) if i < 0 else i + 1
        r = self.buf[self.pos : end]
        self.pos = end
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def seek(self, off, whence=0):
        self._chk()
        self.w.fault("seek", self)
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = len(self.buf) + off
        self._sync()
        self.pos = off
        return off

    def tell(self):
        self._chk()
        if not self.binary:
            self._sync()
        return self.pos

    def write(self, s):
        self._chk()
        if not self.writable():
            raise _io.UnsupportedOperation("not writable")
        s = force(s)
        if self.binary:
            if isinstance(s, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            lit = all_literal(s)
            if lit is None:
                self.w.c.cut("opaque data written to a small file")
            s = lit
        elif isinstance(s, SymStr):
            self.w.c.cut("symbolic string written to a file")
        elif not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.w.fault("write", self)
        self.w.event("write", self.node)
        if self.node.on_write:
            self.node.on_write(s)
            return len(s)
        if "a" in self.mode:
            self.pos = len(self.buf)
        if self.node.log is not None:
            self.node.log.append((self.pos, s))
        pad = b"\0" if self.binary else "\0"
        b = self.buf
        if self.pos > len(b):
            b = b + pad * (self.pos - len(b))
        self.buf = b[: self.pos] + s + b[self.pos + len(s) :]
        self.pos += len(s)
        self.dirty = True
        return len(s)

    def _sync(self):
        if self.dirty:
            self.dirty = False
            self.node.content = self.buf

    def close(self):
        if not self.closed:
            super().close()
            self._sync()

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._chk()
        if self.writable():
            self.w.fault("flush", self)
            self._sync()

    def truncate(self, n=None):
        self._sync()
        n = self.pos if n is None else n
        if isinstance(n, SymInt):
            self.w.c.cut("truncation of a small file to a symbolic size")
        self.w.fault("truncate", self)
        self.buf = self.buf[:n]
        if len(self.buf) < n:
            self.buf = self.buf + (b"\0" if self.binary else "\0") * (n - len(self.buf))
        self.node.content = self.buf
        return n

    def getvalue(self):
        return self.buf


class PipeReader(DataFile):
    """stdout of a child process: unseekable stream."""

    def __init__(self, w, node, name):
        super().__init__(w, node, name, "rb", seekable=False)


# ---------------------------------------------------------------------------
# the world
# ---------------------------------------------------------------------------


class Msg:
    def __init__(self, level, msg, args):
        self.level, self.msg, self.args_ = level, msg, args

    def text(self):
        try:
            m = values.sx_str(self.msg)
            if self.args_:
                m = values.sx_mod(m, self.args_ if not (len(self.args_) == 1 and isinstance(self.args_[0], dict)) else self.args_[0])
            return str(force(m))
        except core.Steer:
            raise
        except Exception as e:
            return "<unformattable: %s>" % e


class World:
    def __init__(self, c, policy="eager"):
        self.c = c
        self.nodes = {}
        self.fds = {}
        self._next_fd = 100000
        self.events = []
        self.msgs = []
        self.maps = []
        self.queues = []
        self.fault_hook = None
        self.short_reads = None
        self.max_inflight = []
        self.env = {"PATH": "/usr/bin:/bin", "HOME": "/root"}
        self.argv = ["bmaptool"]
        self.stdout = OutStream(self, "<stdout>")
        self.stderr = OutStream(self, "<stderr>")
        self.stdin = None
        self.exec_files = set()
        self.procs = []
        self.popen = None
        self.hash_facts = []
        self.n_fresh_hash = 0
        self.gpg = None
        self.urlopen = None
        self.netrc = None
        self.ioctl_hook = None
        self.clock = 1000.0
        self.tmp_n = 0
        self.cwd = "/work"
        self.sched = threads.Sched(c, policy)
        c.extra["world"] = self
        self.loader = loader.Loader(self._stubs(), {"open": self.open, "print": self._print})

    # -- helpers ----------------------------------------------------------
    def mod(self, name):
        return self.loader.load(name)

    def summarise_human_size(self):
        """Do not follow the formatting of sizes for messages (it has a check of
        its own); saves one fork per order of magnitude."""
        m = self.mod("BmapHelpers")
        if hasattr(m, "human_size"):
            m.human_size = lambda size, *a, **k: "(size)"

    def new_fd(self, f):
        self._next_fd += 1
        self.fds[self._next_fd] = f
        return self._next_fd

    def event(self, kind, obj, *a):
        self.events.append((kind, obj) + a)

    def fault(self, kind, f):
        # (a destructor of an earlier path may run late)
        if self.fault_hook is not None and core.CUR is self.c:
            self.fault_hook(kind, f)

    def limit_read(self, f, n):
        if self.short_reads is not None:
            return self.short_reads(f, n)
        return n

    def sink_op(self, node, op, fault=True):
        if op[0] == "t":
            node.size = op[1]
        elif op[0] == "w" and not node.bdev:
            node.size = imax(node.size, op[1] + total(op[2]))
        node.ops.append(op)
        self.events.append(("sink", node, op))

    def on_put(self, q, item, done):
        if done:
            self.events.append(("put", q, item))

    def on_get(self, q, item):
        self.events.append(("get", q, item))

    def add(self, path, node):
        self.nodes[path] = node
        return node

    def node(self, path):
        if isinstance(path, (SymStr, LazyStr)):
            path = force(path)
        if isinstance(path, SymStr):
            for p, n in self.symnodes:
                if p is path or (type(p) is SymStr is type(path) and p.t.eq(path.t)):
                    return n
            for p, n in self.symnodes:
                if path == p:
                    return n
            # compare with every known path
            for p in sorted(self.nodes):
                if path == p:
                    return self.nodes[p]
            return None
        if isinstance(path, int):
            f = self.fds.get(path)
            return f.node if f else None
        if hasattr(path, "__fspath__"):
            path = path.__fspath__()
        if isinstance(path, bytes):
            path = path.decode()
        if not isinstance(path, str):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(path).__name__)
        n = self.nodes.get(path)
        if n is None:
            n = self.nodes.get(self.resolve(path))
        return n

    symnodes = ()  # (path, node) of files with symbolic names
    links = {}

    def resolve(self, path):
        """The path with the links followed."""
        path = posixpath.normpath(posixpath.join(self.cwd, path))
        for _ in range(8):
            for a, b in self.links.items():
                if path == a or path.startswith(a + "/"):
                    path = posixpath.normpath(posixpath.join(posixpath.dirname(a), b)) + path[len(a) :]
                    break
            else:
                break
        return path

    def publish(self):
        """What was written to shared mappings shows in the files."""
        for m in self.maps:
            m.publish()

    def noent(self, path):
        return FileNotFoundError(_errno.ENOENT, "No such file or directory", str(path))

    # -- open -------------------------------------------------------------
    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(path, SymInt):
            self.c.cut("open of a symbolic descriptor")
        if opener is not None:
            path = opener(path, 0)
        if isinstance(path, int):
            f = self.fds.get(path)
            if f is None:
                raise OSError(_errno.EBADF, "Bad file descriptor")
            return self._file(f.node, path, mode, buffering)
        self.event("open", path, mode)
        self.fault("open", (path, mode))
        n = self.node(path)
        if n is None:
            if "w" in mode or "a" in mode or "x" in mode:
                n = self.create(path, mode)
            else:
                raise self.noent(path)
        elif "x" in mode:
            raise FileExistsError(_errno.EEXIST, "File exists", str(path))
        if isinstance(n, DirNode):
            raise IsADirectoryError(_errno.EISDIR, "Is a directory", str(path))
        err = getattr(n, "open_error", None)
        if err is not None:
            e = err(mode)
            if e:
                raise OSError(e, _os.strerror(e), str(path))
        return self._file(n, path, mode, buffering)

    on_create = None

    def create(self, path, mode):
        if self.on_create is not None:
            n = self.on_create(path, mode)
            if n is not None:
                self.nodes[path] = n
                return n
        if "b" in mode:
            return self.add(path, SinkNode(path, 0))
        return self.add(path, TextNode(path))

    def _file(self, n, name, mode, buffering=-1):
        if isinstance(n, DataNode):
            if "b" not in mode:
                self.c.cut("opaque data opened in text mode")
            if "w" in mode:
                n.harmed = "truncated"
                n.size = 0
            f = DataFile(self, n, name, mode)
            if getattr(n, "seekable", True) is False:
                f._seekable = False
            f.bufsz = buffering if buffering not in (-1, 1) else getattr(n, "bufsz", None) or n.blksize
            return f
        if isinstance(n, SinkNode):
            return SinkFile(self, n, name, mode, buffering != 0)
        if isinstance(n, TextNode):
            return TextFile(self, n, name, mode)
        return OpenFile(self, n, name, mode)

    def tempfile_(self, mode="w+b", *a, dir=None, **k):
        self.tmp_n += 1
        if dir is None and len(a) > 5:
            dir = a[5]
        where = self.resolve("/tmp" if dir is None else force(dir))
        self.tempdir = where
        self.fault("tempfile", mode)
        path = "/tmp/tmp%d" % self.tmp_n
        node = TextNode(path, b"" if "b" in mode else "")
        node.temp = True
        node.keep = not k.get("delete", True)  # nobody removes it by itself
        node.tempdir = where
        self.nodes[path] = node
        f = TextFile(self, node, path, "w+b" if "b" in mode else "w+")
        return f

    def _print(self, *a, sep=" ", end="\n", file=None, flush=False):
        f = file if file is not None else self.stdout
        f.write(sep.join(str(force(x)) for x in a) + end)

    # -- descriptors ------------------------------------------------------
    def fobj(self, fd):
        if isinstance(fd, int):
            f = self.fds.get(fd)
            if f is None:
                raise OSError(_errno.EBADF, "Bad file descriptor")
            return f
        if hasattr(fd, "fileno"):
            return self.fobj(fd.fileno())
        raise TypeError("argument must be an int, or have a fileno() method.")

    def _stubs(self):
        w = self
        st = threads.make_modules(self.sched, self)
        osm = OsStub(self)
        st.update(
            {
                "os": osm,
                "os.path": osm.path,
                "posixpath": osm.path,
                "sys": SysStub(self),
                "io": IoStub(self),
                "hashlib": HashlibStub(self),
                "struct": StructStub,
                "array": ArrayStub,
                "fcntl": FcntlStub(self),
                "mmap": MmapStub(self),
                "tempfile": TempfileStub(self),
                "subprocess": SubprocessStub(self),
                "time": TimeStub(self),
                "datetime": DatetimeStub(self),
                "logging": LoggingStub(self),
                "shutil": ShutilStub(self),
                "gpg": None,
                "netrc": NetrcStub(self),
                "socket": _import("socket"),
                "urllib.request": UrlRequestStub(self),
                "urllib.parse": UrlParseStub(self),
                "shlex": ShlexStub(),
                "urllib.error": _import("urllib.error"),
                "http.client": _import("http.client"),
                "signal": _Permissive("signal"),
                "select": _Permissive("select"),
            }
        )
        et = ElementTreeStub(self)
        st["xml.etree.ElementTree"] = st["xml.etree.cElementTree"] = et
        st["xml.etree"] = RealPkg("xml.etree", ElementTree=et)
        st["xml"] = RealPkg("xml", etree=st["xml.etree"])
        st["urllib"] = types.SimpleNamespace(
            request=st["urllib.request"],
            parse=st["urllib.parse"],
            error=st["urllib.error"],
        )
        st["http"] = types.SimpleNamespace(client=st["http.client"])
        del st["gpg"]
        return st


def _import(n):
    return __import__(n, None, None, ("x",), 0)


class RealPkg(types.ModuleType):
    """A package of the standard library with some modules replaced."""

    def __init__(self, name, **k):
        super().__init__(name)
        self.__dict__.update(k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _import(self.__name__ + "." + name)


class ElementTreeStub(types.ModuleType):
    """The real module, except that files are opened in the modelled world."""

    def __init__(self, w):
        super().__init__("xml.etree.ElementTree")
        self.__dict__["_m"] = m = _import("xml.etree.ElementTree")

        class ElementTree(m.ElementTree):
            def __init__(self, element=None, file=None):
                super().__init__(element)
                if file is not None:
                    self.parse(file)

            def parse(self, source, parser=None):
                if hasattr(source, "read"):
                    return super().parse(source, parser)
                with w.open(source, "rb") as f:
                    return super().parse(f, parser)

        self.ElementTree = ElementTree

        def parse(source, parser=None):
            t = ElementTree()
            t.parse(source, parser)
            return t

        self.parse = parse

        def iterparse(source, events=None, parser=None):
            if not hasattr(source, "read"):
                source = w.open(source, "rb")
            return m.iterparse(source, events, parser)

        self.iterparse = iterparse

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["_m"], name)


class _Permissive(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("%s.%s is not modelled" % (self.__name__, name))


class OutStream:
    encoding = "utf-8"
    closed = False

    def __init__(self, w, name):
        self.w = w
        self.name = name
        self.chunks = []
        self.tty = False

    def write(self, s):
        self.w.event("out", self)
        self.chunks.append(force(s))
        return len(s) if isinstance(s, str) else 0

    def flush(self):
        pass

    def isatty(self):
        return self.tty

    def fileno(self):
        return {"<stdin>": 0, "<stdout>": 1, "<stderr>": 2}.get(self.name, 1)

    def text(self):
        return "".join(str(c) for c in self.chunks)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    @property
    def buffer(self):
        return self


class SysStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("sys")
        d = self.__dict__
        d["_w"] = w
        d["stdout"] = w.stdout
        d["stderr"] = w.stderr
        d["stdin"] = w.stdin
        d["argv"] = w.argv
        d["modules"] = w.c.extra.setdefault("sysmodules", {})

    def __getattr__(self, name):
        if name in (
            "exc_info exit version version_info maxsize platform byteorder executable "
            "getdefaultencoding getfilesystemencoding hexversion implementation "
            "exc_clear intern float_info getsizeof getrecursionlimit path flags "
            "stdlib_module_names _getframe exception"
        ).split():
            return getattr(_sys, name)
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("sys.%s is not modelled" % name)


class TextBuffer(_io.StringIO):
    """io.StringIO which takes texts that are not spelled out yet."""

    def __init__(self, text="", newline="\n"):
        super().__init__(values.force(text), newline)

    def write(self, text):
        return super().write(values.force(text))

    def writelines(self, lines):
        for x in lines:
            self.write(x)


class IoStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("io")
        self.open = w.open
        self.StringIO = TextBuffer
        for n in "BytesIO UnsupportedOperation SEEK_SET SEEK_CUR SEEK_END DEFAULT_BUFFER_SIZE IOBase RawIOBase BufferedIOBase TextIOBase BlockingIOError".split():
            setattr(self, n, getattr(_io, n))

        def FileIO(name, mode="r", closefd=True, opener=None):
            return w.open(name, mode if "b" in mode else mode + "b", 0)

        self.FileIO = FileIO
        self.BufferedReader = lambda raw, buffer_size=8192: raw
        self.BufferedWriter = lambda raw, buffer_size=8192: raw
        self.BufferedRandom = lambda raw, buffer_size=8192: raw


class StatResult:
    def __init__(self, w, node):
        self.st_mode = node.mode
        self.st_size = node.get_size()
        self.st_rdev = node.rdev
        self.st_blksize = node.blksize
        self.st_blocks = 0
        self.st_uid = self.st_gid = 0
        self.st_ino = id(node)
        self.st_dev = 1
        self.st_nlink = 1
        self.st_mtime = self.st_atime = self.st_ctime = 0.0

    def __getitem__(self, i):
        return [self.st_mode, self.st_ino, self.st_dev, 1, 0, 0, self.st_size, 0, 0, 0][i]


class PathStub(types.ModuleType):
    SAFE = "join dirname basename splitext normpath split isabs commonprefix commonpath sep pardir curdir extsep splitdrive normcase relpath".split()

    def __init__(self, w):
        super().__init__("posixpath")
        self.__dict__["_w"] = w

    def __getattr__(self, name):
        if name in self.SAFE:
            f = getattr(posixpath, name)
            if not callable(f):
                return f
            return _symstr_path(name, f)
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("os.path.%s is not modelled" % name)

    def abspath(self, p):
        if isinstance(p, SymStr):
            return p
        return posixpath.normpath(posixpath.join(self._w.cwd, force(p)))

    def realpath(self, p, **k):
        if isinstance(p, SymStr):
            return p
        return self._w.resolve(force(p))

    def expanduser(self, p):
        return p.replace("~", "/root", 1) if p.startswith("~") else p

    def expandvars(self, p):
        return p

    def exists(self, p):
        return self._w.node(p) is not None

    lexists = exists

    def isfile(self, p):
        n = self._w.node(p)
        if n is None:
            return p in self._w.exec_files
        return _stat.S_ISREG(n.mode)

    def isdir(self, p):
        n = self._w.node(p)
        return n is not None and _stat.S_ISDIR(n.mode)

    def islink(self, p):
        return not isinstance(p, SymStr) and self.abspath(p) in self._w.links

    def getsize(self, p):
        n = self._w.node(p)
        if n is None:
            raise self._w.noent(p)
        return n.get_size()

    def samefile(self, a, b):
        return self._w.node(a) is self._w.node(b)


def _symstr_path(name, f):
    def g(*a, **k):
        a = [force(x) for x in a]
        if any(isinstance(x, SymStr) for x in a):
            if name == "splitext":
                return symstr_splitext(a[0])
            if name == "basename":
                return a[0].rpartition("/")[2]
            if name == "dirname":
                return a[0].rpartition("/")[0]
            if name == "normpath":
                return a[0]
            ctx().cut("os.path.%s of a symbolic string" % name)
        return f(*a, **k)

    return g


def symstr_splitext(p):
    """os.path.splitext (leading dots of the last component are not extensions)."""
    dot = p.rfind(".")
    sep = p.rfind("/")
    if dot > sep:
        # skip leading dots
        base = p[sep + 1 : dot]
        if isinstance(base, str):
            allDots = base.strip(".") == ""
        else:
            allDots = bool(
                values.mk_bool(z3.InRe(base.t, z3.Star(z3.Re("."))))
            )
        if not allDots:
            return p[:dot], p[dot:]
    return p, ""


class OsStub(types.ModuleType):
    CONST = (
        "O_RDONLY O_WRONLY O_RDWR O_EXCL O_CREAT O_TRUNC O_NONBLOCK O_SYNC O_DIRECT O_CLOEXEC O_APPEND O_DSYNC "
        "SEEK_SET SEEK_CUR SEEK_END SEEK_DATA SEEK_HOLE F_OK R_OK W_OK X_OK sep pathsep linesep "
        "name error devnull strerror major minor makedev fspath curdir pardir extsep getpid "
        "PathLike fsencode fsdecode POSIX_FADV_SEQUENTIAL POSIX_FADV_DONTNEED POSIX_FADV_WILLNEED POSIX_FADV_NOREUSE "
        "POSIX_FADV_NORMAL POSIX_FADV_RANDOM getuid geteuid getgid cpu_count uname"
    ).split()

    def __init__(self, w):
        super().__init__("os")
        self.__dict__["_w"] = w
        self.__dict__["path"] = PathStub(w)
        self.__dict__["environ"] = w.env

    def __getattr__(self, name):
        if name in self.CONST:
            return getattr(_os, name)
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("os.%s is not modelled" % name)

    def getenv(self, k, d=None):
        return self._w.env.get(k, d)

    def getcwd(self):
        return self._w.cwd

    def fstat(self, fd):
        f = self._w.fobj(fd)
        self._w.fault("fstat", f)
        return StatResult(self._w, f.node)

    def stat(self, p, **k):
        n = self._w.node(p)
        if n is None:
            raise self._w.noent(p)
        return StatResult(self._w, n)

    lstat = stat

    def access(self, p, m, **k):
        n = self._w.node(p)
        return n is not None or p in self._w.exec_files

    def ftruncate(self, fd, n):
        self._w.fobj(fd).fd_truncate(n) if isinstance(self._w.fobj(fd), SinkFile) else self._w.fobj(fd).truncate(n)

    def truncate(self, p, n):
        if not isinstance(p, (str, bytes)):
            return self.ftruncate(p, n)
        node = self._w.node(p)
        if node is None:
            raise self._w.noent(p)
        if not isinstance(node, SinkNode):
            ctx().cut("truncate of %r" % p)
        self._w.fault("truncate", None)
        if node.bdev:
            raise OSError(_errno.EINVAL, "Invalid argument")
        self._w.sink_op(node, ("t", n))

    def posix_fallocate(self, fd, off, n):
        ctx().cut("posix_fallocate")

    def posix_fadvise(self, *a):
        return None

    def fsync(self, fd):
        f = self._w.fobj(fd)
        if isinstance(f, SinkFile):
            f.fd_fsync("fsync")
        else:
            self._w.fault("fsync", f)
            self._w.event("fsync", f.node)

    def fdatasync(self, fd):
        f = self._w.fobj(fd)
        if isinstance(f, SinkFile):
            f.fd_fsync("fdatasync")
        else:
            self.fsync(fd)

    def sync(self):
        ctx().cut("os.sync")

    def lseek(self, fd, off, whence):
        f = self._w.fobj(fd)
        if whence in (3, 4):
            return seek_hole_data(self._w, f, off, whence)
        if isinstance(f, SinkFile):
            return f.fd_lseek(off, whence)
        if isinstance(f, DataFile):
            if whence == 1 and isinstance(off, int) and off == 0:
                return f.raw_tell()
            if whence == 0:
                return f.raw_seek(off)
            if f.hist or f.k is not None:
                ctx().cut("lseek on the descriptor of a buffered reader")
        return f.seek(off, whence)

    def open(self, path, flags, mode=0o777, **k):
        self._w.event("os.open", path, flags)
        self._w.fault("open", (path, flags))
        n = self._w.node(path)
        if n is None:
            if not flags & _os.O_CREAT:
                raise self._w.noent(path)
            n = self._w.create(path, "wb")
        err = getattr(n, "open_error", None)
        if err is not None:
            e = err(flags)
            if e:
                raise OSError(e, _os.strerror(e), str(path))
        acc = flags & _os.O_ACCMODE
        f = self._w._file(n, path, {0: "rb", 1: "rb+", 2: "rb+"}[acc], 0)
        if flags & _os.O_TRUNC and isinstance(n, SinkNode) and not n.bdev:
            self._w.sink_op(n, ("t", 0))
        if flags & _os.O_TRUNC and isinstance(n, DataNode):
            n.harmed, n.size = "truncated", 0
        f.os_flags = flags
        return f.fd

    def fdopen(self, fd, mode="r", buffering=-1, *a, **k):
        f = self._w.fobj(fd)
        self._w.fault("fdopen", f)
        n = f.node
        m = mode
        if isinstance(n, SinkNode):
            g = SinkFile(self._w, n, fd, "rb+" if "w" in m else m, buffering != 0)
        else:
            g = self._w._file(n, fd, m, buffering)
        g.os_flags = getattr(f, "os_flags", None)
        del self._w.fds[g.fd]
        g.fd = fd
        self._w.fds[fd] = g
        return g

    def close(self, fd):
        f = self._w.fobj(fd)
        f.closed = True
        self._w.event("close", f)

    def read(self, fd, n):
        return self._w.fobj(fd).read(n)

    def pread(self, fd, n, off):
        return self._w.fobj(fd).pread(n, off)

    def readv(self, fd, bufs):
        ctx().cut("readv")

    def write(self, fd, b):
        f = self._w.fobj(fd)
        return f.fd_write(b) if isinstance(f, SinkFile) else f.write(b)

    def pwrite(self, fd, b, off):
        return self._w.fobj(fd).fd_pwrite(b, off)

    def isatty(self, fd):
        return False

    def remove(self, p):
        self._w.event("remove", p)
        self._w.nodes.pop(p, None)

    unlink = remove

    def makedirs(self, *a, **k):
        return None

    mkdir = makedirs

    def sched_yield(self):
        self._w.sched.point()

    def popen(self, *a):
        ctx().cut("os.popen")


def seek_hole_data(w, f, off, whence):
    """lseek(SEEK_DATA / SEEK_HOLE): delegated to the node's mapping model."""
    w.fault("lseek", f)
    n = f.node
    if getattr(n, "temp", False):
        return w.seek_temp(f, off, whence)
    if w.seek_model is None:
        ctx().cut("SEEK_DATA/SEEK_HOLE without a mapping model")
    r = w.seek_model(f, off, whence)
    if isinstance(f, DataFile):
        f.moved(r)
    return r


World.seek_model = None


def _seek_temp(self, f, off, whence):
    """A freshly truncated file: one hole."""
    if whence == 3:
        raise OSError(_errno.ENXIO, "No such device or address")
    return off


World.seek_temp = _seek_temp


# -- hashing -------------------------------------------------------------------


class Fact:
    """digest(algo, pieces) == token if ok (a bool or SymBool), something else otherwise."""

    def __init__(self, algo, pieces, token, ok=True, bad=None):
        self.algo = algo
        self.pieces = pieces
        self.token = token
        self.ok = ok
        self.bad = bad


def fresh_digest(w, algo):
    w.n_fresh_hash += 1
    return hash_hex(algo, b"symx-%d" % w.n_fresh_hash)


def hash_hex(algo, data):
    h = _hashlib.new(algo, data)
    if algo.startswith("shake"):
        return h.hexdigest(32)
    return h.hexdigest()


def same_range(p, q):
    """Condition (SymBool/bool) that two ropes are the same bytes of one source,
    or None when that cannot be expressed."""
    p, q = norm(p), norm(q)
    if not q or any(x[0] != "s" for x in p + q):
        return None
    src = q[0][1]
    if any(x[1] is not src for x in p + q):
        return None
    n1, n2 = total(p), total(q)
    conds = [n1 == n2]
    # contiguity of each rope, ignoring empty pieces
    for r in (p, q):
        for a, b in zip(r, r[1:]):
            conds.append(Or(a[2] + a[3] == b[2], b[3] == 0, a[3] == 0))
            # (an empty piece in the middle of three would need more care)
    if len(p) > 2 or len(q) > 2:
        for r in (p, q):
            for x in r:
                conds.append(x[3] > 0)
    if p:
        conds.append(Or(p[0][2] == q[0][2], n2 == 0))
    return And(*conds)


class HashObj:
    def __init__(self, w, algo, pieces=()):
        self._w = w
        self.name = algo
        self.pieces = list(pieces)
        h = _hashlib.new(algo)
        self.digest_size = h.digest_size
        self.block_size = h.block_size

    def update(self, x):
        p = pieces_of(x)
        if p is None:
            if isinstance(x, (str, SymStr, LazyStr)):
                raise TypeError("Strings must be encoded before hashing")
            else:
                try:
                    p = [("b", bytes(memoryview(x)))]
                except TypeError:
                    raise TypeError("object supporting the buffer API required")
        self.pieces += p
        self.pieces = norm(self.pieces)

    def copy(self):
        return HashObj(self._w, self.name, self.pieces)

    def hexdigest(self, *a):
        lit = all_literal(SymBytes(self.pieces)) if self.pieces else b""
        if lit is not None:
            h = _hashlib.new(self.name, lit)
            return h.hexdigest(*a)
        if a:
            ctx().cut("shake digest of symbolic data")
        w = self._w
        for f in w.hash_facts:
            if f.algo != self.name:
                continue
            cond = same_range(self.pieces, f.pieces)
            if cond is None:
                continue
            if cond:
                if f.ok:
                    return f.token
                if f.bad is None:
                    f.bad = near_miss(w, f)
                return f.bad
        tok = fresh_digest(w, self.name)
        w.hash_facts.append(Fact(self.name, list(self.pieces), tok))
        return tok

    def digest(self, *a):
        return bytes.fromhex(self.hexdigest(*a))


def near_miss(w, f):
    kind = w.c.choice("digest_diff", ["first", "last", "all"])
    t = f.token
    flip = lambda ch: "1" if ch != "1" else "2"
    if kind == "first":
        return flip(t[0]) + t[1:]
    if kind == "last":
        return t[:-1] + flip(t[-1])
    return fresh_digest(w, f.algo)


class HashlibStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("hashlib")
        self.__dict__["_w"] = w
        self.__dict__["algorithms_available"] = _hashlib.algorithms_available
        self.__dict__["algorithms_guaranteed"] = _hashlib.algorithms_guaranteed

    def new(self, name, data=b"", **k):
        if not isinstance(name, str):
            raise TypeError("name must be a string")
        h = _hashlib.new(name)  # ValueError for unknown names
        o = HashObj(self._w, h.name)
        if not (isinstance(data, (bytes, bytearray)) and not data):
            o.update(data)
        return o

    def __getattr__(self, name):
        if name in _hashlib.algorithms_guaranteed:
            return lambda data=b"", **k: self.new(name, data)
        if name == "file_digest":

            def fd(f, algo):
                h = self.new(algo) if isinstance(algo, str) else algo()
                while True:
                    b = f.read(1 << 20)
                    if not b:
                        return h
                    h.update(b)

            return fd
        raise AttributeError(name)


class MmapObj(_mmap.mmap):
    """A real mapping of a copy of the file's text."""

    node = None  # the file a shared writable mapping writes to

    def publish(self):
        if self.node is not None and not self.closed and self[:] != self.node.data():
            self.node.content = self[:]

    def close(self):
        self.publish()
        super().close()

    def flush(self, *a):
        self.publish()


class MmapStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("mmap")
        self.__dict__["_w"] = w

    def mmap(self, fd, length, *a, access=0, **k):
        if fd == -1:
            return MmapObj(fd, length, *a, access=access, **k)
        f = self._w.fobj(fd)
        if not isinstance(f.node, TextNode):
            ctx().cut("mmap of opaque data")
        flags = k.get("flags", a[0] if a else 1)
        prot = k.get("prot", a[1] if len(a) > 1 else 3)
        shared = access == 2 or (access == 0 and flags & 1 and prot & 2)
        if shared and not f.writable():
            raise PermissionError(_errno.EACCES, "Permission denied")
        data = bytes(f.node.data())
        if not data:
            raise ValueError("cannot mmap an empty file")
        tmp = _os.memfd_create("sx")
        try:
            _os.write(tmp, data)
            m = MmapObj(tmp, length, *a, access=access, **k)
            if shared:
                m.node = f.node
                self._w.maps.append(m)
            return m
        finally:
            _os.close(tmp)

    def __getattr__(self, name):
        return getattr(_mmap, name)


# -- ioctl -----------------------------------------------------------------------


class FcntlStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("fcntl")
        self.__dict__["_w"] = w
        import fcntl as _f

        for n in dir(_f):
            if n.isupper():
                self.__dict__[n] = getattr(_f, n)

    def ioctl(self, fd, req, arg=0, mutate_flag=True):
        w = self._w
        f = w.fobj(fd)
        req &= 0xFFFFFFFF
        w.fault("ioctl", (f, req))
        if w.ioctl_hook is not None:
            r = w.ioctl_hook(f, req, arg)
            if r is not NotImplemented:
                return r
        if req == 2:
            b = f.node.bsz_ioctl
            if b is None:
                raise OSError(_errno.ENOTTY, "Inappropriate ioctl for device")
            import struct as _s

            return _s.pack("I", b)
        raise OSError(_errno.ENOTTY, "Inappropriate ioctl for device")

    def flock(self, *a):
        return None

    lockf = flock

    def fcntl(self, *a):
        return 0


# -- temp files, processes, time -------------------------------------------------


class TempfileStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("tempfile")
        self.TemporaryFile = self.NamedTemporaryFile = w.tempfile_
        self.SpooledTemporaryFile = lambda max_size=0, mode="w+b", *a, **k: w.tempfile_(mode, *a, **k)

        def mkstemp(suffix="", prefix="tmp", dir=None, text=False):
            f = w.tempfile_("w+b", dir=dir, delete=False)
            return f.fd, f.name

        self.mkstemp = mkstemp
        self.gettempdir = lambda: "/tmp"


class SubprocessStub(types.ModuleType):
    PIPE = -1
    STDOUT = -2
    DEVNULL = -3

    def __init__(self, w):
        super().__init__("subprocess")
        import subprocess as _sp

        self.__dict__["_w"] = w
        for n in "CalledProcessError TimeoutExpired SubprocessError list2cmdline CompletedProcess".split():
            self.__dict__[n] = getattr(_sp, n)

    def Popen(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, **k):
        w = self._w
        if w.popen is None:
            ctx().cut("subprocess without a process model")
        p = w.popen(
            dict(args=args, stdin=stdin, stdout=stdout, stderr=stderr, shell=shell, kw=k)
        )
        p.args = args
        w.procs.append(p)
        w.event("popen", p)
        return p

    def run(self, args, input=None, capture_output=False, check=False, timeout=None, text=None, encoding=None, universal_newlines=None, **k):
        if capture_output:
            k["stdout"] = k["stderr"] = self.PIPE
        p = self.Popen(args, **k)
        out, err = p.communicate(input)
        if text or encoding or universal_newlines:
            out = out.decode() if isinstance(out, bytes) else out
            err = err.decode() if isinstance(err, bytes) else err
        if check and p.returncode:
            raise self.CalledProcessError(p.returncode, args, out, err)
        return self.CompletedProcess(args, p.returncode, out, err)

    def check_output(self, args, **k):
        return self.run(args, stdout=self.PIPE, check=True, **k).stdout

    def check_call(self, args, **k):
        return self.run(args, check=True, **k).returncode

    def call(self, args, **k):
        return self.run(args, **k).returncode


class Proc:
    """A child process model."""

    def __init__(self, rc=0, stdout=None, stderr=None, stdin=None, out=b"", err=b""):
        self.returncode = None
        self._rc = rc
        self.stdout = stdout
        self.stderr = stderr
        self.stdin = stdin
        self._out, self._err = out, err
        self.pid = 4242
        self.killed = False
        self.waited = False

    def wait(self, timeout=None):
        self.returncode = self._rc
        self.waited = True
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        return self._out, self._err

    def kill(self):
        self.killed = True

    terminate = kill

    def send_signal(self, s):
        self.killed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class TimeStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("time")
        self.__dict__["_w"] = w

    def _look(self, kind):
        if self._w.sym_clock is not None:
            return self._w.sym_clock(kind)
        self._w.clock += 1.5
        return self._w.clock

    def time(self):
        return self._look("time")

    def monotonic(self):
        return self._look("monotonic")

    perf_counter = process_time = monotonic

    def time_ns(self):
        from .values import sx_int

        return sx_int(self.time() * 10**9)

    def monotonic_ns(self):
        from .values import sx_int

        return sx_int(self.monotonic() * 10**9)

    perf_counter_ns = monotonic_ns

    def sleep(self, s):
        self._w.clock += 1.0
        self._w.sched.point()

    def __getattr__(self, name):
        import time as _t

        if name in ("strftime", "gmtime", "localtime", "ctime"):
            return getattr(_t, name)
        raise AttributeError(name)


class DatetimeStub(types.ModuleType):
    """datetime: now() advances by a modelled amount."""

    def __init__(self, w):
        super().__init__("datetime")
        self.timedelta = _dt.timedelta
        self.timezone = _dt.timezone
        self.date = _dt.date
        self.UTC = _dt.timezone.utc

        class datetime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                w.clock += w.now_step()
                return _dt.datetime(2020, 1, 1, tzinfo=tz) + _dt.timedelta(seconds=w.clock)

            utcnow = now

            @classmethod
            def today(cls):
                return cls.now()

        self.datetime = datetime


def _now_step(self):
    """Seconds between two looks at the clock: short or long, a free choice
    when the harness asks for it."""
    if self.free_clock:
        return self.c.choice("clock", [0.1, 1.0])
    return 1.0


World.now_step = _now_step
World.free_clock = False
World.sym_clock = None


class _Logger:
    def __init__(self, w, name):
        self._w = w
        self.name = name
        self.handlers = []
        self.level = 0

    def _rec(self, level, msg, args):
        self._w.msgs.append(Msg(level, msg, args))

    def debug(self, m, *a, **k):
        self._rec("debug", m, a)

    def info(self, m, *a, **k):
        self._rec("info", m, a)

    def warning(self, m, *a, **k):
        self._rec("warning", m, a)

    warn = warning

    def error(self, m, *a, **k):
        self._rec("error", m, a)

    exception = critical = fatal = error

    def log(self, lvl, m, *a, **k):
        self._rec("level%s" % lvl, m, a)

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def isEnabledFor(self, l):
        return True

    def hasHandlers(self):
        return True

    def getEffectiveLevel(self):
        return self.level

    def getChild(self, n):
        return self

    propagate = True


class LoggingStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("logging")
        import logging as _l

        d = self.__dict__
        d["_loggers"] = {}
        d["_w"] = w
        for n in "DEBUG INFO WARNING WARN ERROR CRITICAL FATAL NOTSET Formatter getLevelName LogRecord Filter".split():
            d[n] = getattr(_l, n)

        class Handler:
            def __init__(self, *a, **k):
                pass

            def setFormatter(self, f):
                pass

            def setLevel(self, l):
                pass

            def addFilter(self, f):
                pass

        d["Handler"] = d["StreamHandler"] = d["NullHandler"] = d["FileHandler"] = Handler
        d["Logger"] = _Logger
        d["addLevelName"] = lambda *a: None
        d["basicConfig"] = lambda **k: None
        d["captureWarnings"] = lambda *a: None
        d["disable"] = lambda *a: None

    def getLogger(self, name=None):
        l = self._loggers.get(name)
        if l is None:
            l = self._loggers[name] = _Logger(self._w, name)
        return l

    def __getattr__(self, name):
        if name in "debug info warning error critical exception log warn".split():
            return getattr(self.getLogger(None), name)
        raise AttributeError(name)


class ShutilStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("shutil")
        import shutil as _s

        self.Error = _s.Error

        def copyfileobj(src, dst, length=65536):
            while True:
                b = src.read(length)
                if not b:
                    break
                dst.write(b)

        def which(name, mode=None, path=None):
            for p in (path or w.env.get("PATH", "")).split(":"):
                q = posixpath.join(p, name)
                if q in w.exec_files:
                    return q
            return None

        self.copyfileobj = copyfileobj
        self.which = which

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("shutil.%s is not modelled" % name)


class NetrcStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("netrc")
        import netrc as _n

        self.NetrcParseError = _n.NetrcParseError

        def netrc(file=None):
            if w.netrc is None:
                raise FileNotFoundError(_errno.ENOENT, "No such file or directory")
            return w.netrc(file)

        self.netrc = netrc


class UrlRequestStub(types.ModuleType):
    """urllib.request: records credentials and opened URLs."""

    def __init__(self, w):
        super().__init__("urllib.request")

        class PasswordMgr:
            default_realm = False

            def __init__(self):
                self.entries = []

            def add_password(self, realm, uri, user, passwd, is_authenticated=False):
                uris = uri if isinstance(uri, (list, tuple)) else [uri]
                for u in uris:
                    self.entries.append(tuple(strings.decode(x) for x in (realm, u, user, passwd)))

            def add_passwords(self, *a):
                pass

        class DefaultMgr(PasswordMgr):
            default_realm = True

        class Handler:
            def __init__(self, mgr=None, *a, **k):
                self.mgr = mgr
                if mgr is not None and hasattr(mgr, "add_password"):
                    self.passwd = mgr
                    self.add_password = mgr.add_password

        class Basic(Handler):
            pass

        class Digest(Handler):
            pass

        class Opener:
            def __init__(self, handlers=()):
                self.handlers = list(handlers)
                self.addheaders = []

            def open(self, url, data=None, timeout=None):
                self.headers = dict(self.addheaders)
                if isinstance(url, Request):
                    self.headers.update(url.headers)
                    url = url.full_url
                url = strings.decode(url)
                if isinstance(url, str) and "://" not in url:
                    raise ValueError("unknown url type: %r" % url)
                w.event("urlopen", url, self.handlers, timeout)
                if w.urlopen is None:
                    ctx().cut("URL access without a server model")
                return w.urlopen(url, self, timeout)

            def add_handler(self, h):
                self.handlers.append(h)

        class Request:
            def __init__(self, url, data=None, headers={}, **k):
                self.full_url = url
                self.headers = dict(headers)

            def add_header(self, k, v):
                self.headers[k] = v

            def get_header(self, k, d=None):
                return self.headers.get(k, d)

        self.HTTPPasswordMgrWithDefaultRealm = DefaultMgr
        self.HTTPPasswordMgr = PasswordMgr
        self.HTTPPasswordMgrWithPriorAuth = DefaultMgr
        self.HTTPBasicAuthHandler = Basic
        self.HTTPDigestAuthHandler = Digest
        self.ProxyHandler = Handler
        self.Request = Request
        self.build_opener = lambda *h: Opener(x() if isinstance(x, type) else x for x in h)
        self.OpenerDirector = Opener
        self._opener = None

        def install_opener(o):
            self._opener = o

        self.install_opener = install_opener

        def urlopen(url, data=None, timeout=None, **k):
            return (self._opener or Opener([])).open(url, data, timeout)

        self.urlopen = urlopen


class UrlParseStub(types.ModuleType):
    def __init__(self, w):
        super().__init__("urllib.parse")
        import urllib.parse as _p

        self.__dict__["_p"] = _p

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["_p"], name)

    @staticmethod
    def urlparse(url, *a, **k):
        return urls.parse(url, *a, **k)

    @staticmethod
    def urlsplit(url, *a, **k):
        return urls.split(url, *a, **k)

    @staticmethod
    def urlunparse(parts):
        return urls.unparse(parts)

    @staticmethod
    def urlunsplit(parts):
        return urls.unparse(parts)

    @staticmethod
    def unquote(s, *a, **k):
        return urls.unquote(s, *a, **k)


class ShlexStub(types.ModuleType):
    def __init__(self):
        super().__init__("shlex")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        import shlex

        return getattr(shlex, name)

    @staticmethod
    def quote(s):
        return urls.shell_quote(s)


PROXY_NAMES = ("SymBytes", "SymInt", "SymBuf", "SymView", "SymStr", "Rope", "Tail", "SymReal", "LazyStr", "SymBool", "SymCells", "sx_int", "sx_str", "MmapObj", "sx_bytes", "FakeDT")


def guard_exception(e):
    """An exception caused by a proxy value reaching C code is outside the model,
    not behaviour of the program."""
    seen = 0
    while e is not None and seen < 8:
        s = str(e)
        if isinstance(e, (TypeError, AttributeError, ValueError)) or "Sym" in s:
            for n in PROXY_NAMES:
                if n in s:
                    ctx().cut("unmodelled operation: %s" % s[:120])
        e = e.__cause__ or e.__context__
        seen += 1
