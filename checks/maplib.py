"""The kernel's answers about which parts of a file hold data: FIEMAP and
lseek(SEEK_DATA / SEEK_HOLE), as a model for the symbolic runs and as stand-ins
for the real ioctl/lseek in the replays."""

import array
import errno
import os
import struct

from symx import core, world as W
from symx.buffers import SymBuf, SymView, int_to_cells, cells_to_int
from symx.values import And, Or, Not, Implies, SymInt, imin, imax

FIEMAP = 0xC020660B
HEAD = "=QQLLLL"
EXT = "=QQQQQLLLL"
HSIZE, ESIZE = struct.calcsize(HEAD), struct.calcsize(EXT)
SYNC, LAST = 1, 1
DATA, HOLE = 3, 4
PARAM = "/sys/module/zfs/parameters/zfs_dmu_offset_next_sync"


def first_true(n, pred):
    """Smallest i in 0..n with pred(i) (monotone), by bisection."""
    lo, hi = 0, n
    while lo < hi:
        mid = (lo + hi) // 2
        if pred(mid):
            hi = mid
        else:
            lo = mid + 1
    return lo


class Kernel:
    """Symbolic side.

    extents: [(start byte, length in bytes)] in increasing order, not overlapping
    (may touch).  late: how many of the last extents are delayed allocations
    (reported only after they were flushed).  segs: [(start, end)] data areas for
    SEEK_DATA / SEEK_HOLE, in increasing order, not touching."""

    fiemap = 0  # or an errno
    seek = 0  # or an errno
    stub_seek = False
    trim = False  # the first extent of an answer begins at the queried offset
    flags = 0
    late = 0

    def __init__(self, w, node, extents=(), segs=()):
        self.w, self.node = w, node
        self.dir = os.path.dirname(node.name)  # the file system: that of this directory only
        self.extents = list(extents)
        self.segs = list(segs)
        self.calls = 0
        w.ioctl_hook = self.ioctl
        w.seek_model = self.lseek
        w.seek_temp = self.lseek_temp

    # -- FIEMAP
    def ioctl(self, f, req, arg):
        if req != FIEMAP:
            return NotImplemented
        c = core.CUR
        if self.fiemap:
            raise OSError(self.fiemap, os.strerror(self.fiemap))
        if f.node is not self.node:
            raise OSError(errno.EOPNOTSUPP, os.strerror(errno.EOPNOTSUPP))
        self.calls += 1
        off = 0
        buf = arg
        if isinstance(buf, SymView):
            off, buf = buf.start, buf.base
        if not isinstance(buf, SymBuf):
            c.cut("FIEMAP with an immutable buffer")
        cells = buf.cells()
        if isinstance(off, SymInt):
            off = c.concretise(off.t, "buffer offset")
        get = lambda a, n: cells_to_int(cells[off + a : off + a + n])
        start, length = get(0, 8), get(8, 8)
        flags, room = get(16, 4), get(24, 4)
        if isinstance(flags, SymInt) or isinstance(room, SymInt):
            c.cut("symbolic FIEMAP flags")
        if length == 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        if flags & SYNC:
            self.late = 0
        ext = self.extents[: len(self.extents) - self.late] if self.late else self.extents
        a = first_true(len(ext), lambda i: ext[i][0] + ext[i][1] > start)
        b = first_true(len(ext), lambda i: not (ext[i][0] < start + length))
        pick = list(range(a, max(a, b)))
        cap = (len(cells) - off - HSIZE) // ESIZE
        if room > cap:
            c.fail("the FIEMAP buffer is smaller than announced to the kernel")
            room = cap
        n = len(pick)
        if room:
            n = min(n, room)
            for j, i in enumerate(pick[:n]):
                s, l = ext[i]
                if self.trim and j == 0 and s < start:
                    l = l - (start - s)
                    s = start
                fl = self.flags | (LAST if i == len(ext) - 1 else 0)
                at = off + HSIZE + j * ESIZE
                rec = list(struct.pack(EXT, 0, (i + 7) << 12, 0, 0, 0, fl, 0, 0, 0))
                rec[0:8] = int_to_cells(s, 8)
                rec[16:24] = int_to_cells(l, 8)
                cells[at : at + ESIZE] = rec
        cells[off + 20 : off + 24] = int_to_cells(n, 4)
        return 0

    # -- SEEK_DATA / SEEK_HOLE
    def lseek(self, f, off, whence):
        if self.seek:
            raise OSError(self.seek, os.strerror(self.seek))
        size = f.node.size
        if off < 0 or off >= size:
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        if self.stub_seek:
            return off if whence == DATA else size
        for s, e in self.segs:
            if off < e:
                if off < s:
                    return s if whence == DATA else off
                return off if whence == DATA else e
        if whence == DATA:
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        return off

    def lseek_temp(self, f, off, whence):
        here = getattr(f.node, "tempdir", self.dir) == self.dir
        if self.seek and here:
            raise OSError(self.seek, os.strerror(self.seek))
        size = f.node.get_size()
        if not (off >= 0 and off < size):
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        if self.stub_seek and here:
            return off if whence == DATA else size
        if whence == DATA:
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        return off


def sym_extents(c, n, bs, gap0=0, limit=1 << 40, name="e"):
    """n extents of whole blocks: [(first block, blocks)]."""
    out = []
    at = 0
    for i in range(n):
        g = c.int("%s%d_gap" % (name, i), 0, limit)
        l = c.int("%s%d_blocks" % (name, i), 1, limit)
        out.append((at + g, l))
        at = at + g + l
    return out


def conc_extents(p, n, name="e"):
    out = []
    at = 0
    for i in range(n):
        g, l = p["%s%d_gap" % (name, i)], p["%s%d_blocks" % (name, i)]
        out.append((at + g, l))
        at += g + l
    return out


def sym_segs(c, n, size, limit=1 << 42, name="s"):
    """n data areas in bytes, inside the file, not touching."""
    out = []
    at = 0
    for i in range(n):
        g = c.int("%s%d_gap" % (name, i), 0 if i == 0 else 1, limit)
        l = c.int("%s%d_len" % (name, i), 1, limit)
        out.append((at + g, at + g + l))
        at = at + g + l
    if n:
        c.assume(at <= size)
    return out


def conc_segs(p, n, name="s"):
    out = []
    at = 0
    for i in range(n):
        g, l = p["%s%d_gap" % (name, i)], p["%s%d_len" % (name, i)]
        out.append((at + g, at + g + l))
        at += g + l
    return out


def df_proc(fstype="ext4", size="1000000", name="/dev/sda1     ", w=None, away=None):
    """The answer of 'df -T'.  away: a directory that is on another file system
    (ext4)."""
    fstype_, name_ = fstype, name

    def popen(info):
        args = info["args"]
        fstype, name = fstype_, name_
        if away is not None:
            last = args.split()[-1] if isinstance(args, str) else str(args[-1])
            at = w.resolve(last.strip("'\""))
            if at == away or at.startswith(away + "/"):
                fstype, name = "ext4", "/dev/sdz9     "
        a = args if isinstance(args, str) else " ".join(str(x) for x in args)
        exe = os.path.basename(a.split()[0]) if a.split() else ""
        if exe in ("stat", "findmnt") or exe == "df" and "--output" in a:
            if fstype is None:
                return W.Proc(1, out=b"", err=b"no such file system\n")
            return W.Proc(0, out=(("Type\n" if exe == "df" else "") + fstype + "\n").encode())
        if exe != "df":
            core.CUR.cut("unexpected process %r" % a)
        if fstype is None:
            return W.Proc(1, out=b"", err=b"df: no file systems processed\n")
        t = "Filesystem     Type 1K-blocks  Used Available Use%% Mounted on\n%s %s     %s 10000    990000   2%% /work\n" % (name, fstype, size)
        return W.Proc(0, out=t.encode())

    return popen


# ---------------------------------------------------------------------------
# concrete side
# ---------------------------------------------------------------------------


class RealKernel:
    """Stand-ins for fcntl.ioctl and os.lseek while real code runs on a real
    (sparse or dense) file; everything but the mapping answers is real."""

    fiemap = 0
    seek = 0
    stub_seek = False
    temps = ()  # descriptors of temporary files on other file systems
    trim = False
    flags = 0
    late = 0
    bsz = None

    def __init__(self, path, extents=(), segs=()):
        self.path = path
        self.extents = list(extents)
        self.segs = list(segs)

    def __enter__(self):
        import fcntl

        self._ioctl, self._lseek = fcntl.ioctl, os.lseek
        self._fcntl = fcntl
        fcntl.ioctl = self.ioctl
        os.lseek = self.lseek
        self.patched = []
        # modules that bound the functions by name
        import sys

        for n, m in list(sys.modules.items()):
            if n.startswith("bmaptools"):
                for k, v in list(vars(m).items()):
                    if v is self._ioctl:
                        setattr(m, k, self.ioctl)
                        self.patched.append((m, k, v))
                    elif v is self._lseek:
                        setattr(m, k, self.lseek)
                        self.patched.append((m, k, v))
        return self

    def __exit__(self, *a):
        self._fcntl.ioctl = self._ioctl
        os.lseek = self._lseek
        for m, k, v in self.patched:
            setattr(m, k, v)
        return False

    def _is_image(self, fd):
        try:
            return os.path.samestat(os.fstat(fd), os.stat(self.path))
        except OSError:
            return False

    def ioctl(self, fd, req, arg=0, mutate=True):
        n = fd if isinstance(fd, int) else fd.fileno()
        req &= 0xFFFFFFFF
        if req == 2 and self.bsz is not None:
            return struct.pack("I", self.bsz)
        if req != FIEMAP:
            return self._ioctl(fd, req, arg, mutate)
        if self.fiemap:
            raise OSError(self.fiemap, os.strerror(self.fiemap))
        if not self._is_image(n):
            raise OSError(errno.EOPNOTSUPP, os.strerror(errno.EOPNOTSUPP))
        mv = memoryview(arg).cast("B")
        start, length, flags, _, room, _ = struct.unpack_from(HEAD, mv, 0)
        if length == 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        if flags & SYNC:
            self.late = 0
        ext = self.extents[: len(self.extents) - self.late] if self.late else self.extents
        pick = [i for i, (s, l) in enumerate(ext) if s + l > start and s < start + length]
        n = len(pick)
        if room:
            n = min(n, room)
            for j, i in enumerate(pick[:n]):
                s, l = ext[i]
                if self.trim and j == 0 and s < start:
                    s, l = start, l - (start - s)
                fl = self.flags | (LAST if i == len(ext) - 1 else 0)
                struct.pack_into(EXT, mv, HSIZE + j * ESIZE, s, (i + 7) << 12, l, 0, 0, fl, 0, 0, 0)
        struct.pack_into("=L", mv, 20, n)
        return 0

    def lseek(self, fd, off, whence):
        if whence not in (3, 4):
            return self._lseek(fd, off, whence)
        if fd in self.temps:
            # (a hole)
            if off < 0 or off >= os.fstat(fd).st_size or whence == 3:
                raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
            return self._lseek(fd, off, 0)
        if self.seek:
            raise OSError(self.seek, os.strerror(self.seek))
        size = os.fstat(fd).st_size
        if off < 0 or off >= size:
            raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
        segs = self.segs if self._is_image(fd) else []
        r = None
        if self.stub_seek:
            r = off if whence == 3 else size
        else:
            for s, e in segs:
                if off < e:
                    if off < s:
                        r = s if whence == 3 else off
                    else:
                        r = off if whence == 3 else e
                    break
            else:
                if whence == 3:
                    raise OSError(errno.ENXIO, os.strerror(errno.ENXIO))
                r = off
        # the offset of the open file moves, as lseek does
        return self._lseek(fd, r, 0)


def fake_df(dirname, fstype, name="/dev/sda1     ", away=None):
    """A 'df' of our own, in front of PATH; returns the old PATH."""
    d = os.path.join(dirname, "bin")
    pre = ""
    if away is not None:
        pre = (
            'for x in "$@"; do :; done\ncase "$(realpath "$x")" in %s|%s/*)\n'
            "case \"$*\" in *--output*) echo Type; echo ext4; exit 0;; esac\n"
            "echo 'Filesystem     Type 1K-blocks  Used Available Use%% Mounted on'\n"
            "echo '/dev/sdz9     ext4     1000000 10000    990000   2%% /links'\nexit 0;; esac\n" % (away, away)
        )
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "df")
    with open(f, "w") as o:
        if fstype is None:
            o.write("#!/bin/sh\n" + pre + "echo 'df: no file systems processed' >&2\nexit 1\n")
        else:
            o.write("#!/bin/sh\n" + pre + "case \"$*\" in *--output*) echo Type; echo %s; exit 0;; esac\n" % fstype)
            o.write(
                "echo 'Filesystem     Type 1K-blocks  Used Available Use%% Mounted on'\n"
                "echo '%s %s     1000000 10000    990000   2%% /work'\n" % (name, fstype)
            )
    os.chmod(f, 0o755)
    old = os.environ["PATH"]
    os.environ["PATH"] = d + os.pathsep + old
    return old
