"""Building blocks shared by the harnesses (symbolic side)."""

import hashlib
import z3

from . import core, values, world as W, threads
from .values import And, Or, Not, Implies, SymInt, SymBool, as_z3int, mk_bool, mk_int, imin, imax, If

HEAD = """<?xml version="1.0" ?>
<bmap version="%s">
    <ImageSize> %s </ImageSize>
    <BlockSize> %s </BlockSize>
    <BlocksCount> %s </BlocksCount>
    <MappedBlocksCount> %s </MappedBlocksCount>
"""


def bmap_text(version, size, bs, blocks, mapped, ranges, cs_type="sha256", selfsum=True, vtext=None, dash="-", pad=0):
    """A bmap file in the given format version.

    ranges: [(first, last, chksum or None, single)].  Numbers may be symbolic
    (they become sentinel digits)."""
    major, minor = (int(x) for x in version.split("."))
    new = major > 1 or (major == 1 and minor == 4)
    t = HEAD % (vtext or version, size, bs, blocks, mapped)
    attr = None
    algo = None
    if new:
        algo, attr = cs_type, "chksum"
        n = len(hashlib.new(algo).hexdigest())
        t += "    <ChecksumType> %s </ChecksumType>\n" % algo
        t += "    <BmapFileChecksum> %s </BmapFileChecksum>\n" % ("0" * n)
    elif minor == 3:
        algo, attr = "sha1", "sha1"
        n = 40
        t += "    <BmapFileSHA1> %s </BmapFileSHA1>\n" % ("0" * n)
    if pad:
        t += "    <!-- %s -->\n" % ("x" * pad)
    t += "    <BlockMap>\n"
    for first, last, chk, single in ranges:
        a = ' %s="%s"' % (attr, chk) if attr and chk else ""
        if single:
            t += "        <Range%s> %s </Range>\n" % (a, first)
        else:
            t += "        <Range%s> %s%s%s </Range>\n" % (a, first, dash, last)
    t += "    </BlockMap>\n</bmap>\n"
    if algo and selfsum:
        d = hashlib.new(algo, t.encode()).hexdigest()
        if selfsum == "bad":
            d = d[:-1] + ("0" if d[-1] != "0" else "1")
        t = t.replace("0" * n, d, 1)
    return t


def algo_of(version, cs_type="sha256"):
    major, minor = (int(x) for x in version.split("."))
    if major > 1 or minor == 4:
        return cs_type
    if minor == 3:
        return "sha1"
    return None


class Ranges:
    """R disjoint increasing ranges of blocks of an image, symbolic."""

    def __init__(self, c, n, blocks, max_blocks, gap=0, min_blocks=1, name="r"):
        self.c = c
        self.items = []
        prev = -1
        for i in range(n):
            f = c.int("%s%d_first" % (name, i), 0)
            ln = c.int("%s%d_len" % (name, i), min_blocks, max_blocks)
            c.assume(f > prev + gap if i else f >= 0)
            last = f + ln - 1
            c.assume(last < blocks)
            self.items.append((f, last))
            prev = last

    @property
    def count(self):
        n = 0
        for f, l in self.items:
            n = n + (l - f + 1)
        return n

    def has_byte(self, x, bs):
        return Or(*[And(x >= f * bs, x < (l + 1) * bs) for f, l in self.items]) if self.items else False


def outcome_of(fn, w=None):
    """Run fn(); return (kind, exception).  kind: 'ok', exception class name,
    'hang' or 'exit<code>'."""
    try:
        fn()
        return "ok", None
    except core.Steer:
        raise
    except core.EngineError:
        raise
    except threads.ThreadKill:
        raise
    except threads.Hang as e:
        return "hang", e
    except SystemExit as e:
        return "exit%s" % (e.code if e.code is not None else 0), e
    except BaseException as e:
        if core.CUR is not None and core.CUR.failed is not None:
            raise core.CUR.failed
        W.guard_exception(e)
        return type(e).__name__, e


def leftover(w):
    """Threads that would keep the process from ending."""
    left = w.sched.settle()
    return [t for t in left if not t.daemon]


def kernel_ops(w, node):
    return [e[2] for e in w.events if e[0] == "sink" and e[1] is node]


def data_writes(node):
    return [op for op in node.ops if op[0] == "w"]


# errno values for which OSError is not of a subclass
CLASSED = sorted(
    n for n in range(1, 134) if type(OSError(n, "x")) is not OSError
)


def any_oserror(c, name="errno"):
    """An OSError with any error number (of those without a class of their own)."""
    n = c.int(name, 1, 133)
    for k in CLASSED:
        c.assume(n != k)
    e = OSError(5, "Input/output error")
    e.errno = n
    return e
