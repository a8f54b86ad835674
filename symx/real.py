"""Concrete side: runs the un-instrumented code of the repository on real files
and judges it with an oracle of its own."""

import array
import hashlib
import importlib
import io
import os
import signal
import sys
import tempfile
import threading
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def use_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def mod(name):
    use_repo()
    return importlib.import_module("bmaptools." + name)


_NONZERO = b"\xa5" + bytes(range(1, 256))


def pattern(off, n, salt=0):
    """n bytes of position-dependent non-zero data starting at byte offset off."""
    a = off // 8
    b = (off + n + 7) // 8
    base = (salt + 1) << 48
    data = array.array("Q", range(base + a + 1, base + b + 1)).tobytes().translate(_NONZERO)
    s = off - a * 8
    return data[s : s + n]


CHUNK = 8 << 20


def write_pattern(f, off, n, salt=0):
    while n > 0:
        m = min(n, CHUNK)
        os.pwrite(f.fileno(), pattern(off, m, salt), off)
        off += m
        n -= m


def make_image(path, size, areas, full_limit=48 << 20, salt=0):
    """A file of 'size' bytes with non-zero data everywhere (small) or at least
    in the given byte areas and around them."""
    with open(path, "wb+") as f:
        f.truncate(size)
        if size <= full_limit:
            write_pattern(f, 0, size, salt)
        else:
            for a, b in areas:
                a = max(0, a - 65536)
                b = min(size, b + 65536)
                if b > a:
                    write_pattern(f, a, b - a, salt)
    return path


def apply_fills(path, p):
    """Areas of the image which hold one byte value only."""
    i = 0
    size = os.path.getsize(path)
    with open(path, "rb+") as f:
        while True:
            k = "" if i == 0 else "#%d" % i
            if "fill_at" + k not in p:
                return
            a, n, v = p["fill_at" + k], p["fill_len" + k], p["fill_val" + k]
            i += 1
            n = min(n, size - a)
            f.seek(a)
            while n > 0:
                m = min(n, CHUNK)
                f.write(bytes([v]) * m)
                n -= m


class Hung(Exception):
    pass


def with_timeout(fn, seconds=60):
    """Run fn() in the main thread; Hung if it does not return."""

    def onalarm(*a):
        raise Hung("no return after %d s" % seconds)

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def outcome_of(fn, seconds=60):
    try:
        with_timeout(fn, seconds)
        return "ok", None
    except Hung as e:
        return "hang", e
    except SystemExit as e:
        return "exit%s" % (e.code if e.code is not None else 0), e
    except BaseException as e:
        return type(e).__name__, e


def read_at(path, off, n):
    fd = os.open(path, os.O_RDONLY)
    try:
        out = b""
        while len(out) < n:
            b = os.pread(fd, n - len(out), off + len(out))
            if not b:
                break
            out += b
        return out
    finally:
        os.close(fd)


def digest_of(path, off, n, algo):
    h = hashlib.new(algo)
    fd = os.open(path, os.O_RDONLY)
    try:
        while n > 0:
            b = os.pread(fd, min(n, CHUNK), off)
            if not b:
                break
            h.update(b)
            off += len(b)
            n -= len(b)
    finally:
        os.close(fd)
    return h.hexdigest()


def probe_points(size, areas, extra=()):
    """Intervals to compare exhaustively between two files: everything when
    small, otherwise the neighbourhoods of the areas and the ends."""
    if size <= 96 << 20:
        return [(0, size)]
    out = []
    for a, b in areas:
        out.append((max(0, a - (1 << 20)), min(size, b + (1 << 20))))
    out.append((0, min(size, 1 << 20)))
    out.append((max(0, size - (1 << 20)), size))
    for x in extra:
        out.append((max(0, x - 4096), min(size, x + 4096)))
    out.sort()
    merged = []
    for a, b in out:
        if merged and a <= merged[-1][1]:
            merged[-1][1] = max(merged[-1][1], b)
        else:
            merged.append([a, b])
    return [(a, b) for a, b in merged]
