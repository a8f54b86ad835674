"""Byte strings of symbolic length, and byte cells for binary structures.

A SymBytes is a rope of pieces
    ('s', src, off, len)   bytes off..off+len-1 of a data source (opaque)
    ('b', bytes)           literal
    ('f', byte, len)       one byte value repeated
    ('c', [cell, ...])     individual byte cells (see below)
A cell is an int 0..255 or (term, k): byte k (little-endian order) of a term.
SymBuf is the mutable variant (bytearray, array('B'), buffers for readinto).
"""

import builtins
import struct as _struct
import z3
from . import core
from .values import (
    SymInt,
    SymBool,
    as_z3int,
    ctx,
    imax,
    imin,
    is_intlike,
    mk_bool,
    mk_int,
    And,
    Not,
)

_int = builtins.int


def plen(p):
    k = p[0]
    if k == "s":
        return p[3]
    if k == "b" or k == "c":
        return len(p[1])
    return p[2]


def psub(p, a, n):
    """Sub-piece starting at a (relative) of length n; no bounds check."""
    k = p[0]
    if k == "s":
        return ("s", p[1], p[2] + a, n)
    if k == "f":
        return ("f", p[1], n)
    if isinstance(a, _int) and isinstance(n, _int):
        return (k, p[1][a : a + n])
    if k == "b" and p[1] and p[1] == p[1][:1] * len(p[1]):
        return ("f", p[1][0], n)
    a = a if isinstance(a, _int) else ctx().concretise(as_z3int(a), "slice of literal bytes")
    n = n if isinstance(n, _int) else ctx().concretise(as_z3int(n), "slice of literal bytes")
    return (k, p[1][a : a + n])


def norm(pieces):
    out = []
    for p in pieces:
        n = plen(p)
        if isinstance(n, _int) and n == 0:
            continue
        if out:
            q = out[-1]
            if p[0] == "s" and q[0] == "s" and p[1] is q[1]:
                d = q[2] + q[3] - p[2]
                if isinstance(d, _int) and d == 0:
                    out[-1] = ("s", q[1], q[2], q[3] + p[3])
                    continue
            if p[0] == "b" and q[0] == "b":
                out[-1] = ("b", q[1] + p[1])
                continue
            if p[0] == "f" and q[0] == "f" and p[1] == q[1]:
                out[-1] = ("f", q[1], q[2] + p[2])
                continue
        out.append(p)
    return out


def pieces_of(x):
    """Pieces of any bytes-like object (or None)."""
    if isinstance(x, SymBytes):
        return list(x.pieces)
    if isinstance(x, SymView):
        return x.get_pieces()
    if isinstance(x, (bytes, bytearray, memoryview)):
        return [("b", bytes(x))] if len(x) else []
    return None


def is_byteslike(x):
    return isinstance(x, (SymBytes, SymView, bytes, bytearray, memoryview))


def slice_pieces(pieces, a, b):
    """pieces[a:b] with 0 <= a, possibly symbolic; never forks."""
    out = []
    s = 0
    for p in pieces:
        n = plen(p)
        lo = imax(0, a - s)
        hi = imin(n, b - s)
        m = imax(0, hi - lo)
        if not (isinstance(m, _int) and m == 0):
            if isinstance(lo, _int) and lo == 0 and m is n:
                out.append(p)
            else:
                out.append(psub(p, lo, m))
        s = s + n
    return norm(out)


def total(pieces):
    n = 0
    for p in pieces:
        n = n + plen(p)
    return n


def clamp_index(i, n, dflt):
    if i is None:
        return dflt
    if isinstance(i, _int) and isinstance(n, _int):
        if i < 0:
            return max(0, n + i)
        return min(i, n)
    t, tn = as_z3int(i), as_z3int(n)
    if isinstance(i, _int):
        if i < 0:
            return imax(0, n + i)
        if i == 0:
            return 0
        return imin(i, n)
    return mk_int(
        z3.If(
            t < 0,
            z3.If(tn + t < 0, z3.IntVal(0), tn + t),
            z3.If(t > tn, tn, t),
        )
    )


class SymBytes:
    _is_bytes = True

    def __init__(self, pieces):
        self.pieces = norm(pieces)

    @staticmethod
    def fill(byte, n):
        if isinstance(n, _int):
            return bytes([byte]) * n
        return SymBytes([("f", byte, n)])

    @staticmethod
    def src(src, off, n):
        return SymBytes([("s", src, off, n)])

    def symlen(self):
        return total(self.pieces)

    def __len__(self):
        n = self.symlen()
        return n if isinstance(n, _int) else ctx().concretise(n.t, "len() in C code")

    def __bool__(self):
        n = self.symlen()
        return n != 0 if isinstance(n, _int) else ctx().branch(n.t != 0)

    def _new(self, pieces):
        if all(p[0] == "b" for p in pieces):
            return b"".join(p[1] for p in pieces)
        return SymBytes(pieces)

    def __getitem__(self, k):
        n = self.symlen()
        if isinstance(k, slice):
            if k.step not in (None, 1):
                ctx().cut("extended slice of symbolic bytes")
            a = clamp_index(k.start, n, 0)
            b = clamp_index(k.stop, n, n)
            return self._new(slice_pieces(self.pieces, a, b))
        i = clamp_index(k, n, 0)
        if not (i < n):
            raise IndexError("index out of range")
        return self.byte_at(i)

    def byte_at(self, i):
        s = 0
        for p in self.pieces:
            n = plen(p)
            if i < s + n:
                r = i - s
                if p[0] == "f":
                    return p[1]
                if p[0] == "s":
                    return p[1].byte(p[2] + r)
                if not isinstance(r, _int):
                    r = ctx().concretise(as_z3int(r), "index of literal bytes")
                c = p[1][r]
                return c if isinstance(c, _int) else cells_to_int([c])
            s = s + n
        raise IndexError("index out of range")

    def __iter__(self):
        i = 0
        n = self.symlen()
        while i < n:
            ctx().tick()
            yield self.byte_at(i)
            i = i + 1

    def __add__(self, o):
        p = pieces_of(o)
        if p is None:
            return NotImplemented
        return self._new(norm(self.pieces + p))

    def __radd__(self, o):
        p = pieces_of(o)
        if p is None:
            return NotImplemented
        return self._new(norm(p + self.pieces))

    def __eq__(self, o):
        p = pieces_of(o)
        if p is None:
            return False
        return eq_pieces(self.pieces, p)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else Not(r)

    __hash__ = None

    def __contains__(self, o):
        ctx().cut("search in symbolic bytes")

    def decode(self, *a):
        ctx().cut("decode of symbolic bytes")

    def find(self, *a):
        ctx().cut("find in symbolic bytes")

    replace = startswith = endswith = find

    def _trim(self, ch, left, right):
        v = one_byte(ch)
        if v is None:
            ctx().cut("strip of symbolic bytes")
        if all_value(self.pieces, v):
            return b""
        n = self.symlen()
        a = ctx().int("trim", 0) if left else 0
        b = ctx().int("trim", 0) if right else 0
        ctx().assume(a + b < n)
        return self[a : n - b]

    def strip(self, ch=None):
        return self._trim(ch, True, True)

    def lstrip(self, ch=None):
        return self._trim(ch, True, False)

    def rstrip(self, ch=None):
        return self._trim(ch, False, True)

    def count(self, sub, *a):
        v = one_byte(sub)
        if v is None or a:
            ctx().cut("count in symbolic bytes")
        n = self.symlen()
        if all_value(self.pieces, v):
            return n
        r = ctx().int("count", 0)
        ctx().assume(r < n)
        return r

    def tobytes(self):
        return SymBytes(list(self.pieces))

    def __repr__(self):
        return "<symbytes>"

    def __buffer__(self, flags):
        ctx().cut("symbolic bytes given to C code")


def one_byte(x):
    """The byte value of b"\\0", 0, ..."""
    if isinstance(x, _int) and 0 <= x < 256:
        return x
    if isinstance(x, (bytes, bytearray)) and len(x) == 1:
        return x[0]
    return None


def all_value(pieces, v):
    """Whether every byte is v.  What opaque data holds is free: both answers
    are followed, and the positive one is remembered as a fact about the data."""
    opaque = []
    for p in norm(pieces):
        if p[0] == "s":
            opaque.append(p)
        elif p[0] == "f":
            if p[1] != v and p[2] != 0:
                return False
        elif any(not isinstance(x, _int) or x != v for x in p[1]):
            if p[0] == "c":
                ctx().cut("comparison of opaque data")
            return False
    for p in opaque:
        if not source_value(p, v):
            return False
    return True


def source_value(p, v):
    c = ctx()
    if p[3] == 0:
        return True
    fills = c.extra.setdefault("fills", [])
    for src, off, n, val, yes in fills:
        if src is p[1] and And(off == p[2], n == p[3]) is True:
            if val == v:
                return yes
            if yes:
                return False
    yes = c.flag("fill")
    fills.append((p[1], p[2], p[3], v, yes))
    if yes:
        at, n, val = c.int("fill_at"), c.int("fill_len"), c.int("fill_val")
        c.assume(at == p[2])
        c.assume(n == p[3])
        c.assume(val == v)
    return yes


def filled(x, src, v=0):
    """Whether byte x of the source is known to be v."""
    from .values import Or

    fs = [And(x >= off, x < off + n) for s, off, n, val, yes in ctx().extra.get("fills", ()) if yes and s is src and val == v]
    return Or(*fs) if fs else False


def sx_any(x):
    if isinstance(x, (SymBytes, SymView)):
        return not all_value(pieces_of(x), 0)
    return any(x)


def eq_pieces(p, q):
    p, q = norm(p), norm(q)
    if len(p) == 1 and len(q) == 1 and p[0][0] == q[0][0]:
        a, b = p[0], q[0]
        if a[0] == "s" and a[1] is b[1]:
            same = And(a[2] == b[2], a[3] == b[3])
            if same:
                return True
            ctx().cut("comparison of opaque data")
        if a[0] in "bc" and list(a[1]) == list(b[1]):
            return True
        if a[0] == "f" and a[1] == b[1]:
            return a[2] == b[2]
    n = total(p) == total(q)
    if not n:
        return False
    if not p or not q:
        return True
    if all(x[0] == "b" for x in p + q):
        return b"".join(x[1] for x in p) == b"".join(x[1] for x in q)
    for a, b in ((p, q), (q, p)):
        if len(a) == 1 and (a[0][0] == "f" or a[0][0] == "b" and a[0][1] == a[0][1][:1] * len(a[0][1])):
            return all_value(b, a[0][1] if a[0][0] == "f" else a[0][1][0])
    ctx().cut("comparison of opaque data")


class SymBuf(SymBytes):
    """Mutable."""

    _is_bytes = False
    _is_bytearray = True
    typecode = "B"
    itemsize = 1

    def __init__(self, pieces):
        # copy cells: they are modified in place
        self.pieces = [("c", list(p[1])) if p[0] == "c" else p for p in norm(pieces)]

    @staticmethod
    def zeros(n):
        if isinstance(n, _int) and n <= 1 << 20:
            return SymBuf([("b", bytes(n))])
        return SymBuf([("f", 0, n)])

    def cells(self):
        """View the whole buffer as cells (converts in place)."""
        if len(self.pieces) == 1 and self.pieces[0][0] == "c":
            return self.pieces[0][1]
        out = []
        for p in self.pieces:
            if p[0] in "bc":
                out.extend(p[1])
            elif p[0] == "f" and isinstance(p[2], _int):
                out.extend([p[1]] * p[2])
            else:
                ctx().cut("opaque data used as a binary structure")
        self.pieces = [("c", out)]
        return out

    def __setitem__(self, k, v):
        n = self.symlen()
        if isinstance(k, slice):
            a = clamp_index(k.start, n, 0)
            b = clamp_index(k.stop, n, n)
            b = imax(a, b)
            p = pieces_of(v)
            if p is None:
                p = [("b", bytes(v))]
            self.pieces = norm(
                slice_pieces(self.pieces, 0, a) + p + slice_pieces(self.pieces, b, n)
            )
            return
        if not isinstance(k, _int):
            k = ctx().concretise(as_z3int(k), "store index")
        c = self.cells()
        c[k] = v if isinstance(v, _int) else (v.t, 0)

    def __delitem__(self, k):
        if isinstance(k, slice):
            self[k] = b""
        else:
            self[k : k + 1] = b""

    def __iadd__(self, o):
        self.pieces = norm(self.pieces + pieces_of(o))
        return self

    def extend(self, o):
        p = pieces_of(o)
        self.pieces = norm(self.pieces + (p if p is not None else [("b", bytes(o))]))

    def append(self, b):
        self.pieces = norm(self.pieces + [("b", bytes([b]))])

    def clear(self):
        self.pieces = []

    def _new(self, pieces):
        return SymBuf(pieces)

    def buffer_info(self):
        return (0, len(self))


class SymView:
    """memoryview of a SymBuf / SymBytes."""

    def __init__(self, base, start=0, n=None):
        self.base = base
        self.start = start
        self.n = base.symlen() if n is None else n

    def symlen(self):
        return self.n

    nbytes = property(symlen)

    def __len__(self):
        return self.n if isinstance(self.n, _int) else ctx().concretise(self.n.t, "len()")

    def __bool__(self):
        return bool(self.n != 0)

    def get_pieces(self):
        return slice_pieces(self.base.pieces, self.start, self.start + self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            a = clamp_index(k.start, self.n, 0)
            b = imax(a, clamp_index(k.stop, self.n, self.n))
            return SymView(self.base, self.start + a, b - a)
        return self.base[self.start + clamp_index(k, self.n, 0)]

    def __setitem__(self, k, v):
        a, b = 0, self.n
        if isinstance(k, slice):
            a = clamp_index(k.start, self.n, 0)
            b = clamp_index(k.stop, self.n, self.n)
        else:
            a, b = k, k + 1
            v = bytes([v])
        self.base[self.start + a : self.start + b] = v

    def __eq__(self, o):
        p = pieces_of(o)
        return False if p is None else eq_pieces(self.get_pieces(), p)

    __hash__ = None

    def tobytes(self):
        return SymBytes(self.get_pieces())

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __repr__(self):
        return "<symview>"


class SymCells(SymBytes):
    def __init__(self, cells):
        self.pieces = [("c", list(cells))] if cells else []


# -- binary structures --------------------------------------------------------


def int_to_cells(x, length, order="little"):
    if isinstance(x, SymBool):
        x = mk_int(as_z3int(x))
    if isinstance(x, _int):
        return list(x.to_bytes(length, order))
    c = ctx()
    if not c.branch(z3.And(x.t >= 0, x.t < 256**length)):
        raise OverflowError("int too big to convert")
    cells = [(x.t, k) for k in range(length)]
    return cells if order == "little" else cells[::-1]


def cells_to_int(cells, order="little"):
    cells = list(cells) if order == "little" else list(cells)[::-1]
    if all(isinstance(c, _int) for c in cells):
        return _int.from_bytes(bytes(cells), "little")
    res = 0
    i = 0
    n = len(cells)
    while i < n:
        c = cells[i]
        if isinstance(c, _int):
            j = i
            while j < n and isinstance(cells[j], _int):
                j += 1
            res = res + _int.from_bytes(bytes(cells[i:j]), "little") * 256**i
            i = j
            continue
        t, k = c
        j = i + 1
        while (
            j < n
            and not isinstance(cells[j], _int)
            and cells[j][0].eq(t)
            and cells[j][1] == k + (j - i)
        ):
            j += 1
        w = j - i
        v = SymInt(t)
        if k:
            v = v // 256**k
        # drop the bytes above unless the value provably has none
        lim = 256 ** (k + w)
        if not ctx().entails(t < lim):
            v = v % 256**w
        res = res + v * 256**i
        i = j
    return res


_SIZES = {"b": 1, "B": 1, "c": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "s": 1, "p": 1, "n": 8, "N": 8, "P": 8}


def _layout(fmt):
    """[(code, offset, size, count)] , total size, byte order"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = fmt.replace(" ", "")
    order = fmt[0] if fmt and fmt[0] in "@=<>!" else ""
    body = fmt[len(order) :]
    items = []
    pos = 0
    prefix = order
    num = ""
    for ch in body:
        if ch.isdigit():
            num += ch
            continue
        cnt = _int(num) if num else 1
        num = ""
        if ch == "s":
            size = cnt
            prefix += "%ds" % cnt
            items.append((ch, _struct.calcsize(prefix) - size, size))
        elif ch == "x":
            prefix += "%dx" % cnt
        else:
            one = _struct.calcsize((order or "@") + ch)
            for _ in range(cnt):
                prefix += ch
                items.append((ch, _struct.calcsize(prefix) - one, one))
    little = order not in (">", "!")
    return items, _struct.calcsize(prefix), ("little" if little else "big")


_layout_cache = {}


def layout(fmt):
    r = _layout_cache.get(fmt)
    if r is None:
        r = _layout_cache[fmt] = _layout(fmt)
    return r


class StructStub:
    """The struct module over cells."""

    error = _struct.error

    @staticmethod
    def calcsize(fmt):
        return _struct.calcsize(fmt)

    @classmethod
    def _pack_cells(cls, fmt, args):
        items, size, order = layout(fmt)
        if len(items) != len(args):
            raise _struct.error(
                "pack expected %d items for packing (got %d)" % (len(items), len(args))
            )
        cells = [0] * size
        for (code, off, n), v in zip(items, args):
            if isinstance(v, (SymInt, SymBool)):
                if code in "bhilq":
                    t = as_z3int(v)
                    if not ctx().branch(z3.And(t >= -(1 << (8 * n - 1)), t < 1 << (8 * n - 1))):
                        raise _struct.error("argument out of range")
                    if not ctx().branch(t >= 0):
                        v = mk_int(t + (1 << (8 * n)))
                try:
                    b = int_to_cells(v, n, order)
                except OverflowError:
                    raise _struct.error("argument out of range") from None
            else:
                one = ("<" if order == "little" else ">") + (
                    "%ds" % n if code == "s" else code
                )
                b = _struct.pack(one, v)
                if len(b) != n:  # native 'l' is 8 bytes
                    b = _struct.pack("@" + code, v)
            cells[off : off + n] = b
        return cells

    @classmethod
    def pack(cls, fmt, *args):
        if not any(isinstance(a, (SymInt, SymBool)) for a in args):
            return _struct.pack(fmt, *args)
        return SymCells(cls._pack_cells(fmt, args))

    @classmethod
    def pack_into(cls, fmt, buf, off, *args):
        if isinstance(buf, SymView):
            off, buf = off + buf.start, buf.base
        if not isinstance(buf, SymBuf):
            if any(isinstance(a, (SymInt, SymBool)) for a in args):
                ctx().cut("pack_into a real buffer")
            return _struct.pack_into(fmt, buf, off, *args)
        cells = cls._pack_cells(fmt, args)
        c = buf.cells()
        if off < 0:
            off += len(c)
        if off + len(cells) > len(c):
            raise _struct.error("pack_into requires a buffer of at least %d bytes" % (off + len(cells)))
        c[off : off + len(cells)] = cells

    @classmethod
    def _from_cells(cls, fmt, cells, off):
        items, size, order = layout(fmt)
        out = []
        for code, o, n in items:
            sub = cells[off + o : off + o + n]
            if code == "s":
                out.append(bytes(sub))
                continue
            if code == "c":
                out.append(bytes(sub))
                continue
            v = cells_to_int(sub, order)
            if code in "bhilq":
                if isinstance(v, _int):
                    if v >= 1 << (8 * n - 1):
                        v -= 1 << (8 * n)
                elif not (v < 1 << (8 * n - 1)):
                    v = v - (1 << (8 * n))
            elif code == "?":
                v = v != 0
            out.append(v)
        return tuple(out)

    @classmethod
    def unpack(cls, fmt, data):
        if isinstance(data, (bytes, bytearray)):
            return _struct.unpack(fmt, data)
        cells = to_cells(data)
        if len(cells) != _struct.calcsize(fmt):
            raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
        return cls._from_cells(fmt, cells, 0)

    @classmethod
    def unpack_from(cls, fmt, buffer, offset=0):
        if isinstance(buffer, (bytes, bytearray)):
            return _struct.unpack_from(fmt, buffer, offset)
        size = _struct.calcsize(fmt)
        if isinstance(buffer, SymView):
            offset, buffer = offset + buffer.start, buffer.base
        cells = buffer.cells() if isinstance(buffer, SymBuf) else to_cells(buffer)
        if isinstance(offset, SymInt):
            offset = ctx().concretise(offset.t, "unpack_from offset")
        if offset + size > len(cells):
            raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + size))
        return cls._from_cells(fmt, cells, offset)

    @classmethod
    def iter_unpack(cls, fmt, data):
        cells = to_cells(data)
        size = _struct.calcsize(fmt)
        for o in range(0, len(cells) - size + 1, size):
            yield cls._from_cells(fmt, cells, o)

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *a):
            return StructStub.pack(self.format, *a)

        def pack_into(self, buf, off, *a):
            return StructStub.pack_into(self.format, buf, off, *a)

        def unpack(self, d):
            return StructStub.unpack(self.format, d)

        def unpack_from(self, buffer, offset=0):
            return StructStub.unpack_from(self.format, buffer, offset)

        def iter_unpack(self, d):
            return StructStub.iter_unpack(self.format, d)


def to_cells(x):
    p = pieces_of(x)
    if p is None:
        raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)
    out = []
    for q in p:
        if q[0] in "bc":
            out.extend(q[1])
        elif q[0] == "f" and isinstance(q[2], _int):
            out.extend([q[1]] * q[2])
        else:
            ctx().cut("opaque data used as a binary structure")
    return out


def all_literal(x):
    """bytes if x has no symbolic content, else None."""
    p = pieces_of(x)
    if p is None:
        return None
    out = b""
    for q in p:
        if q[0] == "b":
            out += q[1]
        elif q[0] == "c" and all(isinstance(c, _int) for c in q[1]):
            out += bytes(q[1])
        elif q[0] == "f" and isinstance(q[2], _int) and q[2] < 1 << 20:
            out += bytes([q[1]]) * q[2]
        else:
            return None
    return out


# -- constructors seen by the code under test -----------------------------------


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, bytes) or getattr(o, "_is_bytes", False)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, (SymBytes, SymView)):
                p = pieces_of(x)
                lit = all_literal(x)
                return lit if lit is not None else SymBytes(p)
            if isinstance(x, SymInt):
                return SymBytes.fill(0, imax(0, x))
        return bytes(*a, **k)

    def __getattr__(cls, name):
        return getattr(bytes, name)

    def __eq__(cls, o):
        return o is cls or o is bytes

    def __hash__(cls):
        return hash(bytes)


class sx_bytes(metaclass=_BytesMeta):
    pass


class _BAMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, bytearray) or getattr(o, "_is_bytearray", False)

    def __call__(cls, *a, **k):
        if not a:
            return SymBuf([])
        x = a[0]
        if isinstance(x, (SymInt, SymBool)):
            return SymBuf.zeros(imax(0, x))
        if isinstance(x, _int):
            return SymBuf.zeros(x)
        p = pieces_of(x)
        if p is not None:
            return SymBuf(p)
        return bytearray(*a, **k)

    def __getattr__(cls, name):
        return getattr(bytearray, name)

    def __eq__(cls, o):
        return o is cls or o is bytearray

    def __hash__(cls):
        return hash(bytearray)


class sx_bytearray(metaclass=_BAMeta):
    pass


class _MVMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (memoryview, SymView))

    def __call__(cls, x):
        if isinstance(x, SymBytes):
            return SymView(x)
        if isinstance(x, SymView):
            return x
        return memoryview(x)

    def __eq__(cls, o):
        return o is cls or o is memoryview

    def __hash__(cls):
        return hash(memoryview)


class sx_memoryview(metaclass=_MVMeta):
    pass


class ArrayStub:
    """The array module: only byte arrays become symbolic buffers."""

    ArrayType = SymBuf

    @staticmethod
    def array(typecode, init=()):
        import array as _array

        if typecode in ("B", "b"):
            if isinstance(init, (SymBytes, SymView)):
                return SymBuf(pieces_of(init))
            if isinstance(init, (list, tuple)):
                return SymBuf([("b", bytes(init))])
            if isinstance(init, (bytes, bytearray)):
                return SymBuf([("b", bytes(init))])
            return SymBuf([("b", bytes(list(init)))])
        return _array.array(typecode, init)


def sx_join(sep, items):
    """x.join(y) with symbolic elements."""
    if isinstance(sep, (bytes, bytearray, SymBytes)):
        items = list(items)
        if isinstance(sep, SymBytes) or any(isinstance(i, (SymBytes, SymView)) for i in items):
            out = []
            for k, i in enumerate(items):
                if k:
                    out += pieces_of(sep)
                out += pieces_of(i)
            return SymBytes(out)
        return sep.join(items)
    from .values import SymStr, LazyStr

    if isinstance(sep, (str, LazyStr, SymStr)):
        items = list(items)
        if any(isinstance(i, SymStr) for i in items) or isinstance(sep, SymStr):
            r = ""
            for k, i in enumerate(items):
                r = r + (sep if k else "") + i
            return r
        items = [i.force() if isinstance(i, LazyStr) else i for i in items]
        if isinstance(sep, LazyStr):
            sep = sep.force()
        return sep.join(items)
    return sep.join(items)
