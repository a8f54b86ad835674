"""Symbolic values: proxies that carry z3 terms through real Python code."""

import builtins
import z3
from fractions import Fraction
from . import core

_int = builtins.int
_str = builtins.str
_float = builtins.float
_bool = builtins.bool


def ctx():
    c = core.CUR
    if c is None:
        raise core.EngineError("symbolic value used outside a path")
    return c


def simp(t):
    return z3.simplify(t)


def mk_int(t):
    """z3 Int term -> SymInt, or a Python int when it is a numeral."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def as_z3bool(c):
    if isinstance(c, SymBool):
        return c.t
    if isinstance(c, _bool):
        return z3.BoolVal(c)
    if isinstance(c, SymInt):
        return c.t != 0
    if z3.is_expr(c):
        return c
    return z3.BoolVal(_bool(c))


def as_z3int(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, _bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, _int):
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    return None


def is_intlike(x):
    return isinstance(x, (SymInt, SymBool, _int))


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal, SymStr))


def And(*a):
    return mk_bool(z3.And(*[as_z3bool(x) for x in a]))


def Or(*a):
    return mk_bool(z3.Or(*[as_z3bool(x) for x in a]))


def Not(a):
    return mk_bool(z3.Not(as_z3bool(a)))


def Implies(a, b):
    return mk_bool(z3.Implies(as_z3bool(a), as_z3bool(b)))


def If(c, a, b):
    """Integer if-then-else without forking."""
    if isinstance(c, _bool):
        return a if c else b
    return mk_int(z3.If(as_z3bool(c), as_z3int(a), as_z3int(b)))


def imin(*a):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for x in a[1:]:
        if isinstance(r, _int) and isinstance(x, _int):
            r = x if x < r else r
        else:
            r = mk_int(z3.If(as_z3int(x) < as_z3int(r), as_z3int(x), as_z3int(r)))
    return r


def imax(*a):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for x in a[1:]:
        if isinstance(r, _int) and isinstance(x, _int):
            r = x if x > r else r
        else:
            r = mk_int(z3.If(as_z3int(x) > as_z3int(r), as_z3int(x), as_z3int(r)))
    return r


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        if isinstance(o, (SymBool, _bool)):
            return mk_bool(z3.And(self.t, as_z3bool(o)))
        return SymInt(as_z3int(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, _bool)):
            return mk_bool(z3.Or(self.t, as_z3bool(o)))
        return SymInt(as_z3int(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.t, as_z3bool(o)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, _bool)):
            return mk_bool(self.t == as_z3bool(o))
        if isinstance(o, (SymInt, _int)):
            return mk_bool(as_z3int(self) == as_z3int(o))
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        return hash(_bool(self))

    def __add__(self, o):
        return SymInt(as_z3int(self)) + o

    __radd__ = __add__

    def __int__(self):
        return 1 if _bool(self) else 0

    def __index__(self):
        return 1 if _bool(self) else 0

    def __mul__(self, o):
        return If(self, o, 0) if is_intlike(o) else NotImplemented

    __rmul__ = __mul__

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return "True" if _bool(self) else "False"


def _isnum(o):
    return isinstance(o, (SymInt, SymBool, _int))


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # arithmetic
    def __add__(self, o):
        if _isnum(o):
            return mk_int(self.t + as_z3int(o))
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(self) + o
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if _isnum(o):
            return mk_int(self.t - as_z3int(o))
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if _isnum(o):
            return mk_int(as_z3int(o) - self.t)
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(o) - SymReal.of(self)
        return NotImplemented

    def __mul__(self, o):
        if _isnum(o):
            return mk_int(self.t * as_z3int(o))
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(self) * o
        if isinstance(o, (bytes, bytearray, _str, list, tuple)):
            return repeat(o, self)
        return NotImplemented

    __rmul__ = __mul__

    def _divmod(self, a, b):
        """floor division of z3 ints/ints a by b, Python semantics."""
        if isinstance(b, _int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            ta = as_z3int(a)
            if b > 0:
                q = ta / z3.IntVal(b)
            else:
                q = (-ta) / z3.IntVal(-b)
            return mk_int(q), mk_int(ta - q * b)
        # symbolic divisor
        tb = b.t
        if ctx().branch(tb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        ta = as_z3int(a)
        if ctx().branch(tb > 0):
            q = ta / tb
        else:
            q = (-ta) / (-tb)
        return mk_int(q), mk_int(ta - q * tb)

    def __floordiv__(self, o):
        if _isnum(o):
            return self._divmod(self, _plain(o))[0]
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(self) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if _isnum(o):
            return self._divmod(o, self)[0]
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(o) // SymReal.of(self)
        return NotImplemented

    def __mod__(self, o):
        if _isnum(o):
            return self._divmod(self, _plain(o))[1]
        if isinstance(o, (_float, SymReal)):
            return SymReal.of(self) % o
        return NotImplemented

    def __rmod__(self, o):
        if _isnum(o):
            return self._divmod(o, self)[1]
        return NotImplemented

    def __divmod__(self, o):
        if _isnum(o):
            return self._divmod(self, _plain(o))
        if isinstance(o, (_float, SymReal)):
            return divmod(SymReal.of(self), o)
        return NotImplemented

    def __rdivmod__(self, o):
        if _isnum(o):
            return self._divmod(o, self)
        return NotImplemented

    def __truediv__(self, o):
        if _isnum(o) or isinstance(o, (_float, SymReal)):
            return SymReal.of(self) / SymReal.of(o)
        return NotImplemented

    def __rtruediv__(self, o):
        if _isnum(o) or isinstance(o, (_float, SymReal)):
            return SymReal.of(o) / SymReal.of(self)
        return NotImplemented

    def __neg__(self):
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.t >= 0, self.t, -self.t))

    def __invert__(self):
        return mk_int(-self.t - 1)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        return ctx().concretise(self.t, "bit_length").bit_length()

    def __lshift__(self, o):
        if isinstance(o, _int):
            return self * (1 << o)
        return NotImplemented

    def __rlshift__(self, o):
        return o << ctx().concretise(self.t, "shift by symbolic")

    def __rshift__(self, o):
        if isinstance(o, _int):
            return self // (1 << o)
        return NotImplemented

    def __rrshift__(self, o):
        return o >> ctx().concretise(self.t, "shift by symbolic")

    def __and__(self, o):
        o = _plain(o)
        if isinstance(o, _int):
            if o < 0:
                # a & -m  ==  a - (a & (m-1)) when m is a power of two
                return self - (self & ~o)
            # decompose the mask into runs of ones
            res = 0
            bit = 0
            m = o
            while m:
                if m & 1:
                    lo = bit
                    while m & 1:
                        m >>= 1
                        bit += 1
                    width = bit - lo
                    res = res + ((self // (1 << lo)) % (1 << width)) * (1 << lo)
                else:
                    m >>= 1
                    bit += 1
            return res
        ctx().cut("bitwise and of two symbolic integers")

    __rand__ = __and__

    def __or__(self, o):
        o = _plain(o)
        if isinstance(o, _int):
            return self + o - (self & o)
        ctx().cut("bitwise or of two symbolic integers")

    __ror__ = __or__

    def __xor__(self, o):
        o = _plain(o)
        if isinstance(o, _int):
            return self + o - 2 * (self & o)
        ctx().cut("bitwise xor of two symbolic integers")

    __rxor__ = __xor__

    def __pow__(self, o, m=None):
        if isinstance(o, _int) and m is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        ctx().cut("power of a symbolic integer")

    def __rpow__(self, o):
        return o ** ctx().concretise(self.t, "power by symbolic")

    # comparisons
    def _cmp(self, o, f):
        if _isnum(o):
            return mk_bool(f(self.t, as_z3int(o)))
        if isinstance(o, (_float, SymReal)):
            return None
        return NotImplemented

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return SymReal.of(self) < o if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return SymReal.of(self) <= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return SymReal.of(self) > o if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return SymReal.of(self) >= o if r is None else r

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            return False
        return SymReal.of(self) == o if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        if r is NotImplemented:
            return True
        return SymReal.of(self) != o if r is None else r

    def __hash__(self):
        return hash(ctx().concretise(self.t, "hash"))

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        return ctx().concretise(self.t, "__index__")

    def __int__(self):
        return ctx().concretise(self.t, "__int__")

    def __float__(self):
        return _float(ctx().concretise(self.t, "__float__"))

    # text
    def __str__(self):
        return sentinel(self)

    def __repr__(self):
        return sentinel(self) if core.CUR is not None else "<symint>"

    def __format__(self, spec):
        return fmt_int(self, spec)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def to_bytes(self, length=1, byteorder="big", signed=False):
        from .buffers import int_to_cells, SymCells

        cells = int_to_cells(self, length, byteorder)
        return SymCells(cells)


def _plain(o):
    if isinstance(o, SymBool):
        return mk_int(as_z3int(o))
    if isinstance(o, _bool):
        return _int(o)
    return o


# ---------------------------------------------------------------------------
# Reals: Python floats on the paths we follow.  A value is kept as an exact
# rational num/den (den > 0).  Rounding of IEEE-754 doubles is modelled by
# `rounded`: see DESIGN.md ("floats").
# ---------------------------------------------------------------------------


class SymReal:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        # n: z3 Real term;  d: None (1) or a z3 Int term known to be > 0
        self.n = n
        self.d = d

    @staticmethod
    def of(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(z3.ToReal(as_z3int(x)))
        if isinstance(x, _int):
            return SymReal(z3.RealVal(x))
        f = Fraction(x)
        return SymReal(z3.RealVal(f))

    def term(self):
        if self.d is None:
            return self.n
        return self.n / z3.ToReal(self.d)

    def _const(self):
        if self.d is None:
            n = z3.simplify(self.n)
            if z3.is_rational_value(n):
                return Fraction(n.numerator_as_long(), n.denominator_as_long())
        return None

    def _pair(self, o):
        """Common-denominator numerators (na, nb, d)."""
        o = SymReal.of(o)
        if self.d is None and o.d is None:
            return self.n, o.n, None
        if self.d is not None and o.d is not None and self.d.eq(o.d):
            return self.n, o.n, self.d
        if o.d is None:
            return self.n, o.n * z3.ToReal(self.d), self.d
        if self.d is None:
            return self.n * z3.ToReal(o.d), o.n, o.d
        return (
            self.n * z3.ToReal(o.d),
            o.n * z3.ToReal(self.d),
            self.d * o.d,
        )

    def __add__(self, o):
        if not (_isnum(o) or isinstance(o, (_float, SymReal))):
            return NotImplemented
        a, b, d = self._pair(o)
        return SymReal(z3.simplify(a + b), d)

    __radd__ = __add__

    def __sub__(self, o):
        if not (_isnum(o) or isinstance(o, (_float, SymReal))):
            return NotImplemented
        a, b, d = self._pair(o)
        return SymReal(z3.simplify(a - b), d)

    def __rsub__(self, o):
        return SymReal.of(o) - self

    def __mul__(self, o):
        if not (_isnum(o) or isinstance(o, (_float, SymReal))):
            return NotImplemented
        o = SymReal.of(o)
        d = self.d if o.d is None else (o.d if self.d is None else self.d * o.d)
        return SymReal(z3.simplify(self.n * o.n), d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not (_isnum(o) or isinstance(o, (_float, SymReal))):
            return NotImplemented
        o = SymReal.of(o)
        c = o._const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            return SymReal(z3.simplify(self.n * z3.RealVal(1 / c)), self.d)
        if ctx().branch(o.n == 0):
            raise ZeroDivisionError("float division by zero")
        if o.d is None and z3.is_app_of(o.n, z3.Z3_OP_TO_REAL):
            den = o.n.arg(0)
            if ctx().branch(den > 0):
                d = den if self.d is None else self.d * den
                return SymReal(self.n, d)
            d = -den if self.d is None else self.d * -den
            return SymReal(-self.n, d)
        return SymReal(self.term() / o.term())

    def __rtruediv__(self, o):
        return SymReal.of(o) / self

    def floor(self):
        """Largest integer <= value, as SymInt."""
        if self.d is None:
            return mk_int(z3.ToInt(self.n))
        # q with q*d <= n < (q+1)*d : a fresh integer, exactly characterised
        c = ctx()
        q = c.fresh("floor")
        v = z3.Int(q)
        dr = z3.ToReal(self.d)
        c._add(z3.ToReal(v) * dr <= self.n)
        c._add(self.n < (z3.ToReal(v) + 1) * dr)
        return SymInt(v)

    def trunc(self):
        if ctx().branch(as_z3bool(self >= 0)):
            return self.floor()
        return -((-self).floor())

    def __floordiv__(self, o):
        if not (_isnum(o) or isinstance(o, (_float, SymReal))):
            return NotImplemented
        return SymReal.of((self / o).floor())

    def __rfloordiv__(self, o):
        return SymReal.of(o) // self

    def __mod__(self, o):
        return self - SymReal.of(o) * (self // o)

    def __divmod__(self, o):
        q = self // o
        return q, self - SymReal.of(o) * q

    def __neg__(self):
        return SymReal(-self.n, self.d)

    def __abs__(self):
        return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.d)

    def _cmp(self, o, f):
        if _isnum(o) or isinstance(o, (_float, SymReal)):
            a, b, _ = self._pair(o)
            return mk_bool(f(a, b))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        ctx().cut("hash of a symbolic real")

    def __bool__(self):
        return ctx().branch(self.n != 0)

    def __int__(self):
        return ctx().concretise(as_z3int(self.trunc()), "__int__ of real")

    def __float__(self):
        ctx().cut("float() of a symbolic real in C code")

    def __round__(self, n=None):
        if n is None:
            f = self.floor()
            frac = self - f
            if _bool(frac > 0.5):
                return f + 1
            if _bool(frac < 0.5):
                return f
            return f if _bool(f % 2 == 0) else f + 1
        k = 10**n
        return SymReal.of(round(self * k)) / k

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __trunc__(self):
        return self.trunc()

    def is_integer(self):
        return self == SymReal.of(self.floor())

    def __str__(self):
        return fmt_real(self, "")

    def __repr__(self):
        return fmt_real(self, "") if core.CUR is not None else "<symreal>"

    def __format__(self, spec):
        return fmt_real(self, spec)


# ---------------------------------------------------------------------------
# Decimal text of symbolic numbers: "sentinel digits".
#
# A formatted symbolic integer becomes a run of one Unicode decimal digit
# (category Nd, so str.isdigit() and \d accept it) that is reserved for this
# term on this path.  It goes through real files and the real XML parser like
# any digit string; the int()/float() of the code under test maps it back.
# ---------------------------------------------------------------------------

import sys as _sys
import unicodedata as _ud

_ND = [
    chr(c)
    for c in range(0x660, 0x20000)
    if _ud.category(chr(c)) == "Nd" and not (0xFF10 <= c <= 0xFF19)
]


class Sentinels:
    def __init__(self):
        self.by_char = {}
        self.by_key = {}
        self.widths = {}

    def get(self, key, val):
        ch = self.by_key.get(key)
        if ch is None:
            if len(self.by_key) >= len(_ND):
                ctx().cut("more than %d symbolic numbers formatted" % len(_ND))
            ch = _ND[len(self.by_key)]
            self.by_key[key] = ch
            self.by_char[ch] = val
        return ch


def _sent():
    c = ctx()
    if c.sentinels is None:
        c.sentinels = Sentinels()
    return c.sentinels


def digits_of(x, maxd=20):
    """Number of decimal digits of a non-negative SymInt, forked."""
    c = ctx()
    for k in range(1, maxd):
        if c.branch(as_z3int(x) < 10**k):
            return k
    return maxd


def sentinel(x, minwidth=0):
    s = _sent()
    ch = s.get(("i", x.t.get_id()), x)
    s.widths.setdefault(("keep", x.t.get_id()), x.t)  # keep the ast alive
    w = 1
    if ctx().exact_width:
        if ch in s.widths:
            w = s.widths[ch]
        else:
            w = digits_of(x)
            s.widths[ch] = w
    return ch * max(w, 1)


class RealText:
    """What a formatted float stands for: value and number of decimals."""

    def __init__(self, val, prec):
        self.val = val
        self.prec = prec


def fmt_int(x, spec):
    if spec == "":
        return sentinel(x)
    if spec[-1] in "dnu" or spec[-1].isdigit() or spec[-1] == ",":
        if spec[-1] == ",":
            ctx().cut("thousands separators")
        body = spec[:-1] if spec[-1] in "dnu" else spec
        s = sentinel(x)
        if body in ("", " "):
            return s
        return format(s, body.replace("0>", "0>"))
    if spec[-1] in "fFeEgG%":
        return fmt_real(SymReal.of(x), spec)
    if spec[-1] in "xXob":
        ctx().cut("hex/oct format of a symbolic integer")
    return format(sentinel(x), spec)


def fmt_real(x, spec):
    c = x._const()
    if c is not None:
        return format(_float(c), spec)
    prec = None
    if spec.endswith("f") or spec.endswith("F"):
        p = spec[:-1]
        if p == "":
            prec = 6
        elif p.startswith("."):
            prec = _int(p[1:])
        else:
            ctx().cut("float format %r" % spec)
    elif spec == "":
        prec = None
    else:
        ctx().cut("float format %r" % spec)
    s = _sent()
    key = ("r", x.n.get_id(), x.d.get_id() if x.d is not None else None, prec)
    ch = s.get(key, RealText(x, prec))
    s.widths.setdefault(("keep",) + key, (x.n, x.d))
    w = 1
    if ctx().exact_width:
        if ch in s.widths:
            w = s.widths[ch]
        else:
            w = real_width(x, prec)
            s.widths[ch] = w
    if prec is None or prec == 0:
        return ch * w
    return ch * w + "." + ch * prec


def real_width(x, prec):
    """Digits before the point of '%.<prec>f' % x for x >= 0, forked.

    The result rounds up to 10^k when x >= 10^k - 0.5*10^-prec (10^k minus half
    a unit of the last printed digit); that bound is never a tie for a dyadic x
    with prec >= 1."""
    c = ctx()
    if prec is None:
        c.cut("str() of a symbolic real in exact-width mode")
    tol = Fraction(1, 1 << 44)
    for k in range(1, 21):
        edge = Fraction(10**k) - Fraction(1, 2 * 10**prec)
        # x.d is symbolic (an IEEE division that may have been rounded):
        # within tol of the edge both outcomes are explored.
        if x.d is None:
            if c.branch(as_z3bool(x < SymReal(z3.RealVal(edge)))):
                return k
        else:
            lo = SymReal(z3.RealVal(edge - tol))
            hi = SymReal(z3.RealVal(edge + tol))
            if c.branch(as_z3bool(x < lo)):
                return k
            if c.branch(as_z3bool(x <= hi)):
                if c.flag("float_rounding"):
                    return k
    return 20


def parse_sentinel(text):
    """Text -> SymInt / (RealText) if it is a sentinel run, else None."""
    c = core.CUR
    if c is None or c.sentinels is None:
        return None
    if isinstance(text, (bytes, bytearray)):
        try:
            text = bytes(text).decode()
        except UnicodeDecodeError:
            return None
    s = text.strip()
    neg = False
    if s[:1] in "+-" and len(s) > 1:
        neg = s[0] == "-"
        s = s[1:]
    if not s:
        return None
    ch = s[0]
    v = c.sentinels.by_char.get(ch)
    if v is None:
        return None
    if isinstance(v, RealText):
        return v
    if s != ch * len(s):
        if not s.replace("_", "").isdigit():
            return None  # (no integer)
        c.cut("number text mixing symbolic and other digits: %r" % text)
    return -v if neg else v


def decimal_text(text):
    """'12.<n>', '<n>.5', '<n>.<m>' -> SymReal, or None when it is no such text."""
    t = text.strip()
    sign = 1
    if t[:1] in ("+", "-"):
        sign = -1 if t[0] == "-" else 1
        t = t[1:]
    a, dot, b = t.partition(".")
    if not dot or not (a or b):
        return None
    by = ctx().sentinels.by_char
    parts = []
    for x in (a, b):
        if not has_sentinel(x):
            if x and not (x.isascii() and x.isdigit()):
                return None
            parts.append((_int(x or "0"), len(x)))
            continue
        v = by.get(x[0])
        if x != x[0] * len(x) or not isinstance(v, SymInt):
            ctx().cut("number text mixing symbolic and other digits: %r" % text)
        parts.append((v, None))
    (i, _), (f, n) = parts
    if n is None:
        if ctx().branch(as_z3int(f) < 0):
            return None
        n = digits_of(f)
    r = SymReal.of(i) + SymReal.of(f) / 10**n
    return -r if sign < 0 else r


def has_sentinel(text):
    c = core.CUR
    if c is None or c.sentinels is None:
        return False
    return any(ch in c.sentinels.by_char for ch in text)


def chars_of(text):
    """The characters of a text as numbers, those of the symbolic numbers in it
    as terms (their count of digits is forked)."""
    c = ctx()
    by = c.sentinels.by_char
    out, i = [], 0
    while i < len(text):
        v = by.get(text[i])
        if v is None:
            out.append(ord(text[i]))
            i += 1
            continue
        j = i
        while j < len(text) and text[j] == text[i]:
            j += 1
        i = j
        if isinstance(v, RealText):
            c.cut("comparing the text of a symbolic real")
        if c.branch(as_z3int(v) < 0):
            out.append(ord("-"))
            v = -v
        k = digits_of(v)
        for e in reversed(range(k)):
            out.append(48 + v // 10**e % 10)
    return out


def _text_cmp(a, b):
    """-1, 0 or 1"""
    x, y = chars_of(a), chars_of(b)
    for p, q in zip(x, y):
        if p == q:
            continue
        return -1 if p < q else 1
    return (len(x) > len(y)) - (len(x) < len(y))


_OPS = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "in": lambda a, b: a in b,
    "not in": lambda a, b: a not in b,
}


def _numbered(a):
    """A text with a symbolic number in it?"""
    return type(a) is _str and not a.isascii() and has_sentinel(a)


def _free(k):
    """A key whose place in a table is a question for the solver."""
    t = type(k)
    if t in (_int, _bool) or t is _str and k.isascii():
        return False
    if t is tuple:
        return builtins.any(_free(x) for x in k)
    return isinstance(k, (SymInt, SymBool, SymReal, SymStr)) or t.__name__ == "Rope" or _numbered(k)


def _entry(table, k):
    """The key of the table that equals k (a path for each), or None in a tuple."""
    for y in table:
        if same_key(k, y):
            return (y,)
    return None


def same_key(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and builtins.all(same_key(x, y) for x, y in zip(a, b))
    return _bool(sx_cmp("==", a, b))


def _plain_table(x):
    return isinstance(x, dict) and type(x).get is dict.get and type(x).__getitem__ in (dict.__getitem__, _DDICT)


_DDICT = __import__("collections").defaultdict.__getitem__


def sx_item(x, i):
    """x[i]"""
    if core.CUR is not None:
        if isinstance(i, SymInt) and isinstance(x, (tuple, list)):
            for k in builtins.range(len(x)):
                if _bool(Or(i == k, i == k - len(x))):
                    return x[k]
            raise IndexError("list index out of range")
        if _free(i) and _plain_table(x):
            e = _entry(x, i)
            if e is not None:
                return x[e[0]]
            m = getattr(type(x), "__missing__", None)
            if m is None:
                raise KeyError(i)
            return m(x, i)
    return x[i]


def sx_get(x, *a, **k):
    """x.get(...)"""
    if core.CUR is not None and a and not k and _plain_table(x) and _free(a[0]):
        e = _entry(x, a[0])
        return x[e[0]] if e is not None else a[1] if len(a) > 1 else None
    return x.get(*a, **k)


def sx_cmp(op, a, b):
    if core.CUR is not None:
        if op in ("in", "not in") and isinstance(b, (set, frozenset, dict)) and _free(a) and (not isinstance(b, dict) or _plain_table(b)):
            return (_entry(b, a) is not None) == (op == "in")
    if core.CUR is not None and core.CUR.sentinels is not None:
        if _numbered(a) or _numbered(b):
            if type(a) is _str and type(b) is _str and op not in ("in", "not in"):
                if op in ("==", "!=") and _real_text(a + b):
                    return (a == b or _same_reals(a, b)) == (op == "==")
                if op in ("==", "!=") and _apart(a, b):
                    return op == "!="
                return a == b and op in ("==", "<=", ">=") if a == b else _OPS[op](_text_cmp(a, b), 0)
            if op in ("in", "not in") and isinstance(b, (tuple, list, set, frozenset)):
                r = builtins.any(sx_cmp("==", a, y) for y in b)
                return r if op == "in" else not r
            if op in ("in", "not in") and isinstance(b, dict):
                r = builtins.any(sx_cmp("==", a, y) for y in b)
                if r and a not in b:
                    ctx().cut("dictionary lookup with the text of a symbolic number")
                return r if op == "in" else not r
        elif type(a) is _str and op in ("in", "not in") and isinstance(b, (tuple, list, set, frozenset)):
            if builtins.any(_numbered(y) for y in b):
                r = builtins.any(sx_cmp("==", a, y) for y in b)
                return r if op == "in" else not r
    return _OPS[op](a, b)


def _real_text(text):
    by = core.CUR.sentinels.by_char
    return builtins.any(isinstance(by.get(ch), RealText) for ch in text)


def _apart(a, b):
    """Texts which differ whatever the numbers are."""
    strip = lambda t: "".join("" if ch.isdigit() or ch == "-" else ch for ch in t)
    return strip(a) != strip(b)


def _same_reals(a, b):
    """Whether two different templates, at least one with a real in it, give the
    same text."""
    import re

    by = core.CUR.sentinels.by_char
    if not has_sentinel(a):
        a, b = b, a
    runs, pattern, i = [], "", 0
    while i < len(a):
        v = by.get(a[i])
        if v is None:
            pattern += re.escape(a[i])
            i += 1
            continue
        j = i
        while j < len(a) and a[j] == a[i]:
            j += 1
        number = r"-?\d+"
        if isinstance(v, RealText):
            if v.prec is None:
                number = r"-?[\d.e+-]+"
            elif v.prec:
                number += r"\.\d{%d}" % v.prec
                j += 1 + v.prec
        pattern += "(%s)" % number
        runs.append(v)
        i = j
    m = re.fullmatch(pattern, b)
    if m is None:
        return False
    if has_sentinel(b):
        ctx().cut("comparing the texts of two symbolic reals")
    for v, text in zip(runs, m.groups()):
        if isinstance(v, RealText):
            if v.prec is None:
                ctx().cut("comparing the str() of a symbolic real")
            if text != format(Fraction(text), ".%df" % v.prec) or text.startswith("-"):
                if not text.startswith("-"):
                    return False
                ctx().cut("comparing the text of a symbolic real with a negative number")
            half = Fraction(1, 2 * 10**v.prec)
            lo, hi = (SymReal(z3.RealVal(Fraction(text) + h)) for h in (-half, half))
            if text[-1] in "02468":
                same = And(v.val >= lo, v.val <= hi)
            else:
                same = And(v.val > lo, v.val < hi)
        else:
            if text != _str(_int(text)):
                return False
            same = v == _int(text)
        if not _bool(same):
            return False
    return True


def sx_affix(how, text, *a, **k):
    if core.CUR is not None and core.CUR.sentinels is not None and len(a) == 1 and not k:
        w = a[0] if isinstance(a[0], tuple) else (a[0],)
        if _numbered(text) or type(text) is _str and builtins.any(_numbered(x) for x in w):
            for x in w:
                if getattr(text, how)(x):
                    return True
                if type(x) is not _str or not builtins.any(ch.isdigit() for ch in x):
                    continue
                p, q = chars_of(text), chars_of(x)
                if len(q) > len(p):
                    continue
                p = p[: len(q)] if how == "startswith" else p[len(p) - len(q) :]
                if builtins.all(u == v for u, v in zip(p, q)):
                    return True
            return False
    return getattr(text, how)(*a, **k)


class _Re(type(builtins)):
    """The re module, for which [0-9] is a digit of a symbolic number too."""

    def __init__(self):
        import re

        super().__init__("re")
        self.__dict__.update({k: v for k, v in vars(re).items() if not k.startswith("__")})
        for n in ("compile", "match", "fullmatch", "search", "split", "findall", "finditer", "sub", "subn"):
            self.__dict__[n] = self._wrap(getattr(re, n))

    @staticmethod
    def _wrap(f):
        def g(pattern, *a, **k):
            if isinstance(pattern, _str) and "[" in pattern:
                pattern = pattern.replace("0-9", "0-9\\d")
            return f(pattern, *a, **k)

        return g


RE = _Re()


# ---------------------------------------------------------------------------
# Symbolic strings (z3 sequence theory)
# ---------------------------------------------------------------------------


def as_z3str(x):
    if isinstance(x, SymStr):
        return x.t
    if isinstance(x, _str):
        return z3.StringVal(x)
    return None


def mk_str(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return core.z3_unescape(t.as_string())
    return SymStr(t)


class SymStr:
    """A symbolic str.  Not a subclass of str: C code cannot look inside."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _s(self, o, what):
        r = as_z3str(o)
        if r is None:
            raise TypeError("%s of SymStr with %r" % (what, type(o)))
        return r

    def __add__(self, o):
        r = as_z3str(o)
        return NotImplemented if r is None else mk_str(z3.Concat(self.t, r))

    def __radd__(self, o):
        r = as_z3str(o)
        return NotImplemented if r is None else mk_str(z3.Concat(r, self.t))

    def __eq__(self, o):
        r = as_z3str(o)
        return False if r is None else mk_bool(self.t == r)

    def __ne__(self, o):
        r = as_z3str(o)
        return True if r is None else mk_bool(self.t != r)

    def __hash__(self):
        # equal-by-text lookups in dicts are not supported symbolically
        ctx().cut("hash of a symbolic string")

    def __contains__(self, o):
        return _bool(mk_bool(z3.Contains(self.t, self._s(o, "in"))))

    def __bool__(self):
        return ctx().branch(z3.Length(self.t) != 0)

    def __len__(self):
        return ctx().concretise(z3.Length(self.t), "len of SymStr")

    def symlen(self):
        return mk_int(z3.Length(self.t))

    def endswith(self, suf, *a):
        if a:
            ctx().cut("endswith with bounds")
        if isinstance(suf, tuple):
            return Or(*[self.endswith(x) for x in suf]) if suf else False
        return mk_bool(z3.SuffixOf(self._s(suf, "endswith"), self.t))

    def startswith(self, pre, *a):
        if a:
            ctx().cut("startswith with bounds")
        if isinstance(pre, tuple):
            return Or(*[self.startswith(x) for x in pre]) if pre else False
        return mk_bool(z3.PrefixOf(self._s(pre, "startswith"), self.t))

    def _norm(self, i, n, dflt):
        if i is None:
            return dflt
        i = as_z3int(i)
        return z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))

    def __getitem__(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                ctx().cut("SymStr slice step")
            a = self._norm(k.start, n, z3.IntVal(0))
            b = self._norm(k.stop, n, n)
            return mk_str(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
        i = as_z3int(k)
        i = z3.If(i < 0, n + i, i)
        if not ctx().branch(z3.And(i >= 0, i < n)):
            raise IndexError("string index out of range")
        return mk_str(z3.SubString(self.t, i, z3.IntVal(1)))

    def rfind(self, sub, *a):
        if a:
            ctx().cut("rfind with bounds")
        return mk_int(z3.LastIndexOf(self.t, self._s(sub, "rfind")))

    def find(self, sub, *a):
        if a:
            ctx().cut("find with bounds")
        return mk_int(z3.IndexOf(self.t, self._s(sub, "find"), z3.IntVal(0)))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if _bool(i < 0):
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def partition(self, sep):
        i = self.find(sep)
        if _bool(i < 0):
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep, maxsplit)
        out = []
        rest = self
        while maxsplit > 0:
            a, s, b = rest.rpartition(sep) if isinstance(rest, SymStr) else rest.rpartition(sep)
            if s == "":
                break
            out.insert(0, b)
            rest = a
            maxsplit -= 1
        out.insert(0, rest)
        return out

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            ctx().cut("whitespace split of SymStr")
        out = []
        rest = self
        n = 0
        while maxsplit < 0 or n < maxsplit:
            a, s, b = rest.partition(sep)
            if s == "":
                break
            out.append(a)
            rest = b
            n += 1
            ctx().tick()
        out.append(rest)
        return out

    def removesuffix(self, suf):
        if _bool(self.endswith(suf)):
            return self[: self.symlen() - len(suf)]
        return self

    def removeprefix(self, pre):
        if _bool(self.startswith(pre)):
            return self[len(pre) :]
        return self

    def strip(self, *a):
        ctx().cut("strip of SymStr")

    def lower(self):
        return mk_str(case_fold(self.t))

    casefold = lower

    def encode(self, *a):
        ctx().cut("encode of SymStr")

    def __str__(self):
        # for messages only: opaque, but unique to the term
        return "<symstr#%d>" % self.t.get_id()

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


def case_fold(t):
    c = ctx()
    # result r: same length, and equal after mapping A-Z: bounded by 24 chars
    maxn = c.extra.get("symstr_max", 0)
    if not maxn:
        c.cut("lower() of an unbounded symbolic string")
    parts = []
    for i in range(maxn):
        ch = z3.SubString(t, z3.IntVal(i), z3.IntVal(1))
        code = z3.StrToCode(ch)
        parts.append(
            z3.If(
                z3.And(code >= 65, code <= 90),
                z3.StrFromCode(code + 32),
                ch,
            )
        )
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]


# ---------------------------------------------------------------------------
# '%' formatting and builtins seen by the code under test
# ---------------------------------------------------------------------------

import re as _re

_FMT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])")


def contains_sym(x, depth=0):
    if is_sym(x) or isinstance(x, LazyStr):
        return True
    if depth < 3 and isinstance(x, (tuple, list)):
        return any(contains_sym(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, dict):
        return any(contains_sym(y, depth + 1) for y in x.values())
    return False


class LazyStr:
    """A '%'-formatted text whose digits are only laid out when looked at.

    Used in exact-width mode, so that log messages do not fork on the number of
    digits of every value they mention."""

    def __init__(self, thunk):
        self._thunk = thunk
        self._val = None

    def force(self):
        if self._val is None:
            self._val = self._thunk()
        return self._val

    def __str__(self):
        return self.force()

    def __repr__(self):
        return "<lazy>"

    def __len__(self):
        return len(self.force())

    def __add__(self, o):
        return self.force() + _str(o) if isinstance(o, (LazyStr, _str)) else NotImplemented

    def __radd__(self, o):
        return _str(o) + self.force() if isinstance(o, (LazyStr, _str)) else NotImplemented

    def __eq__(self, o):
        return self.force() == (o.force() if isinstance(o, LazyStr) else o)

    def __hash__(self):
        return hash(self.force())

    def __mul__(self, o):
        return self.force() * o

    def __contains__(self, o):
        return o in self.force()

    def __getitem__(self, k):
        return self.force()[k]

    def __iter__(self):
        return iter(self.force())

    def __format__(self, spec):
        return format(self.force(), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)


def force(x):
    return x.force() if isinstance(x, LazyStr) else x


def sx_mod(l, r):
    """Replacement of the '%' operator."""
    l = force(l)
    if isinstance(l, (bytes, bytearray)) and contains_sym(r):
        if contains_text(r):
            ctx().cut("bytes %-formatting of symbolic text")
        t = force(sx_mod(bytes(l).decode("utf-8", "surrogateescape"), r))
        return t.encode("utf-8", "surrogateescape")
    if not isinstance(l, _str) or not contains_sym(r):
        if isinstance(l, _str) and type(r).__name__ == "SymBytes":
            return l
        return l % r
    return _lazily(lambda: _do_mod(l, r), r)


def contains_text(x, depth=0):
    """Does it contain a symbolic text?"""
    if isinstance(x, SymStr):
        return True
    if depth < 3 and isinstance(x, (tuple, list)):
        return any(contains_text(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, dict):
        return any(contains_text(y, depth + 1) for y in x.values())
    return False


def _lazily(f, args):
    if contains_text(args):
        from . import strings

        return strings.decode(f())
    if ctx().exact_width:
        return LazyStr(f)
    return f()


def sx_fstr(*parts):
    """An f-string: the literal pieces, and (value, conversion, spec) triples."""

    def lay():
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                v, spec = force(v), force(spec)
                if conv == "r":
                    v = repr(v) if not is_sym(v) else _str(v)
                elif conv == "a":
                    v = ascii(v) if not is_sym(v) else _str(v)
                elif conv == "s":
                    v = _str(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return "".join(out)

    if not contains_sym(list(p if not isinstance(p, tuple) else p[0] for p in parts)):
        return lay()
    return _lazily(lay, [p[0] for p in parts if isinstance(p, tuple)])


def sx_format(*args, **kw):
    l = force(args[0])
    args = args[1:]
    if not isinstance(l, _str) or not (contains_sym(args) or contains_sym(kw)):
        return l.format(*args, **kw)
    return _lazily(
        lambda: l.format(*[force(a) for a in args], **{k: force(v) for k, v in kw.items()}),
        (args, kw),
    )


def _do_mod(l, r):
    args = r
    out = []
    pos = 0
    single = not isinstance(r, tuple)
    seq = [r] if single else list(r)
    idx = 0
    for m in _FMT.finditer(l):
        out.append(l[pos : m.start()])
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue
        key = m.group("key")
        if key is not None:
            v = args[key]
        else:
            if m.group("width") == "*" or m.group("prec") == "*":
                ctx().cut("star format")
            if idx >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[idx]
            idx += 1
        v = force(v)
        flags, width, prec = m.group("flags"), m.group("width"), m.group("prec")
        if not contains_sym(v):
            out.append(("%" + flags + (width or "") + ("." + prec if prec is not None else "") + conv) % (v,))
            continue
        if conv in "diu":
            if isinstance(v, SymStr):
                raise TypeError("%d format: a real number is required, not str")
            if isinstance(v, SymReal):
                v = v.trunc()
            if isinstance(v, SymBool):
                v = mk_int(as_z3int(v))
            s = fmt_int(v, "") if isinstance(v, SymInt) else _str(v)
        elif conv in "fF":
            s = fmt_real(SymReal.of(v), ".%sf" % (prec if prec is not None else 6))
        elif conv in "sra":
            s = _str(v) if is_sym(v) else (repr(v) if conv != "s" else _str(v))
            if prec is not None:
                s = s[: _int(prec)]
        elif conv in "eEgGxXoc":
            ctx().cut("format %%%s of a symbolic value" % conv)
        if width:
            s = s.ljust(_int(width)) if "-" in flags else s.rjust(_int(width))
        out.append(s)
    if not single and idx < len(seq) and not any(m.group("key") for m in _FMT.finditer(l)):
        raise TypeError("not all arguments converted during string formatting")
    out.append(l[pos:])
    return "".join(out)


def repeat(seq, n):
    from .buffers import SymBytes

    if isinstance(n, (SymInt, SymBool)):
        if isinstance(seq, (bytes, bytearray)) and len(seq) == 1:
            return SymBytes.fill(seq[0], imax(0, n))
        n = ctx().concretise(as_z3int(n), "sequence repetition")
    return seq * n


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_int, SymInt, SymBool))

    def __subclasscheck__(cls, o):
        return issubclass(o, (_int, SymInt))

    def __call__(cls, x=0, *a, **k):
        x = force(x)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return mk_int(as_z3int(x))
        if isinstance(x, SymReal):
            return x.trunc()
        if isinstance(x, SymStr):
            return x_str_to_int(x)
        if isinstance(x, (_str, bytes, bytearray)) and not a:
            v = parse_sentinel(x)
            if isinstance(v, RealText):
                raise ValueError("invalid literal for int(): %r" % x)
            if v is not None:
                return v
            if isinstance(x, _str) and has_sentinel(x):
                # digits glued to something else
                if x.strip().lstrip("+-").replace("_", "").isdigit():
                    ctx().cut("number text mixing symbolic and other digits: %r" % x)
                raise ValueError("invalid literal for int(): %r" % x)
        elif isinstance(x, (_str, bytes)) and a:
            v = parse_sentinel(x)
            if v is not None:
                if a[0] != 10:
                    ctx().cut("a symbolic number in base %s" % (a[0],))
                return v
        return _int(x, *a, **k)

    def __getattr__(cls, name):
        if name == "from_bytes":
            return _from_bytes
        return getattr(_int, name)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


def x_str_to_int(x):
    ctx().cut("int() of a symbolic string")


def _from_bytes(b, byteorder="big", signed=False):
    from .buffers import SymCells, cells_to_int

    if isinstance(b, SymCells):
        return cells_to_int(b.cells, byteorder)
    return _int.from_bytes(b, byteorder, signed=signed)


class sx_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_float, SymReal))

    def __call__(cls, x=0.0):
        x = force(x)
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal.of(x)
        if isinstance(x, _str):
            if has_sentinel(x):
                v = decimal_text(x)
                if v is not None:
                    return v
            v = parse_sentinel(x)
            if isinstance(v, RealText):
                return v.val
            if v is not None:
                return SymReal.of(v)
            if has_sentinel(x):
                ctx().cut("number text mixing symbolic and other digits: %r" % x)
        return _float(x)

    def __getattr__(cls, name):
        return getattr(_float, name)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class sx_float(metaclass=_FloatMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_str, SymStr, LazyStr))

    def __subclasscheck__(cls, o):
        return issubclass(o, _str)

    def __call__(cls, x="", *a, **k):
        if isinstance(x, (SymStr, LazyStr)):
            return x
        if isinstance(x, SymInt) and ctx().exact_width:
            return LazyStr(lambda: sentinel(x))
        return _str(x, *a, **k)

    def __getattr__(cls, name):
        return getattr(_str, name)

    def __eq__(cls, o):
        return o is cls or o is _str

    def __hash__(cls):
        return hash(_str)


class sx_str(metaclass=_StrMeta):
    pass


def sx_len(x):
    f = getattr(type(x), "symlen", None)
    if f is not None:
        return f(x)
    return len(x)


def sx_range(*a):
    if not any(isinstance(x, (SymInt, SymBool)) for x in a):
        return range(*a)
    return _symrange(*a)


def _symrange(*a):
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if not isinstance(step, _int):
        step = ctx().concretise(as_z3int(step), "range step")
    i = start
    while True:
        ctx().tick()
        more = (i < stop) if step > 0 else (i > stop)
        if not more:
            return
        yield i
        i = i + step


def sx_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (SymInt, SymBool)) for x in xs):
        return min(*a, **k)
    if all(is_intlike(x) for x in xs):
        return imin(*xs)
    return min(*a, **k)


def sx_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (SymInt, SymBool)) for x in xs):
        return max(*a, **k)
    if all(is_intlike(x) for x in xs):
        return imax(*xs)
    return max(*a, **k)


def sx_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def sx_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sx_divmod(a, b):
    return divmod(a, b)


def sx_bool(x=False):
    return _bool(x)


def sx_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        flat.extend(x if isinstance(x, tuple) else (x,))
    for x in flat:
        if x is _int or x is sx_int:
            if isinstance(o, (_int, SymInt, SymBool)):
                return True
        elif x is _float or x is sx_float:
            if isinstance(o, (_float, SymReal)):
                return True
        elif x is _str or x is sx_str:
            if isinstance(o, (_str, SymStr, LazyStr)):
                return True
        elif x is _bool:
            if isinstance(o, (_bool, SymBool)):
                return True
        elif x in (bytes,):
            if isinstance(o, bytes) or getattr(o, "_is_bytes", False):
                return True
        elif x is bytearray:
            if isinstance(o, bytearray) or getattr(o, "_is_bytearray", False):
                return True
        else:
            try:
                if isinstance(o, x):
                    return True
            except TypeError:
                raise
    return False


def sx_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, SymInt):
            return sx_int
        if isinstance(o, SymStr):
            return sx_str
        if isinstance(o, SymReal):
            return sx_float
        if isinstance(o, SymBool):
            return _bool
        if type(o) is _int:
            return sx_int
        if type(o) is _str:
            return sx_str
        return type(o)
    return type(*a)
