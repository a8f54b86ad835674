"""Symbolic strings with structure.

A Rope is a sequence of parts: literal text, single symbolic characters (an
integer term) and atoms (a symbolic string of any length of which it is known
which characters it cannot contain, and perhaps that it is not empty).
Searching for a delimiter walks over the parts; an atom which may contain it is
forked on (solver's choice) and split.  Only what cannot be settled this way goes
to the solver's theory of strings.

A Tail is a literal followed by up to K symbolic characters, right-aligned, so
that asking for a suffix is a plain condition on integers.
"""

import re as _re
import string as _string

import z3

from . import core, values
from .values import SymStr, SymInt, mk_bool, mk_int, ctx, And, Or, Not

MARK = _re.compile("\ue100(\\d+)\ue101")


class Atom:
    __slots__ = ("name", "term", "excl", "nonempty", "only", "splits")

    def __init__(self, name, term, excl=frozenset(), nonempty=False, only=None, splits=None):
        self.name, self.term, self.nonempty = name, term, nonempty
        self.excl, self.only = frozenset(excl), only
        self.splits = splits or {}  # character -> how often it was found in this text

    def may(self, ch):
        return ch not in self.excl and (self.only is None or ch in self.only)

    def __repr__(self):
        return "{%s}" % self.name


# a symbolic text contains a character which the code looks for at most this often
MAX_SPLITS = 2


class Ch:
    """One symbolic character."""

    __slots__ = ("term", "excl")

    def __init__(self, term, excl=frozenset()):
        self.term, self.excl = term, frozenset(excl)

    def may(self, ch):
        return ch not in self.excl

    def __repr__(self):
        return "{?}"


def regex(chars):
    chars = sorted(set(map(ord, chars)))
    out = []
    for o in chars:
        if out and out[-1][1] == o - 1:
            out[-1][1] = o
        else:
            out.append([o, o])
    r = [z3.Range(chr(a), chr(b)) if a != b else z3.Re(chr(a)) for a, b in out]
    return z3.Union(*r) if len(r) > 1 else r[0]


PRINTABLE = "".join(chr(i) for i in range(32, 127))


def atom(c, name, excl="", only=None, nonempty=False):
    """A fresh symbolic string of printable characters."""
    only = only if only is not None else PRINTABLE
    only = "".join(ch for ch in only if ch not in excl)
    name = c.fresh(name)
    c.general()
    v = z3.String(name)
    c.inputs[name] = v
    r = regex(only)
    c._add(z3.InRe(v, z3.Plus(r) if nonempty else z3.Star(r)))
    return Rope([Atom(name, v, set(excl), nonempty, frozenset(only))])


def rope(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Rope(out)


def decode(text):
    """Text with the marks of symbolic strings -> Rope (or str)."""
    text = values.force(text)
    if isinstance(text, SymStr):
        return text
    if not isinstance(text, str) or "\ue100" not in text:
        return text
    reg = ctx().extra.get("ropes", {})
    out = []
    pos = 0
    for m in MARK.finditer(text):
        out.append(text[pos : m.start()])
        r = reg[int(m.group(1))]
        out += r.parts
        pos = m.end()
    out.append(text[pos:])
    if any("\ue100" in p for p in out if isinstance(p, str)):
        ctx().cut("a symbolic string was cut up as text")
    return rope(out)


def parts_of(x):
    x = decode(x)
    if isinstance(x, str):
        return [x] if x else []
    if isinstance(x, Tail):
        x = x.fixed()
        return [x] if isinstance(x, str) else list(x.parts)
    if isinstance(x, Rope):
        return list(x.parts)
    if isinstance(x, SymStr):
        return [Atom("?", x.t)]
    return None


def size_of(p):
    if isinstance(p, str):
        return z3.IntVal(len(p))
    if isinstance(p, Ch):
        return z3.IntVal(1)
    return z3.Length(p.term)


def units(parts):
    """Literals cut into characters."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def same_char(a, b):
    """The condition that two single characters are the same."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, str):
        a, b = b, a
    if isinstance(a, str):
        if not b.may(a):
            return False
        return mk_bool(b.term == ord(a))
    return True if a is b else mk_bool(a.term == b.term)


class Rope(SymStr):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def t(self):
        ctx().general()
        ts = []
        for p in self.parts:
            if isinstance(p, str):
                ts.append(z3.StringVal(p))
            elif isinstance(p, Ch):
                ts.append(z3.StrFromCode(p.term))
            else:
                ts.append(p.term)
        return z3.Concat(*ts) if len(ts) > 1 else ts[0]

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __str__(self):
        reg = ctx().extra.setdefault("ropes", {})
        i = id(self)
        for k, v in reg.items():
            if v is self:
                i = k
                break
        else:
            i = len(reg)
            reg[i] = self
        return "\ue100%d\ue101" % i

    def __format__(self, spec):
        if spec:
            ctx().cut("padding of a symbolic string")
        return str(self)

    def __hash__(self):
        ctx().cut("hash of a symbolic string")

    # -- building
    def __add__(self, o):
        p = parts_of(o)
        return NotImplemented if p is None else rope(self.parts + p)

    def __radd__(self, o):
        p = parts_of(o)
        return NotImplemented if p is None else rope(p + self.parts)

    def __mod__(self, args):
        ctx().cut("a symbolic format string")

    def __mul__(self, n):
        return rope(self.parts * n)

    # -- comparing
    def __eq__(self, o):
        if o is self:
            return True
        q = parts_of(o) if isinstance(o, (str, SymStr, values.LazyStr)) else None
        if q is None:
            return False
        a, b = units(self.parts), units(q)
        conds = []

        def strip(a, b):
            while a and b:
                x, y = a[0], b[0]
                if isinstance(x, Atom) or isinstance(y, Atom):
                    if isinstance(x, Atom) and isinstance(y, Atom) and x.term.eq(y.term):
                        a, b = a[1:], b[1:]
                        continue
                    break
                k = same_char(x, y)
                if k is False:
                    return None
                if k is not True:
                    conds.append(k)
                a, b = a[1:], b[1:]
            return a, b

        r = strip(a, b)
        if r is None:
            return False
        a, b = r
        r = strip(a[::-1], b[::-1])
        if r is None:
            return False
        a, b = r[0][::-1], r[1][::-1]
        if not a and not b:
            return And(*conds) if conds else True
        if not a or not b:
            rest = a or b
            if any(not isinstance(p, Atom) or p.nonempty for p in rest):
                return False
            conds += [mk_bool(z3.Length(p.term) == 0) for p in rest]
            return And(*conds)
        # a delimiter on one side which nothing on the other can provide
        for u, v in ((a, b), (b, a)):
            for ch in u:
                if isinstance(ch, str) and not any(x == ch if isinstance(x, str) else x.may(ch) for x in v):
                    return False
        # the same delimiter on both sides, once: compare piecewise
        for ch in "@:/[]":
            if a.count(ch) == 1 and b.count(ch) == 1:
                others = [x for x in a + b if not isinstance(x, str)]
                if not any(x.may(ch) for x in others):
                    i, j = a.index(ch), b.index(ch)
                    l = rope(a[:i]) == rope(b[:j])
                    r = rope(a[i + 1 :]) == rope(b[j + 1 :])
                    return And(*(conds + [l, r]))
        ta, tb = (x.t if isinstance(x, SymStr) else z3.StringVal(x) for x in (rope(a), rope(b)))
        ctx().general()
        return And(*(conds + [mk_bool(ta == tb)]))

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __bool__(self):
        if any(not isinstance(p, Atom) or p.nonempty for p in self.parts):
            return True
        return ctx().branch(z3.Or(*[z3.Length(p.term) != 0 for p in self.parts]))

    # -- length and positions
    def symlen(self):
        return mk_int(sum((size_of(p) for p in self.parts), z3.IntVal(0)))

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        return ctx().concretise(n.t, "len of a symbolic string")

    def locate(self, i):
        """(part index, offset in a literal) of a position."""
        pos = z3.IntVal(0)
        t = values.as_z3int(i)
        n = z3.simplify(t)
        if z3.is_int_value(n) and n.as_long() < 0:
            # from the end
            left = -n.as_long()
            for k in range(len(self.parts) - 1, -1, -1):
                p = self.parts[k]
                if isinstance(p, Atom):
                    break
                ln = 1 if isinstance(p, Ch) else len(p)
                if left <= ln:
                    return (k, ln - left) if isinstance(p, str) else (k + (left == 0), 0)
                left -= ln
            else:
                return 0, 0
            if left == 0:
                return k + 1, 0
            ctx().cut("a position inside a symbolic string")
        for k, p in enumerate(self.parts + [None]):
            d = z3.simplify(t - pos)
            if z3.is_int_value(d):
                d = d.as_long()
                if d == 0:
                    return k, 0
                if p is None and d > 0:
                    return k, 0
                if d > 0 and isinstance(p, str) and d < len(p):
                    return k, d
            if p is not None:
                pos = pos + size_of(p)
        ctx().cut("a position inside a symbolic string")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                ctx().cut("step in a slice of a symbolic string")
            a = (0, 0) if k.start is None else self.locate(k.start)
            b = (len(self.parts), 0) if k.stop is None else self.locate(k.stop)
            if b < a:
                return ""
            if a[0] == b[0]:
                return self.parts[a[0]][a[1] : b[1]] if a != b else ""
            out = []
            out.append(self.parts[a[0]][a[1] :] if a[1] else self.parts[a[0]])
            out += self.parts[a[0] + 1 : b[0]]
            if b[1]:
                out.append(self.parts[b[0]][: b[1]])
            return rope(out)
        a, off = self.locate(k)
        if a >= len(self.parts):
            raise IndexError("string index out of range")
        p = self.parts[a]
        if isinstance(p, str):
            return p[off]
        if isinstance(p, Ch):
            return Rope([p])
        ctx().cut("a character inside a symbolic string")

    def __iter__(self):
        for p in units(self.parts):
            if isinstance(p, Atom):
                ctx().cut("iterating over a symbolic string")
            yield p if isinstance(p, str) else Rope([p])

    # -- searching
    def split_atom(self, k, ch, last=False):
        """Part k is an atom or a character which may be (contain) ch: whether it
        does; it is split then, and the index of ch in the parts returned."""
        p = self.parts[k]
        c = ctx()
        if isinstance(p, Ch):
            if c.branch(p.term == ord(ch)):
                self.parts[k : k + 1] = [ch]
                self._merge()
                return True
            p = Ch(p.term, p.excl | {ch})
            self.parts[k] = p
            return False
        c.general()
        if p.splits.get(ch, 0) >= MAX_SPLITS:
            # bound: no more of these in one text
            c.assume(mk_bool(z3.Not(z3.Contains(p.term, z3.StringVal(ch)))))
            self.parts[k] = Atom(p.name, p.term, p.excl | {ch}, p.nonempty, p.only, p.splits)
            return False
        if not c.branch(z3.Contains(p.term, z3.StringVal(ch))):
            self.parts[k] = Atom(p.name, p.term, p.excl | {ch}, p.nonempty, p.only, p.splits)
            return False
        a = z3.String(c.fresh(p.name + "_head"))
        b = z3.String(c.fresh(p.name + "_tail"))
        c._add(p.term == z3.Concat(a, z3.StringVal(ch), b))
        clean = b if last else a
        c._add(z3.Not(z3.Contains(clean, z3.StringVal(ch))))
        r = z3.Star(regex(p.only if p.only is not None else PRINTABLE))
        c._add(z3.InRe(a, r))
        c._add(z3.InRe(b, r))
        n = dict(p.splits)
        n[ch] = n.get(ch, 0) + 1
        pa = Atom(p.name + "<", a, p.excl | ({ch} if not last else set()), False, p.only, n)
        pb = Atom(p.name + ">", b, p.excl | ({ch} if last else set()), False, p.only, n)
        self.parts[k : k + 1] = [pa, ch, pb]
        return True

    def _merge(self):
        r = rope(self.parts)
        self.parts = r.parts if isinstance(r, Rope) else [r]

    def seek(self, sub, last=False, start=0):
        """(part index, offset) of the first (last) occurrence, or None."""
        if not isinstance(sub, str):
            sub = decode(sub)
            if not isinstance(sub, str):
                ctx().cut("searching for a symbolic string")
        if sub == "":
            ctx().cut("searching for nothing")
        self.parts = list(self.parts)
        if len(sub) > 1:
            return self.seek_long(sub, last)
        k = len(self.parts) - 1 if last else 0
        while 0 <= k < len(self.parts):
            p = self.parts[k]
            if isinstance(p, str):
                i = p.rfind(sub) if last else p.find(sub)
                if i >= 0:
                    return k, i
            elif p.may(sub):
                n = len(self.parts)
                if self.split_atom(k, sub, last):
                    # look again at the place
                    for j in range(len(self.parts)) if not last else range(len(self.parts) - 1, -1, -1):
                        q = self.parts[j]
                        if isinstance(q, str) and sub in q:
                            return j, (q.rfind(sub) if last else q.find(sub))
            k += -1 if last else 1
        return None

    def seek_long(self, sub, last):
        us = units(self.parts)
        if any(isinstance(u, Atom) for u in us):
            # only within literals, if nothing else can take part in it
            for u in us:
                if not isinstance(u, str) and any(u.may(ch) for ch in sub):
                    if isinstance(u, Atom) and not (any(not u.may(ch) for ch in sub)):
                        ctx().cut("searching a symbolic string for %r" % sub)
            hits = []
            for k, p in enumerate(self.parts):
                if isinstance(p, str):
                    i = p.rfind(sub) if last else p.find(sub)
                    if i >= 0:
                        hits.append((k, i))
            # occurrences across a border: some character next to a literal
            for k, p in enumerate(self.parts):
                if isinstance(p, str):
                    continue
                before = self.parts[k - 1] if k else ""
                after = self.parts[k + 1] if k + 1 < len(self.parts) else ""
                for n in range(1, len(sub)):
                    if isinstance(before, str) and before.endswith(sub[:n]) and p.may(sub[n]):
                        ctx().cut("searching a symbolic string for %r" % sub)
                    if isinstance(after, str) and after.startswith(sub[n:]) and p.may(sub[n - 1]):
                        ctx().cut("searching a symbolic string for %r" % sub)
            return (hits[-1] if last else hits[0]) if hits else None
        r = range(len(us) - len(sub) + 1)
        for i in reversed(r) if last else r:
            k = And(*[same_char(us[i + j], sub[j]) for j in range(len(sub))])
            if k is True or (k is not False and bool(k)):
                self.parts = us[:i] + list(sub) + us[i + len(sub) :]
                self._merge()
                return self.locate(i)
        return None

    def at(self, where):
        k, off = where
        n = sum((size_of(p) for p in self.parts[:k]), z3.IntVal(0)) + off
        return mk_int(n)

    def find(self, sub, *a):
        if a:
            r = self[a[0] :] if len(a) == 1 else self[a[0] : a[1]]
            i = r.find(sub)
            return i if (isinstance(i, int) and i < 0) else i + a[0]
        w = self.seek(sub)
        return -1 if w is None else self.at(w)

    def rfind(self, sub, *a):
        if a:
            ctx().cut("rfind with bounds")
        w = self.seek(sub, True)
        return -1 if w is None else self.at(w)

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if isinstance(i, int) and i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub):
        i = self.rfind(sub)
        if isinstance(i, int) and i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.seek(sub) is not None

    def count(self, sub):
        return len(self.split(sub)) - 1

    def cut_at(self, w, n):
        k, off = w
        p = self.parts[k]
        left = rope(self.parts[:k] + [p[:off]])
        # (the separator may reach into the next literal: single part by construction)
        right = rope([p[off + n :]] + self.parts[k + 1 :])
        return left, right

    def partition(self, sep):
        w = self.seek(sep)
        if w is None:
            return self, "", ""
        a, b = self.cut_at(w, len(sep))
        return a, sep, b

    def rpartition(self, sep):
        w = self.seek(sep, True)
        if w is None:
            return "", "", self
        a, b = self.cut_at(w, len(sep))
        return a, sep, b

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            ctx().cut("splitting a symbolic string at white space")
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            a, s, b = rest.partition(sep)
            if s == "":
                break
            out.append(a)
            rest = b
            ctx().tick()
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep, maxsplit)
        out, rest = [], self
        while len(out) < maxsplit:
            a, s, b = rest.rpartition(sep)
            if s == "":
                break
            out.insert(0, b)
            rest = a
        return [rest] + out

    def replace(self, a, b, n=-1):
        if n < 0 and isinstance(a, str) and len(a) == 1 and any(isinstance(p, Atom) and p.may(a) for p in self.parts):
            out = []
            c = ctx()
            c.general()
            for p in self.parts:
                if isinstance(p, str):
                    out += parts_of(p.replace(a, b))
                elif isinstance(p, Atom):
                    if p.may(a) and c.branch(z3.Contains(p.term, z3.StringVal(a))):
                        r = Replaced("replaced", z3.String(c.fresh("replaced")), "", True)
                        r.of, r.a, r.b = p, a, b
                        out.append(r)
                    else:
                        out.append(Atom(p.name, p.term, p.excl | {a}, p.nonempty, p.only, p.splits))
                else:
                    out += parts_of(b) if p.may(a) and c.branch(p.term == ord(a)) else [p]
            return rope(out)
        out = self.split(a, n)
        r = out[0]
        for x in out[1:]:
            r = r + b + x
        return r

    # -- prefixes and suffixes
    def startswith(self, pre, *a):
        if a:
            ctx().cut("startswith with bounds")
        if isinstance(pre, tuple):
            return Or(*[self.startswith(x) for x in pre]) if pre else False
        return self.border(units(parts_of(pre)), units(self.parts), False)

    def endswith(self, suf, *a):
        if a:
            ctx().cut("endswith with bounds")
        if isinstance(suf, tuple):
            return Or(*[self.endswith(x) for x in suf]) if suf else False
        return self.border(units(parts_of(suf))[::-1], units(self.parts)[::-1], True)

    def border(self, want, us, end):
        conds = []
        for j, ch in enumerate(want):
            if j >= len(us):
                return False
            u = us[j]
            if isinstance(u, Atom) or isinstance(ch, Atom):
                if isinstance(u, Atom) and isinstance(ch, Atom) and u.term.eq(ch.term):
                    continue
                if isinstance(ch, str) and isinstance(u, Atom) and u.nonempty and not u.may(ch):
                    return False
                rest_w, rest_u = want[j:], us[j:]
                if end:
                    rest_w, rest_u = rest_w[::-1], rest_u[::-1]
                w, h = rope(rest_w), rope(rest_u)
                w = z3.StringVal(w) if isinstance(w, str) else w.t
                h = z3.StringVal(h) if isinstance(h, str) else h.t
                ctx().general()
                conds.append(mk_bool(z3.SuffixOf(w, h) if end else z3.PrefixOf(w, h)))
                return And(*conds)
            k = same_char(u, ch)
            if k is False:
                return False
            if k is not True:
                conds.append(k)
        return And(*conds) if conds else True

    def removesuffix(self, suf):
        if bool(self.endswith(suf)):
            return self[: -len(suf)] if suf else self
        return self

    def removeprefix(self, pre):
        if bool(self.startswith(pre)):
            return self[len(pre) :]
        return self

    def strip_side(self, chars, end):
        chars = chars or _string.whitespace
        parts = list(self.parts)
        while parts:
            k = -1 if end else 0
            p = parts[k]
            if isinstance(p, str):
                q = p.rstrip(chars) if end else p.lstrip(chars)
                if q:
                    parts[k] = q
                    break
                del parts[k]
                continue
            if not any(p.may(ch) for ch in chars):
                if isinstance(p, Ch) or p.nonempty or bool(Rope([p])):
                    break
                del parts[k]
                continue
            if isinstance(p, Ch):
                hit = [ch for ch in chars if p.may(ch)]
                if ctx().branch(z3.Or(*[p.term == ord(ch) for ch in hit])):
                    del parts[k]
                    continue
                break
            ctx().cut("stripping a symbolic string")
        return rope(parts)

    def lstrip(self, chars=None):
        return self.strip_side(chars, False)

    def rstrip(self, chars=None):
        return self.strip_side(chars, True)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if isinstance(r, Rope) else r.rstrip(chars)

    # -- kinds of characters
    def all_in(self, chars):
        """The condition that the string is not empty and of such characters only."""
        conds = []
        chars = set(chars)
        for p in self.parts:
            if isinstance(p, str):
                if set(p) - chars:
                    return False
            elif isinstance(p, Ch):
                conds.append(Or(*[mk_bool(p.term == ord(ch)) for ch in sorted(chars)]))
            elif p.only is not None and p.only <= chars:
                pass
            elif p.only is not None and not (p.only & chars):
                conds.append(mk_bool(z3.Length(p.term) == 0))
            else:
                ctx().general()
                conds.append(mk_bool(z3.InRe(p.term, z3.Star(regex(chars)))))
        if all(isinstance(p, Atom) and not p.nonempty for p in self.parts):
            conds.append(self.symlen() > 0)
        return And(*conds) if conds else True

    def isdigit(self):
        return self.all_in("0123456789")

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self.all_in(_string.ascii_letters)

    def isalnum(self):
        return self.all_in(_string.ascii_letters + _string.digits)

    def isascii(self):
        return True

    def lower(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.lower())
            elif isinstance(p, Ch):
                t = p.term
                out.append(Ch(z3.If(z3.And(t >= 65, t <= 90), t + 32, t), p.excl & set(PRINTABLE) - set(_string.ascii_letters)))
            elif p.only is not None and not (p.only & set(_string.ascii_uppercase)):
                out.append(p)
            else:
                ctx().cut("lower() of a symbolic string")
        return rope(out)

    casefold = lower

    def encode(self, *a):
        ctx().cut("encode of a symbolic string")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ctx().cut("str.%s of a symbolic string" % name)


class Replaced(Atom):
    """An atom with every 'a' replaced by 'b'."""

    __slots__ = ("of", "a", "b")


class Tail(Rope):
    """A literal and up to len(codes) further characters, right-aligned."""

    __slots__ = ("head", "codes", "n")

    def __init__(self, head, codes, n):
        self.head, self.codes, self.n = head, codes, n

    @property
    def parts(self):
        f = self.fixed()
        return [f] if isinstance(f, str) else list(f.parts)

    @parts.setter
    def parts(self, v):
        pass

    def fixed(self):
        k = len(self.codes)
        for n in range(k, -1, -1):
            if n == 0 or bool(self.n == n):
                return rope([self.head] + [Ch(x) for x in self.codes[k - n :]])

    def __repr__(self):
        return "<tail>"

    def symlen(self):
        return self.n + len(self.head)

    def startswith(self, pre, *a):
        if isinstance(pre, str) and not a and len(pre) <= len(self.head):
            return self.head.startswith(pre)
        return Rope.startswith(self, pre, *a)

    def endswith(self, suf, *a):
        if a:
            ctx().cut("endswith with bounds")
        if isinstance(suf, tuple):
            return Or(*[self.endswith(x) for x in suf]) if suf else False
        if not isinstance(suf, str):
            return Rope.endswith(self, suf)
        k = len(self.codes)
        out = []
        m = min(len(suf), k)
        for n in range(m + 1):
            # n of the suffix' characters are among ours
            last = [mk_bool(self.codes[k - n + j] == ord(suf[len(suf) - n + j])) for j in range(n)]
            rest = suf[: len(suf) - n]
            if n < len(suf) and not self.head.endswith(rest):
                continue
            size = self.n == n if n < len(suf) else self.n >= n
            out.append(And(size, *last))
        return Or(*out) if out else False

    def __eq__(self, o):
        if o is self:
            return True
        o = decode(o)
        if not isinstance(o, str):
            return Rope.__eq__(self, o)
        if not o.startswith(self.head) or len(o) - len(self.head) > len(self.codes):
            return False
        n = len(o) - len(self.head)
        return And(self.n == n, self.endswith(o[len(o) - n :]) if n else True)

    def __bool__(self):
        return bool(self.head) or bool(self.n > 0)


def tail(c, name, head, k, excl="/", start_excl="", minlen=1):
    """A Tail of printable characters; inputs <name>_len and <name>_0.. (the last
    <name>_len of them count)."""
    n = c.int(name + "_len", minlen, k)
    codes = []
    for i in range(k):
        v = values.as_z3int(c.int("%s_%d" % (name, i), 32, 126))
        for ch in excl:
            c._add(v != ord(ch))
        codes.append(v)
    t = Tail(head, codes, n)
    return t


def tail_text(p, name, k):
    """The characters of a Tail in a replay."""
    n = p.get(name + "_len", 1)
    return "".join(chr(p.get("%s_%d" % (name, i), 120)) for i in range(k - n, k))
