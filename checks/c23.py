"""C23: sizes and times shown to people are correct."""

import re
from fractions import Fraction

from symx import lib, real, values, world as W
from symx.values import And, Or, Not, SymReal

BOUNDS = {
    "quick": "every size 0..2^70 bytes; every duration 0..10^7 s, whole or any real fraction",
    "thorough": "the same",
}
OUTSIDE = "negative durations; rounding of IEEE doubles (values are treated as exact; the display tolerance is a tenth)"
ASSUMPTIONS = ["the '%.1f' conversion of the interpreter rounds to the nearest shown value"]
UNITS = ["bytes", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"]


def configs(tier):
    return [
        dict(name="size", kind="size"),
        dict(name="time-int", kind="time", whole=True),
        dict(name="time-real", kind="time"),
    ]


def number(text):
    """(value, number of decimals) of a shown number."""
    v = values.parse_sentinel(text)
    if v is None:
        dec = len(text.partition(".")[2])
        return Fraction(text), dec
    if isinstance(v, values.RealText):
        return v.val, v.prec
    return v, 0


def close(shown, dec, want):
    """The shown value (exact before display rounding) is 'want'."""
    if isinstance(shown, Fraction):
        shown = float(shown)
    return close_sum(SymReal.of(shown), SymReal.of(want), dec)


def harness(c, cfg):
    w = W.World(c)
    m = w.mod("BmapHelpers")
    c.general()
    if cfg["kind"] == "size":
        n = c.int("size", 0, 1 << 70)
        k, e = lib.outcome_of(lambda: c.extra.__setitem__("r", str(m.human_size(n))))
        c.extra["outcome"] = k
        c.check(k == "ok", "human_size fails: %s" % e)
        if k != "ok":
            return
        r = c.extra["r"]
        c.reached(r.split()[-1])
        parts = r.split(" ")
        if len(parts) != 2 or parts[1] not in UNITS + ["byte"]:
            c.fail("unreadable size %r" % r)
            return
        val, dec = number(parts[0])
        u = 0 if parts[1] == "byte" else UNITS.index(parts[1])
        size = 1024**u
        if u == 0:
            c.check(SymReal.of(val) == SymReal.of(n), "a size in bytes is not exact")
            c.check((n == 1) if parts[1] == "byte" else (n != 1), "singular and plural mixed up")
            c.check(n < 1024, "a size of a kibibyte or more is shown in bytes")
        else:
            c.check(close(val, dec, SymReal.of(n) / size), "the figure is not the size in %s" % parts[1])
            c.check(dec >= 1, "less than a tenth of a unit is resolved")
            c.check(n >= (512 if u == 1 else size), "the unit exceeds the size")
            if u < 6:
                c.check(n < size * 1024, "a bigger unit fits")
    else:
        if cfg.get("whole"):
            t = c.int("seconds", 0, 10**7)
        else:
            t = c.real("seconds", 0, 10**7)
        k, e = lib.outcome_of(lambda: c.extra.__setitem__("r", str(m.human_time(t))))
        c.extra["outcome"] = k
        c.check(k == "ok", "human_time fails: %s" % e)
        if k != "ok":
            return
        p = parse_time(c.extra["r"])
        if p is None:
            c.fail("unreadable duration %r" % c.extra["r"])
            return
        h, mi, s, dec = p
        c.check(
            close_sum(SymReal.of(h) * 3600 + SymReal.of(mi) * 60 + SymReal.of(s), SymReal.of(t), dec),
            "hours, minutes and seconds do not add up to the duration",
        )
        c.check(And(SymReal.of(mi) >= 0, SymReal.of(mi) < 60), "more than 59 minutes")
        c.check(And(SymReal.of(s) >= 0, SymReal.of(s) < 60), "60 seconds or more")


def close_sum(got, want, dec):
    tol = Fraction(1, 2 * 10**dec) + Fraction(1, 10**6)
    return And(got - want <= float(tol), want - got <= float(tol))


def parse_time(r):
    m = re.match(r"^(?:([^ ]+)h ?)?(?:([^ ]+)m ?)?([^ ]+)s$", r)
    if not m:
        return None
    h = number(m.group(1))[0] if m.group(1) else Fraction(0)
    mi = number(m.group(2))[0] if m.group(2) else Fraction(0)
    s, dec = number(m.group(3))
    conv = lambda x: int(x) if isinstance(x, Fraction) and x.denominator == 1 else x
    return conv(h), conv(mi), (float(s) if isinstance(s, Fraction) and s.denominator != 1 else conv(s)), dec


def concrete(cfg, p, d):
    m = real.mod("BmapHelpers")
    v = []
    if cfg["kind"] == "size":
        n = p["size"]
        k, e = real.outcome_of(lambda: m.human_size(n), 10)
        if k != "ok":
            return {"outcome": k, "violations": ["human_size fails: %s" % e]}
        r = m.human_size(n)
        parts = r.split(" ")
        if len(parts) != 2 or parts[1] not in UNITS + ["byte"]:
            return {"outcome": k, "violations": ["unreadable size %r" % r]}
        u = 0 if parts[1] == "byte" else UNITS.index(parts[1])
        shown, dec = Fraction(parts[0]), len(parts[0].partition(".")[2])
        size = 1024**u
        if u == 0:
            if shown != n:
                v.append("%d shown as %s" % (n, r))
            if (n == 1) != (parts[1] == "byte"):
                v.append("singular and plural mixed up: %s" % r)
            if n >= 1024:
                v.append("%d shown as %s" % (n, r))
        else:
            if abs(shown - Fraction(n, size)) > Fraction(1, 2 * 10**dec) + Fraction(1, 10**6):
                v.append("%d shown as %s" % (n, r))
            if dec < 1:
                v.append("%d shown as %s: less than a tenth is resolved" % (n, r))
            if n < (512 if u == 1 else size) or (u < 6 and n >= size * 1024):
                v.append("%d shown as %s: not the fitting unit" % (n, r))
    else:
        t = p["seconds"]
        if isinstance(t, list):
            t = t[0] / t[1]
        k, e = real.outcome_of(lambda: m.human_time(t), 10)
        if k != "ok":
            return {"outcome": k, "violations": ["human_time fails: %s" % e]}
        r = m.human_time(t)
        mt = re.match(r"^(?:([0-9.]+)h ?)?(?:([0-9.]+)m ?)?([0-9.]+)s$", r)
        if not mt:
            return {"outcome": k, "violations": ["unreadable duration %r" % r]}
        h, mi, s = (float(x) if x else 0.0 for x in mt.groups())
        dec = len(mt.group(3).partition(".")[2])
        if abs(h * 3600 + mi * 60 + s - t) > 0.5 / 10**dec + 1e-6:
            v.append("%r s shown as %s" % (t, r))
        if mi >= 60 or s > 60.0:
            v.append("%r s shown as %s" % (t, r))
    return {"outcome": k, "violations": v}
