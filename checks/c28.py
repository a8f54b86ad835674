"""C28: what is reported about an image or a copy is true."""

import re
import time as real_time
from fractions import Fraction

from symx import lib, real, values, world as W
from symx.values import And, Or, Not, Implies, SymInt, SymReal
from . import clilib
from .copylib import Scene, RealScene
from .createlib import SymCreate, RealCreate

BOUNDS = {
    "quick": "image sizes up to 4 TiB with up to 3 ranges of up to 2 batches (1 MiB), block sizes 512/4096/12345/1 MiB, every published "
    "bmap version; copies without bmap of up to 2.5 MiB with the size given, not given, or contradicting the image; generation by FIEMAP and hole seeking with up to 2 areas of "
    "any size; the clock of the machine: any time (0 to 10^6 s) between two looks at it, set forward or back by up to "
    "10^6 s in between",
    "thorough": "as quick with 4 ranges of up to 4 batches",
}
OUTSIDE = "how sizes and durations are written (C23; a size shown is judged up to a quarter, which any rounding shows); the wording of messages: a message not recognised is not judged"
ASSUMPTIONS = ["the monotonic clock is right"]
BS = 4096
FULL = 5 << 19
EPS = Fraction(1, 10**6)


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", BS)
        out.append(dict(k, name=name))

    for v in ("1.2", "1.3", "1.4", "2.0"):
        add("copy-v" + v, kind="copy", version=v, ranges=2, kb=1)
    for bs in (512, 12345, 1 << 20):
        add("copy-bs%d" % bs, kind="copy", bs=bs, ranges=1, kb=2)
    add("copy-r3", kind="copy", ranges=3, kb=1)
    add("copy-size", kind="copy", ranges=2, kb=1, give_size=True)
    add("copy-empty", kind="copy", ranges=0)
    add("copy-bdev", kind="copy", ranges=1, kb=1, dest="bdev", dest_old=False)
    for d in ("reg", "bdev"):
        for n in ("known", "unknown"):
            add("nobmap-%s-%s" % (n, d), kind="copy", nobmap=n, max_size=FULL, min_size=1, dest=d, dest_old=False)
    add("nobmap-empty", kind="copy", nobmap="unknown", max_size=0, min_size=0)
    for m in ("fiemap", "seek"):
        for n in (0, 1, 2):
            add("create-%s%d" % (m, n), kind="create", method=m, n=n, checksums=False)
    add("create-bytes", kind="create", method="seek", gran="bytes", n=2, checksums=False)
    add("create-full", kind="create", n=1, checksums=False, from0=True, tail=True)
    for d in ("reg", "bdev"):
        add("cli-" + d, kind="cli", dest=d)
        add("cli-nobmap-" + d, kind="cli", dest=d, nobmap=True)
    add("cli-create", kind="cli_create", n=1)
    add("cli-create-2", kind="cli_create", n=2)
    if tier == "thorough":
        for bs in (512, 4096, 65536):
            add("t-copy-%d" % bs, kind="copy", bs=bs, ranges=4, kb=4)
        add("t-create", kind="create", n=4, method="seek", gran="bytes", checksums=False)
    return out


# what a text shows -------------------------------------------------------------

UNITS = ["bytes", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"]


def number(text):
    """(value, number of decimals) of a shown number, or None."""
    v = values.parse_sentinel(text)
    if v is None:
        try:
            return Fraction(text), len(text.partition(".")[2])
        except ValueError:
            return None
    if isinstance(v, values.RealText):
        return v.val, v.prec
    return v, 0


def near(a, b, tol):
    """|a - b| <= tol, of symbolic or plain numbers."""
    sym = any(isinstance(x, (SymInt, SymReal)) for x in (a, b, tol))
    if sym:
        a, b, tol = SymReal.of(a), SymReal.of(b), SymReal.of(tol)
    return And(a - b <= tol, b - a <= tol)


def shows_size(text, n, slack=0):
    """The condition that the text shows n bytes."""
    parts = str(text).split(" ")
    if len(parts) != 2 or parts[1] not in UNITS + ["byte"]:
        return False
    got = number(parts[0])
    if got is None:
        return False
    val, dec = got
    u = 0 if parts[1] == "byte" else UNITS.index(parts[1])
    f = 1024**u
    if isinstance(val, (SymInt, SymReal)):
        # (a difference which would not be seen is none: see tell_sizes)
        val, n = SymReal.of(val), SymReal.of(n)
        return And(val * 4 - n * 4 <= n, n * 4 - val * 4 <= n)
    tol = (Fraction(1, 2 * 10**dec) + EPS) * f if dec else slack if u == 0 else f
    return near(val * f if u else val, n, max(tol, slack))


def percent(p, mapped, blocks, dec=None):
    """The condition that p is the percentage of mapped blocks."""
    tol = EPS if dec is None else Fraction(1, 2 * 10**dec) + EPS
    sym = any(isinstance(x, (SymInt, SymReal)) for x in (p, mapped, blocks))
    if not sym:
        return abs(Fraction(p) * blocks - mapped * 100) <= tol * blocks
    tol = SymReal.of(tol)
    return near(SymReal.of(p) * blocks, SymReal.of(mapped) * 100, SymReal.of(blocks) * tol)


def geometry(check, o, when, N, bs, mapped, size=None):
    """The attributes of a BmapCopy or BmapCreate object."""
    blocks = (N + bs - 1) // bs
    size = mapped * bs if size is None else size

    def same(name, want):
        got = getattr(o, name)
        if got is None:
            check(False, "%s is not set %s" % (name, when))
        else:
            check(got == want, "%s is wrong %s" % (name, when))

    same("block_size", bs)
    same("image_size", N)
    same("blocks_cnt", blocks)
    same("mapped_cnt", mapped)
    same("mapped_size", size)
    check(shows_size(o.image_size_human, N), "image_size_human is wrong %s" % when)
    check(shows_size(o.mapped_size_human, size), "mapped_size_human is wrong %s" % when)
    if o.mapped_percent is None:
        check(False, "mapped_percent is not set %s" % when)
    elif isinstance(blocks, SymInt) or blocks:
        check(percent(o.mapped_percent, mapped, blocks), "mapped_percent is wrong %s" % when)


def tell_sizes(w):
    """Follow sizes into texts without their formatting."""
    w.mod("BmapHelpers").human_size = lambda size: values.sx_mod("%d bytes", size)


# copying through the API ---------------------------------------------------------


def judge_copy(s, check, o, when):
    cfg = s.cfg
    if cfg.get("nobmap"):
        bs = o.block_size
        n = (s.N + bs - 1) // bs
        geometry(check, o, when, s.N, bs, n, s.N)
        return
    geometry(check, o, when, s.N, s.bs, s.count)
    v = cfg.get("version", "2.0")
    check(str(o.bmap_version) == v, "bmap_version is wrong " + when)
    check((o.bmap_version_major, o.bmap_version_minor) == tuple(map(int, v.split("."))), "the parts of bmap_version are wrong " + when)


class SymCopy(Scene):
    def prepare(self, o):
        self.count = self.r.count if self.r is not None else None
        if self.cfg.get("nobmap") != "unknown":
            judge_copy(self, self.c.check, o, "before the copy")


class RealCopy(RealScene):
    def prepare(self, o):
        self.count = sum(l - f + 1 for f, l in self.items)
        self.told = []
        if self.cfg.get("nobmap") != "unknown":
            judge_copy(self, lambda ok, m: ok or self.told.append(m), o, "before the copy")


# the command line ------------------------------------------------------------------


def clock(env):
    """The clocks of the machine; what elapsed is remembered in env.looks."""
    env.looks = []
    env.set = 0
    env.now = 0

    def dt(name, lo, hi):
        if env.symbolic:
            return env.c.real(name, lo, hi)
        v = env.p.get(env.nth(name), 0)
        v = Fraction(*v) if isinstance(v, list) else Fraction(v)
        return float(v)

    env.names = {}

    def nth(name):
        k = env.names.get(name, 0)
        env.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    env.nth = nth

    def look(kind):
        env.now = env.now + dt("elapsed", 0, 10**6)
        if kind == "time":
            env.set = env.set + dt("adjusted", -(10**6), 10**6)
        env.looks.append(env.now)
        return (env.now + env.set + 1600000000.0) if kind == "time" else env.now + 77.0

    if env.symbolic:
        env.w.sym_clock = look
        tell_sizes(env.w)
        env.w.mod("BmapHelpers").human_time = lambda t: values.sx_mod("%.1fs", t)
        return

    class Clock:
        def __getattr__(s, n):
            return getattr(real_time, n)

        def time(s):
            return look("time")

        def monotonic(s):
            return look("monotonic")

        perf_counter = monotonic

    m = real.mod("CLI")
    if hasattr(m, "time"):
        m.time = Clock()


def seconds(text):
    m = re.match(r"^(?:(-?[^ ]+)h ?)?(?:([^ ]+)m ?)?([^ ]+)s$", text)
    if not m:
        return None
    t, dec = 0, 0
    for g, f in zip(m.groups(), (3600, 60, 1)):
        if g:
            got = number(g)
            if got is None:
                return None
            v, dec = got
            t = (SymReal.of(v) * f + t) if isinstance(v, (SymInt, SymReal)) else t + v * f
    return t, dec


def judge_times(env, text, mapped):
    m = re.match(r"^copying time: (.*), copying speed (.*)/sec$", text)
    if not m:
        return
    got = seconds(m.group(1))
    if got is None:
        env.check(False, "unreadable duration %r" % m.group(1))
        return
    t, dec = got
    tol = Fraction(1, 2 * 10**dec) + Fraction(1, 1000)
    spans = [b - a for i, a in enumerate(env.looks) for b in env.looks[i + 1 :]]
    env.check(Or(*[near(t, frac(x), tol) for x in spans]), "the copying time is not the time that passed")
    # (the speed of a copy which took no time at all is anything)
    x = env.looks[-1] - env.looks[0]
    if len(spans) == 1:
        fast = x < 0.1
        if env.symbolic:
            size = SymReal.of(mapped)
            got = number(m.group(2).split(" ")[0])
            if got is None or not m.group(2).endswith(" bytes"):
                return
            v = SymReal.of(got[0])
            env.check(Or(fast, And((v - 1) * x * 4 <= size * 5, size * 3 <= (v + 1) * x * 4)), "the speed is not the mapped size over the time")
        elif not fast:
            speed = Fraction(mapped) / Fraction(x)
            env.check(shows_size(m.group(2), speed, slack=1), "the speed is not the mapped size over the time")


def frac(x):
    return x if isinstance(x, SymReal) else Fraction(x)


def s_cli(env, cfg):
    nobmap = cfg.get("nobmap")
    N = env.int("size", 4 * BS, FULL if nobmap else 1 << 42)
    first = env.int("first", 0, 1 << 31)
    n = env.int("count", 1, 300)
    blocks = (N + BS - 1) // BS
    img = env.image("img.raw", N)
    rows = None
    if nobmap:
        mapped, size = blocks, N
    else:
        env.assume(first + n <= blocks)
        rows = [(first, first + n - 1, True)]
        env.bmap("img.bmap", img, N, BS, rows)
        mapped, size = n, n * BS
    if cfg["dest"] == "bdev":
        env.dest("out", kind="bdev", capacity=env.int("capacity", 1 << 43, 1 << 43))
    clock(env)
    st = env.main(["copy"] + (["--nobmap"] if nobmap else []) + ["@img.raw", "@out"])
    env.check(st == 0, "a copy fails: %s" % env.err)
    if st != 0:
        return
    for m in env.messages("info"):
        judge_times(env, m, size)
        r = re.match(r"^block map format version (.*)$", m)
        if r:
            env.check(r.group(1) == "2.0", "another format version is reported")
        r = re.match(r"^(\S+) blocks of size (\S+) \((.*)\), mapped (\S+) blocks \((.*) or (.*)%\)$", m)
        if r:
            b, s, h, k, mh, p = r.groups()
            env.check(env.num(b) == blocks, "another block count is reported")
            env.check(env.num(s) == BS, "another block size is reported")
            env.check(shows_size(h, N), "another image size is reported")
            env.check(env.num(k) == mapped, "another count of mapped blocks is reported")
            env.check(shows_size(mh, size), "another mapped size is reported")
            v, dec = number(p)
            env.check(percent(v, mapped, blocks, dec), "another percentage is reported")
        r = re.match(r"^copying image '(.*)' to (.*) using bmap file '(.*)'$", m)
        if r:
            env.check(r.group(1) == "img.raw" and r.group(3) == "img.bmap" and "out" in r.group(2), "other files are reported")
            env.check(("block device" in r.group(2)) == (cfg["dest"] == "bdev"), "the kind of destination is reported wrongly")


def s_cli_create(env, cfg):
    N = env.int("size", 1, 1 << 42)
    blocks = (N + BS - 1) // BS
    rows, end, total = [], 0, 0
    for i in range(cfg["n"]):
        f = env.int("first%d" % i, 0, 1 << 31)
        n = env.int("count%d" % i, 1, 1 << 31)
        env.assume(f >= end + 1 if i else f >= 0)
        end = f + n
        total = total + n
        rows.append((f, f + n - 1))
    env.assume(end <= blocks)
    img = env.image("img.raw", N)
    env.mapping(img, N, BS, rows)
    if env.symbolic:
        tell_sizes(env.w)
    st = env.main(["create", "--no-checksum", "@img.raw", "-o", "@img.bmap"])
    env.check(st == 0, "a bmap cannot be generated: %s" % env.err)
    if st != 0:
        return
    said = [m for m in env.messages("warning") if re.match(r"^all .* are mapped", m)]
    env.check((total == blocks) if said else (total != blocks), "the warning about an image without holes is wrong")
    for m in said:
        env.check(shows_size(m[4:].partition(" are mapped")[0], N), "the warning names another size")


cli = {"cli": s_cli, "cli_create": s_cli_create}
_harness = clilib.harness_of(lambda env, cfg: cli[cfg["kind"]](env, cfg))
_concrete = clilib.concrete_of(lambda env, cfg: cli[cfg["kind"]](env, cfg))


def harness(c, cfg):
    c.general()
    if cfg["kind"] in cli:
        _harness(c, cfg)
        return
    if cfg["kind"] == "copy":
        s = SymCopy(c, cfg)
        tell_sizes(s.w)
        k = s.run()
        c.check(k == "ok", "a valid image is not copied: %s" % k)
        if k == "ok":
            judge_copy(s, c.check, s.writer, "after the copy")
        return
    s = SymCreate(c, cfg)
    tell_sizes(s.w)
    good = s.run()
    c.check(good, "generation failed: %s" % s.kind)
    if good:
        judge_create(s)


def judge_create(s):
    total = 0
    prev = None
    for f, l in s.areas:
        total = total + (l - f + 1)
        if prev is not None and s.cfg.get("gran") == "bytes":
            # (two areas may share a block)
            total = total - (values.If(f == prev, 1, 0) if s.symbolic else int(f == prev))
        prev = l
    geometry(s.check, s.creator, "after generation", s.N, s.bs, total)


def concrete(cfg, p, d):
    if cfg["kind"] in cli:
        m = real.mod("CLI")
        try:
            return _concrete(cfg, p, d)
        finally:
            if hasattr(m, "time"):
                m.time = real_time
    if cfg["kind"] == "copy":
        s = RealCopy(cfg, p, d)
        k = s.run()
        v = list(getattr(s, "told", ()))
        if k != "ok":
            v.append("a valid image is not copied: %s: %s" % (k, s.err))
        else:
            judge_copy(s, lambda ok, m: ok or v.append(m), s.writer, "after the copy")
        return {"outcome": k, "violations": v}
    s = RealCreate(cfg, p, d)
    good = s.run()
    s.check(good, "generation failed: %s: %s" % (s.kind, s.err))
    if good:
        judge_create(s)
    return {"outcome": s.kind, "violations": s.v}
