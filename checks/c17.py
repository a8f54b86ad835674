"""C17: fields filled in afterwards never damage the generated bmap."""

import hashlib
import os
import re
from xml.parsers import expat

from symx import lib, real, values
from symx.values import And, Or, Not, SymReal
from . import c23
from .createlib import SymCreate, RealCreate, judge_text, IMG, OUT

BOUNDS = {
    "quick": "every image size 1 B..2^62 bytes and every mapped fraction (no data, one area from the start; anywhere for sizes up to 1 MiB, everything), "
    "the number of digits of every field and the length of every size name followed exactly; block sizes 512 B..512 KiB; all "
    "digest lengths; two areas for sizes up to 32 blocks",
    "thorough": "as quick, with an area anywhere for every size and all powers of two 512..512 KiB as block size",
}
OUTSIDE = "images above 2^62 bytes; bmap files written through objects other than a text file"
ASSUMPTIONS = [
    "the '%.1f' conversion rounds to nearest (widths computed from the exact value; both outcomes explored within 2^-44 of a rounding edge)"
]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 1)
        k.update(name=name, exact=True, via="api-obj", checksums=k.get("checksums", False))
        out.append(k)

    def decades(name, lo, hi, **k):
        # split by magnitude: independent, and run in parallel
        while lo < hi:
            nx = min(hi, lo * 1024)
            add("%s-%d" % (name, lo), min_size=lo, max_size=nx, **k)
            lo = nx

    top = 1 << 62
    for bs in (512, 4096, 65536, 1 << 19):
        decades("full%d" % bs, 1, top, bs=bs, from0=True, tail=True)
        decades("empty%d" % bs, 1, top, bs=bs, n=0)
    for bs in (4096, 1 << 19):
        decades("from0-%d" % bs, 1, top, bs=bs, from0=True)
    decades("any4096", 1, 1 << 20, bs=4096)
    add("two4096", max_size=1 << 17, n=2)
    add("two512-seek", max_size=1 << 13, bs=512, n=2, method="seek")
    for t in ("md5", "sha1", "sha512", "blake2b", "sha224"):
        add("type-" + t, cs_type=t, max_size=1 << 22, checksums=True, from0=True)
    if tier == "thorough":
        decades("any4096-all", 1 << 20, top, bs=4096)
        add("t-two4096", max_size=1 << 20, n=2)
        for k in range(9, 20):
            decades("t-full%d" % k, 1, top, bs=1 << k, from0=True, tail=True)
            decades("t-from0-%d" % k, 1, top, bs=1 << k, from0=True)
    return out


def events(text, mark):
    """What an XML reader sees, with the text of the fields blanked out."""
    out = []
    p = expat.ParserCreate()
    path = []
    FILL = ("MappedBlocksCount", "BmapFileChecksum")

    def start(n, a):
        path.append(n)
        out.append(("<", n, sorted(a.items())))

    def end(n):
        path.pop()
        out.append((">", n))

    def chars(t):
        if path and path[-1] in FILL:
            return
        if out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + t)
        else:
            out.append(("t", t))

    def comment(t):
        out.append(("c", mark if "mapped blocks:" in t else t))

    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler, p.CommentHandler = chars, comment
    p.Parse(text.encode(), True)
    return out


def scenario(s):
    good = s.run()
    s.check(good, "generation failed: %s: %s" % (s.kind, s.err))
    if not good:
        return
    text = s.text()
    # the document as it was before anything was filled in
    doc, filled = "", False
    for pos, t in s.log:
        if pos < len(doc):
            filled = True
            break
        doc += t
    s.check(len(text) >= len(doc), "the bmap was cut when the fields were filled in")
    try:
        before = events(doc, "mapped")
    except expat.ExpatError:
        before = None  # (assembled some other way)
    try:
        after = events(text, "mapped")
    except expat.ExpatError as e:
        s.check(False, "filling in the fields made the bmap unreadable: %s" % e)
        return
    if before is not None and filled:
        s.check(before == after, "filling in the fields changed something else in the bmap")
    if s.cfg["checksums"]:
        judge_text(s, text)
    else:
        fields(s, text)
    comment(s, text)
    s.reader()


def fields(s, text):
    """The fields have their final values (C16 judges the rest)."""
    algo = hashlib.new(s.cfg.get("cs_type", "sha256")).name
    get = lambda n: (re.search(r"<%s>(.*?)<" % n, text) or [None, ""])[1].strip()
    own, n = get("BmapFileChecksum"), len(hashlib.new(algo).hexdigest())
    ok = len(own) == n and hashlib.new(algo, text.replace(own, "0" * n, 1).encode()).hexdigest() == own
    s.check(ok, "the checksum of the bmap itself is wrong")
    try:
        mapped = s.num(get("MappedBlocksCount"))
    except ValueError:
        s.check(False, "the number of mapped blocks is unreadable: %r" % get("MappedBlocksCount"))
        return
    want = sum((l - f + 1 for f, l in s.areas), 0)
    s.check(mapped == want, "wrong count of mapped blocks")


def comment(s, text):
    """The commentary about the mapped data is legible and true."""
    m = re.search(r"<!--[^>]*mapped blocks:(.*?)-->", text, re.S)
    if m is None:
        return  # (no such commentary)
    m = re.fullmatch(r"\s*(\S+) (\w+) or (\S+?)%\s*", m.group(1))
    s.check(m is not None, "the commentary on mapped data is garbled")
    if m is None:
        return
    mapped = s.num(re.search(r"<MappedBlocksCount>(.*?)<", text).group(1).strip())
    val, dec = c23.number(m.group(1))
    if m.group(2) in c23.UNITS:
        u = c23.UNITS.index(m.group(2))
        if u:
            s.check(c23.close(val, dec, s.real(mapped * s.bs) / 1024**u), "the commented size of the mapped data is wrong")
    val, dec = c23.number(m.group(3))
    s.check(c23.close(val, dec, s.real(mapped * 100) / s.real(s.blocks)), "the commented percentage is wrong")


class S(SymCreate):
    real = staticmethod(SymReal.of)

    def reader(self):
        w, c = self.w, self.c
        w.summarise_human_size()
        m = w.mod("BmapCopy")

        def go():
            self.f_out.close()
            self.wr = m.BmapCopy(w.open(IMG, "rb"), w.open("/work/dst", "wb+"), w.open(OUT, "rb"), None)

        k, e = lib.outcome_of(go)
        c.check(k == "ok", "its own reader refuses the bmap: %s: %s" % (k, e))
        if k == "ok":
            c.check(And(self.wr.image_size == self.N, self.wr.block_size == self.bs), "its own reader reads something else")


class R(RealCreate):
    @staticmethod
    def real(x):
        from fractions import Fraction

        return Fraction(x)

    def reader(self):
        m = real.mod("BmapCopy")

        def go():
            self.f_out.close()
            self.wr = m.BmapCopy(open(self.path, "rb"), open(os.path.join(self.d, "dst"), "wb+"), open(self.out, "rb"), None)

        k, e = real.outcome_of(go)
        self.check(k == "ok", "its own reader refuses the bmap: %s: %s" % (k, e))
        if k == "ok":
            self.check(self.wr.image_size == self.N and self.wr.block_size == self.bs, "its own reader reads something else")


def harness(c, cfg):
    scenario(S(c, cfg))


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    scenario(s)
    if s.tmp:
        s.tmp.cleanup()
    return {"outcome": s.kind, "violations": s.v}
