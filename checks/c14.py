"""C14: ranges found by seeking holes contain exactly the blocks holding data."""

import os

from symx import lib, world as W
from symx.values import And, Or, Not, Implies, imin, imax
from . import maplib as M
from .c13 import judge

BOUNDS = {
    "quick": "0-3 data areas at arbitrary byte positions and of arbitrary byte lengths (finer or coarser than the blocks), up "
    "to the end of the file or not, image size symbolic up to 4 TiB, any queried interval; block sizes 512/4096/65536",
    "thorough": "as quick with up to 4 data areas and more block sizes",
}
OUTSIDE = "a file changing during a query"
ASSUMPTIONS = [
    "lseek(2): SEEK_DATA/SEEK_HOLE return the next byte of data / hole at or after the offset, the end of the file counts as a "
    "hole, ENXIO at or beyond the end of the file or when no more data follows"
]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 2)
        out.append(dict(k, name=name))

    for n in (0, 1, 2, 3):
        add("ranges%d" % n, n=n, part="ranges")
        add("single%d" % n, n=n, part="single")
        if n < 3:
            add("unmapped%d" % n, n=n, part="unmapped")
    for bs in (512, 65536):
        add("bs%d" % bs, bs=bs, part="ranges")
        add("bs%d-un" % bs, bs=bs, part="unmapped")
    add("eof", part="ranges", eof=True)
    add("eof-un", part="unmapped", eof=True)
    add("aligned3", n=3, part="ranges", gran=4096)
    add("coarse", n=2, part="ranges", gran=65536)
    add("coarse-un", n=2, part="unmapped", gran=65536)
    add("fileobj", part="ranges", obj=True)
    add("between", part="between", n=2)
    add("whole", part="whole", n=3)
    add("empty-file", part="empty", n=0)
    if tier == "thorough":
        add("unmapped3", n=3, part="unmapped")
        for bs in (512, 1024, 4096, 8192):
            add("t-ranges4-%d" % bs, n=4, bs=bs, part="ranges")
            add("t-unmapped3-%d" % bs, n=3, bs=bs, part="unmapped")
        add("t-between", n=3, part="between")
    return out


def run(fm, part, check, b, start, count, covered):
    end = start + count
    if part == "ranges" or part == "whole":
        soft(check, list(fm.get_mapped_ranges(start, count)), "mapped", b, start, end, covered, "mapped ranges")
    elif part == "unmapped":
        soft(check, list(fm.get_unmapped_ranges(start, count)), "unmapped", b, start, end, covered, "unmapped ranges")
    elif part == "single":
        got = bool(fm.block_is_mapped(b))
        check(covered if got else Not(covered), "block_is_mapped() is wrong")
        got = bool(fm.block_is_unmapped(b))
        check(Not(covered) if got else covered, "block_is_unmapped() is wrong")
    elif part == "between":
        rs = []
        for f, l in fm.get_mapped_ranges(start, count):
            rs.append((f, l))
            check(bool(fm.block_is_mapped(f)), "the first block of a range is not mapped by itself")
            check(bool(fm.block_is_mapped(l)), "the last block of a range is not mapped by itself")
        soft(check, rs, "mapped", b, start, end, covered, "mapped ranges")


def soft(check, ranges, kind, b, start, end, covered, name):
    prev = None
    cond = []
    for f, l in ranges:
        cond += [f <= l, f >= start, l < end]
        if prev is not None:
            cond.append(f > prev)
        prev = l
    check(And(*cond) if cond else True, "%s: the ranges are not increasing, disjoint and inside the interval" % name)
    inside = Or(*[And(b >= f, b <= l) for f, l in ranges]) if ranges else False
    if kind == "mapped":
        check(Implies(inside, covered), "%s: a block that is entirely a hole is reported as mapped" % name)
        check(Implies(covered, inside), "%s: a block holding data is not reported" % name)
    else:
        check(Implies(inside, Not(covered)), "%s: a block holding data is reported as unmapped" % name)
        check(Or(inside, covered), "%s: a block without data is not reported as unmapped" % name)


def segments(cfg, get_segs):
    g = cfg.get("gran")
    segs = get_segs()
    return [(s * g, e * g) for s, e in segs] if g else segs


def harness(c, cfg):
    bs = cfg["bs"]
    part = cfg["part"]
    w = W.World(c)
    size = 0 if part == "empty" else c.int("size", 1, 1 << 42)
    blocks = (size + bs - 1) // bs
    node = w.add("/work/img.raw", W.DataNode("/work/img.raw", size))
    node.bsz_ioctl = bs
    w.popen = M.df_proc()
    g = cfg.get("gran")
    if g:
        segs = [(s * g, e * g) for s, e in M.sym_segs(c, cfg["n"], (size + g - 1) // g)]
        # the last one is cut by the end of the file
        segs = segs[:-1] + [(segs[-1][0], imin(segs[-1][1], size))]
        c.assume(segs[-1][0] < size)
    else:
        segs = M.sym_segs(c, cfg["n"], size)
    if cfg.get("eof"):
        c.assume(segs[-1][1] == size)
    k = M.Kernel(w, node, segs=segs)
    def go():
        m = w.mod("Filemap")
        image = w.open("/work/img.raw", "rb") if cfg.get("obj") else "/work/img.raw"
        fm = m.FilemapSeek(image)
        if part == "empty":
            c.check(list(fm.get_mapped_ranges(0, 0)) == [], "ranges in an empty file")
            c.check(list(fm.get_unmapped_ranges(0, 0)) == [], "holes in an empty file")
            return
        c.check(fm.blocks_cnt == blocks, "wrong block count")
        c.check(fm.block_size == bs, "wrong block size")
        if part == "whole":
            start, count = 0, blocks
        else:
            start = c.int("start", 0)
            count = c.int("count", 1)
            c.assume(start + count <= blocks)
        b = c.int("b")
        c.assume(b >= start)
        c.assume(b < start + count)
        covered = Or(*[And(s < (b + 1) * bs, e > b * bs) for s, e in segs]) if segs else False
        run(fm, part, c.check, b, start, count, covered)

    kind, e = lib.outcome_of(lambda: go())
    c.check(kind == "ok", "failed: %s: %s" % (kind, e))


def concrete(cfg, p, d):
    from symx import real

    bs = cfg["bs"]
    part = cfg["part"]
    size = p.get("size", 0)
    blocks = (size + bs - 1) // bs
    path = os.path.join(d, "img.raw")
    with open(path, "wb") as f:
        f.truncate(size)
    v = []
    check = lambda cond, msg: None if cond else v.append(msg)
    segs = M.conc_segs(p, cfg["n"])
    g = cfg.get("gran")
    if g:
        segs = [(s * g, min(e * g, size)) for s, e in segs]
    old = M.fake_df(d, "ext4")
    try:
        m = real.mod("Filemap")
        k = M.RealKernel(path, segs=segs)
        k.bsz = bs

        def go():
            with k:
                image = open(path, "rb") if cfg.get("obj") else path
                fm = m.FilemapSeek(image)
                if part == "empty":
                    check(list(fm.get_mapped_ranges(0, 0)) == [], "ranges in an empty file")
                    check(list(fm.get_unmapped_ranges(0, 0)) == [], "holes in an empty file")
                    return
                check(fm.blocks_cnt == blocks, "wrong block count")
                check(fm.block_size == bs, "wrong block size")
                start, count = (0, blocks) if part == "whole" else (p.get("start", 0), p.get("count", 1))
                b = p.get("b", p.get("start", 0))
                covered = any(s < (b + 1) * bs and e > b * bs for s, e in segs)
                run(fm, part, check, b, start, count, covered)

        kind, e = real.outcome_of(go)
    finally:
        os.environ["PATH"] = old
    if kind != "ok":
        v.append("failed: %r" % (e,))
    return {"outcome": kind if kind != "ok" else "done", "violations": v}
