"""C13: ranges reported through FIEMAP are exactly the file's extents, merged."""

import os

from symx import core, lib, world as W
from symx.values import And, Or, Not, Implies, imin, imax
from . import maplib as M

BOUNDS = {
    "quick": "0-3 extents anywhere (also past the end of the image), adjacent or not, sizes and positions symbolic up to 2^40 "
    "blocks; image size symbolic up to 4 TiB; any queried interval; block sizes 512/1024/4096/65536; extents of which the last "
    "ones are delayed allocations; answers whose first extent is cut at the queried offset or not; the boundary of one kernel "
    "answer (4680 extents in the current buffer): 4679 concrete single-block extents plus four symbolic ones, four start blocks",
    "thorough": "as quick with up to 5 extents and more block sizes; the boundary with six symbolic extents",
}
OUTSIDE = "extents that are not whole blocks (refused by an assertion in the code); two range queries on one object iterated alternately; a file changing during a query"
ASSUMPTIONS = [
    "the kernel fills the buffer of one FIEMAP call before it splits, and reports extents in increasing order",
    "delayed allocations are in the answer once FIEMAP_FLAG_SYNC was given or the file was synchronised",
]
FIRST = 4678


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 2)
        out.append(dict(k, name=name))

    for n in (0, 1, 2, 3):
        add("ext%d" % n, n=n, part="ranges")
        add("unmapped%d" % n, n=n, part="unmapped")
        if n:
            add("trim%d" % n, n=n, part="ranges", trim=True)
            add("late%d" % n, n=n, part="ranges", late=True, flags=4)
        add("single%d" % n, n=n, part="single")
    for bs in (512, 1024, 65536):
        add("bs%d" % bs, bs=bs, part="ranges")
        add("bs%d-un" % bs, bs=bs, part="unmapped")
    add("fileobj", part="ranges", obj=True, flags=0x800)
    add("between", part="between", n=3, flags=0x1000)
    add("unmapped-late", part="unmapped", late=True)
    add("single-late", part="single", late=True)
    add("empty-file", part="empty", n=0)
    for st in (0, 1, 2, 3):
        add("full-start%d" % st, part="full", n=4, start=st, part2="ranges")
    add("full-unmapped", part="full", n=4, start=0, part2="unmapped")
    add("full-trim", part="full", n=4, start=1, trim=True, part2="ranges")
    if tier == "thorough":
        for n in (4, 5):
            for bs in (1024, 4096, 8192):
                add("t-ext%d-%d" % (n, bs), n=n, bs=bs, part="ranges")
                add("t-unmapped%d-%d" % (n, bs), n=n, bs=bs, part="unmapped")
            add("t-between%d" % n, n=n, part="between")
        add("t-full", part="full", n=6, start=2, part2="ranges")
    return out


def full_layout(tail):
    """FIRST one-block extents (a hole after each of the first two, the others
    touch), then the symbolic ones.  Returns the extents and the covered areas."""
    base = FIRST + 2
    head = [(0, 1), (2, 1)] + [(i + 2, 1) for i in range(2, FIRST)]
    areas = [(0, 1), (2, 1), (4, FIRST - 2)]
    tail = [(base + f, l) for f, l in tail]
    return head + tail, areas + tail


def judge(check, ranges, kind, b, start, end, covered, And, Or, Implies, name):
    """ranges: what was reported for [start, end); b: an arbitrary block of it."""
    prev = None
    cond = []
    for f, l in ranges:
        cond.append(f <= l)
        cond.append(f >= start)
        cond.append(l < end)
        if prev is not None:
            cond.append(f > prev + 1)
        prev = l
    check(And(*cond) if cond else True, "%s: the ranges are not increasing, disjoint, separated and inside the interval" % name)
    inside = Or(*[And(b >= f, b <= l) for f, l in ranges]) if ranges else False
    if kind == "mapped":
        check(Implies(inside, covered), "%s: a block without an extent is reported as mapped" % name)
        check(Implies(covered, inside), "%s: a mapped block is not reported" % name)
    else:
        check(Implies(inside, Not(covered) if not isinstance(covered, bool) else not covered), "%s: a mapped block is reported as unmapped" % name)
        check(Or(inside, covered), "%s: an unmapped block is not reported" % name)


def harness(c, cfg):
    bs = cfg["bs"]
    w = W.World(c)
    part = cfg["part"]
    size = 0 if part == "empty" else c.int("size", 1, 1 << 42)
    blocks = (size + bs - 1) // bs
    node = w.add("/work/img.raw", W.DataNode("/work/img.raw", size))
    node.bsz_ioctl = bs
    w.popen = M.df_proc()
    if part == "full":
        ext, areas = full_layout(M.sym_extents(c, cfg["n"], bs, limit=1 << 20))
        start = cfg["start"]
        count = FIRST + 64 - start
        c.assume(start + count <= blocks)
        part = cfg["part2"]
    else:
        areas = ext = M.sym_extents(c, cfg["n"], bs)
        if part != "empty":
            start = c.int("start", 0)
            count = c.int("count", 1)
            c.assume(start + count <= blocks)
    k = M.Kernel(w, node, [(f * bs, l * bs) for f, l in ext])
    k.trim = bool(cfg.get("trim"))
    k.flags = cfg.get("flags", 0)
    def go():
        m = w.mod("Filemap")
        image = w.open("/work/img.raw", "rb") if cfg.get("obj") else "/work/img.raw"
        fm = m.FilemapFiemap(image)
        if part == "empty":
            c.check(list(fm.get_mapped_ranges(0, 0)) == [], "ranges in an empty file")
            c.check(list(fm.get_unmapped_ranges(0, 0)) == [], "holes in an empty file")
            return
        c.check(fm.blocks_cnt == blocks, "wrong block count")
        c.check(fm.block_size == bs, "wrong block size")
        if cfg.get("late"):
            k.late = c.choice("late", cfg["n"] + 1)
        end = start + count
        b = c.int("b")
        c.assume(b >= start)
        c.assume(b < end)
        covered = Or(*[And(b >= f, b < f + l) for f, l in areas]) if areas else False
        run(fm, part, c.check, b, start, count, covered, c)

    kind, e = lib.outcome_of(lambda: go())
    c.check(kind == "ok", "failed: %s: %s" % (kind, e))


def run(fm, part, check, b, start, count, covered, c=None):
    end = start + count
    if part == "ranges":
        judge(check, list(fm.get_mapped_ranges(start, count)), "mapped", b, start, end, covered, And, Or, Implies, "mapped ranges")
    elif part == "unmapped":
        judge(check, list(fm.get_unmapped_ranges(start, count)), "unmapped", b, start, end, covered, And, Or, Implies, "unmapped ranges")
    elif part == "single":
        got = bool(fm.block_is_mapped(b))
        check(covered if got else Not(covered), "block_is_mapped() is wrong")
        got = bool(fm.block_is_unmapped(b))
        check(Not(covered) if got else covered, "block_is_unmapped() is wrong")
    elif part == "between":
        rs = []
        for f, l in fm.get_mapped_ranges(start, count):
            rs.append((f, l))
            check(bool(fm.block_is_mapped(f)), "the first block of a range is not mapped by itself")
            check(bool(fm.block_is_mapped(l)), "the last block of a range is not mapped by itself")
        judge(check, rs, "mapped", b, start, end, covered, And, Or, Implies, "mapped ranges")


def concrete(cfg, p, d):
    from symx import real

    bs = cfg["bs"]
    part = cfg["part"]
    size = p.get("size", 0)
    blocks = (size + bs - 1) // bs
    path = os.path.join(d, "img.raw")
    with open(path, "wb") as f:
        f.truncate(size)
    v = []
    check = lambda cond, msg: None if cond else v.append(msg)
    if part == "full":
        ext, _ = full_layout(M.conc_extents(p, cfg["n"]))
        start = cfg["start"]
        count = FIRST + 64 - start
        part = cfg["part2"]
    else:
        ext = M.conc_extents(p, cfg["n"])
        start, count = p.get("start", 0), p.get("count", 0)
    old = M.fake_df(d, "ext4")
    try:
        m = real.mod("Filemap")
        k = M.RealKernel(path, [(f * bs, l * bs) for f, l in ext])
        k.bsz = bs
        k.trim = bool(cfg.get("trim"))
        k.flags = cfg.get("flags", 0)

        def go():
            with k:
                image = open(path, "rb") if cfg.get("obj") else path
                fm = m.FilemapFiemap(image)
                if part == "empty":
                    check(list(fm.get_mapped_ranges(0, 0)) == [], "ranges in an empty file")
                    check(list(fm.get_unmapped_ranges(0, 0)) == [], "holes in an empty file")
                    return
                check(fm.blocks_cnt == blocks, "wrong block count")
                check(fm.block_size == bs, "wrong block size")
                if cfg.get("late"):
                    k.late = p.get("late", 0)
                b = p.get("b", p.get("start", 0))
                covered = any(f <= b < f + l for f, l in ext)
                run(fm, part, check, b, start, count, covered)

        kind, e = real.outcome_of(go)
    finally:
        os.environ["PATH"] = old
    if kind != "ok":
        v.append("failed: %r" % (e,))
    return {"outcome": kind if kind != "ok" else "done", "violations": v}
