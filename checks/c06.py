"""C06: an image which lacks mapped blocks is never copied 'successfully'."""

from symx.values import And, Or, Not, Implies
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "image size up to 4 TiB, the image file ending anywhere before it; 1-3 ranges of up to 3 batches; with and "
    "without checksums and verification; without a bmap but with a known size; mapped-blocks count of any wrong value; "
    "regular file and block device; block sizes 512, 4096, 1 MiB, 2 MiB",
    "thorough": "as quick with 4 ranges and 5 batches",
}
OUTSIDE = "more ranges or batches than stated; an image of unknown size (it ends where it ends)"
ASSUMPTIONS = ["image.read(n) returns min(n, rest) bytes"]
MB = 1 << 20


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("dest_old", False)
        out.append(dict(k, name=name))

    add("short-r1", ranges=1, kb=3, file_size="short", version="1.2")
    add("short-r2", ranges=2, kb=2, file_size="short", version="1.2")
    add("short-r2-lazy", ranges=2, kb=2, file_size="short", version="1.2", policy="lazy")
    add("short-r3", bs=65536, ranges=3, kb=1, file_size="short", version="1.0")
    add("short-bs512", bs=512, ranges=2, kb=2, file_size="short", version="1.2")
    add("short-bs2M", bs=2 << 20, ranges=2, kb=2, file_size="short", version="1.2")
    add("short-cs", ranges=2, kb=1, file_size="short", cs=True)
    add("short-cs-off", ranges=2, kb=1, file_size="short", cs=True, verify=False)
    add("short-bdev", ranges=2, kb=2, file_size="short", version="1.2", dest="bdev")
    add("short-known", nobmap="known", max_size=4 * MB, file_size="short")
    add("short-known-bdev", nobmap="known", max_size=4 * MB, file_size="short", dest="bdev")
    add("short-long", bs=MB, ranges=1, kb=10, file_size="short", version="1.2")
    add("count-r1", ranges=1, kb=2, mapped="free", version="1.2")
    add("count-r2", ranges=2, kb=2, mapped="free", version="2.0", cs=True)
    add("count-r2-lazy", ranges=2, kb=1, mapped="free", version="2.0", policy="lazy")
    add("count-r0", ranges=0, mapped="free", version="1.2")
    add("count-bdev", ranges=2, kb=1, mapped="free", version="1.2", dest="bdev")
    if tier == "thorough":
        for bs in (512, 1000, 32768, MB):
            add("t-short-%d" % bs, bs=bs, ranges=3, kb=2, file_size="short", version="1.2")
            add("t-count-%d" % bs, bs=bs, ranges=3, kb=2, mapped="free", version="1.2")
        add("t-r4", ranges=4, kb=1, file_size="short", version="1.2")
        add("t-kb5", ranges=2, kb=5, file_size="short", version="1.2")
    return out


def harness(c, cfg):
    s = Scene(c, cfg)
    bs = s.bs
    k = s.run()
    if cfg.get("mapped") == "free":
        if k == "ok":
            c.check(s.mapped == s.r.count, "copied successfully although the ranges do not add up to the mapped blocks count")
        else:
            c.check(s.mapped != s.r.count, "refused although the counts agree")
        return
    if s.r is None:
        lacking = s.N > s.F
    else:
        lacking = And(s.N > s.F, Or(*[(l + 1) * bs > s.F for f, l in s.r.items]))
    if k == "ok":
        c.check(Not(lacking), "copied successfully although the image lacks mapped data")
    else:
        c.check(lacking, "refused although every mapped block is there")


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    bs, N, F = s.bs, s.N, s.F
    k = s.run()
    v = []
    if cfg.get("mapped") == "free":
        same = p["mapped"] == sum(l - f + 1 for f, l in s.items)
        if k == "ok" and not same:
            v.append("copied successfully although the ranges do not add up to the mapped blocks count")
        if k != "ok" and same:
            v.append("refused although the counts agree: %s %s" % (k, s.err))
    else:
        if cfg.get("nobmap"):
            lacking = N > F
        else:
            lacking = N > F and any((l + 1) * bs > F for f, l in s.items)
        if k == "ok" and lacking:
            v.append("copied successfully although the image lacks mapped data")
        elif k != "ok" and not lacking:
            v.append("refused although every mapped block is there: %s %s" % (k, s.err))
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
