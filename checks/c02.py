"""C02: copying with a bmap writes exactly the mapped blocks."""

from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "image size 1 B..4 TiB symbolic (not a multiple of the block size included), up to 3 ranges "
    "anywhere, up to 2-3 batches (1 MiB) per range, block sizes 1/512/4096/12345/65536/1 MiB/1 MiB+1/2 MiB, long runs "
    "of up to 20 batches, old destination content of any size, regular file and block device",
    "thorough": "as quick, with up to 4 ranges, 4 batches per range, 40-batch runs, more block sizes and schedules",
}
OUTSIDE = "more ranges or batches than stated; block sizes other than those listed; non-Linux file semantics"
ASSUMPTIONS = [
    "image.read(n) returns min(n, rest) bytes (regular file or buffered stream)",
    "the bmap belongs to the image (digests match) in this property",
]


def configs(tier):
    out = []

    def add(name, **k):
        k["name"] = name
        out.append(k)

    for bs in (512, 4096, 65536):
        add("bs%d-r2" % bs, bs=bs, ranges=2, kb=2, cs=True, weight=3)
    add("bs4096-r3-lazy", bs=4096, ranges=3, kb=1, cs=False, policy="lazy", weight=3)
    add("bs4096-tail", bs=4096, ranges=2, kb=2, cs=True, tail=True, weight=3)
    add("bs512-tail-unbuf", bs=512, ranges=1, kb=3, cs=True, tail=True, buffering=0)
    add("bs4096-singles", bs=4096, ranges=2, kb=1, singles=True, version="1.2", policy="lazy")
    add("bs1", bs=1, ranges=2, kb=2, cs=True, tail=True)
    add("bs12345", bs=12345, ranges=2, kb=2, cs=True, tail=True)
    add("bs1M", bs=1 << 20, ranges=2, kb=3, cs=True, tail=True)
    add("bs1M+1", bs=(1 << 20) + 1, ranges=2, kb=2, cs=True, tail=True)
    add("bs2M", bs=2 << 20, ranges=1, kb=2, cs=True, tail=True)
    add("long-bs1M", bs=1 << 20, ranges=1, kb=20, cs=True, weight=4)
    add("long-bs64k-lazy", bs=65536, ranges=1, kb=14, cs=True, policy="lazy", weight=4)
    add("nosync-noverify", bs=4096, ranges=2, kb=2, cs=True, sync=False, verify=False)
    add("bdev", bs=4096, ranges=2, kb=2, cs=True, dest="bdev", dest_old=False, weight=3)
    add("bdev-long", bs=1 << 20, ranges=2, kb=5, cs=True, dest="bdev", dest_old=False, weight=5)
    add("longer-image", bs=4096, ranges=2, kb=1, file_size="longer", tail=True)
    add("longer-image-lazy", bs=4096, ranges=1, kb=2, file_size="longer", policy="lazy", tail=True, sync=False)
    add("longer-image-gap", bs=512, ranges=1, kb=2, file_size="longer")
    add("reverse", bs=4096, ranges=2, kb=2, cs=True, reverse=True)
    add("reverse-bdev", bs=65536, ranges=3, kb=1, reverse=True, dest="bdev", dest_old=False)
    add("reverse-lazy", bs=1 << 20, ranges=2, kb=3, version="1.2", reverse=True, policy="lazy")
    add("empty-map", bs=4096, ranges=0, cs=True)
    if tier == "thorough":
        for bs in (512, 1000, 4096, 8192, 32768, 262144):
            for pol in ("eager", "lazy"):
                add("t-bs%d-%s" % (bs, pol), bs=bs, ranges=3, kb=2, cs=True, policy=pol, tail=True)
        add("t-r4", bs=4096, ranges=4, kb=2, cs=True)
        add("t-kb5", bs=4096, ranges=2, kb=5, cs=True)
        add("t-long40", bs=1 << 20, ranges=1, kb=40, cs=True)
        add("t-long2", bs=65536, ranges=2, kb=8, cs=True, policy="lazy")
        add("t-bdev3", bs=4096, ranges=3, kb=3, cs=True, dest="bdev", dest_old=False)
    return out


def harness(c, cfg):
    s = Scene(c, cfg)
    k = s.run()
    if k != "ok":
        if not cfg.get("reverse"):
            c.fail("a valid image/bmap pair is not copied: %s" % k)
        return
    s.check_dest("after copy")


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    k = s.run()
    v = []
    if k != "ok":
        v.append("a valid image/bmap pair is not copied: %s: %s" % (k, s.err))
    else:
        v = s.dest_violations("after copy")
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
