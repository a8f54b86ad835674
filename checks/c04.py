"""C04: range checksums: wrong data is never accepted, right data never refused."""

from symx.values import And, Not
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "1-3 ranges anywhere in an image of up to 4 TiB, up to 3 batches each, every combination of matching and "
    "differing contents (digest differing in one character or entirely, or the attribute cut short or too long), with and without a checksum attribute, formats "
    "1.3, 1.4, 2.0 with sha1/sha256/sha512/md5, block sizes 512..2 MiB; verification on and off",
    "thorough": "as quick with 4 ranges, 5 batches and more block sizes",
}
OUTSIDE = "hash collisions (different contents are assumed to have different digests)"
ASSUMPTIONS = ["the digest functions are collision-free", "image.read(n) returns min(n, rest) bytes"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("cs", True)
        k.setdefault("content", "free")
        k.setdefault("dest_old", False)
        out.append(dict(k, name=name))

    add("r1", bs=4096, ranges=1, kb=3, tail=True)
    add("r1-unaligned", bs=3000, ranges=1, kb=3, tail=True)
    add("r2", bs=4096, ranges=2, kb=2)
    add("r2-tail-lazy", bs=512, ranges=2, kb=2, tail=True, policy="lazy")
    add("r3", bs=65536, ranges=3, kb=1)
    add("single", bs=4096, ranges=2, kb=1, singles=True)
    add("mask-01", bs=4096, ranges=2, kb=1, cs_mask=[False, True])
    add("mask-10", bs=4096, ranges=2, kb=1, cs_mask=[True, False])
    add("mask-101", bs=4096, ranges=3, kb=1, cs_mask=[True, False, True])
    add("v13", bs=4096, ranges=2, kb=1, version="1.3", singles=True)
    add("v14", bs=4096, ranges=2, kb=1, version="1.4")
    add("sha512", bs=4096, ranges=1, kb=2, cs_type="sha512")
    add("md5", bs=4096, ranges=1, kb=2, cs_type="md5")
    add("sha1", bs=1 << 20, ranges=2, kb=2, cs_type="sha1")
    add("bs2M", bs=2 << 20, ranges=2, kb=2)
    add("noverify", bs=4096, ranges=2, kb=1, verify=False)
    add("noverify-v13", bs=4096, ranges=1, kb=2, verify=False, version="1.3")
    add("bdev", bs=4096, ranges=2, kb=2, dest="bdev")
    add("long", bs=1 << 20, ranges=1, kb=10)
    add("damaged-first", bs=4096, ranges=2, kb=1, damage=0, tail=True)
    add("damaged-last", bs=4096, ranges=2, kb=1, damage=1, cs_type="sha1")
    add("damaged-v13", bs=4096, ranges=1, kb=1, damage=0, version="1.3")
    add("damaged-noverify", bs=4096, ranges=1, kb=1, damage=0, verify=False)
    if tier == "thorough":
        for bs in (512, 1000, 4096, 32768, 1 << 20):
            add("t-%d" % bs, bs=bs, ranges=3, kb=2, tail=True)
        add("t-r4", bs=4096, ranges=4, kb=1)
        add("t-kb5", bs=4096, ranges=2, kb=5, policy="lazy")
    return out


def expect_ok(s):
    if not s.cfg.get("verify", True):
        return True
    return And(*s.okflags)


def harness(c, cfg):
    s = Scene(c, cfg)
    k = s.run()
    good = expect_ok(s)
    if k == "ok":
        c.check(good, "copied successfully although a range differs from its checksum")
    elif k == "Error":
        c.check(Not(good), "refused although every range matches its checksum")
    else:
        c.fail("wrong kind of failure: %s" % k)


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    k = s.run()
    v = []
    good = all(
        p.get("content_ok%d" % i, True)
        for i in range(cfg["ranges"])
        if not (cfg.get("cs_mask") and not cfg["cs_mask"][i])
    )
    good = (good and "damage" not in cfg) or not cfg.get("verify", True)
    if k == "ok" and not good:
        v.append("copied successfully although a range differs from its checksum")
    elif k != "ok" and good:
        v.append("refused although every range matches its checksum: %s %s" % (k, s.err))
    elif k not in ("ok", "Error"):
        v.append("wrong kind of failure: %s %s" % (k, s.err))
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
