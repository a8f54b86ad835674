"""C03: copying without a bmap reproduces the whole image."""

from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "image size symbolic: 0/1 B to 5 MiB, and bands of 15-18 MiB; size known to the caller or not; "
    "regular file with any old content and block device; given size up to 3 blocks below the file's",
    "thorough": "as quick, up to 12 MiB and a band of 40-42 MiB",
}
OUTSIDE = "larger images; image objects whose read() returns less than asked for before the end"
ASSUMPTIONS = ["image.read(n) returns min(n, rest) bytes (regular file or buffered stream)"]
MB = 1 << 20


def configs(tier):
    out = []

    def add(name, **k):
        out.append(dict(k, name=name, bs=4096, dest_old=k.get("dest") != "bdev"))

    add("known", nobmap="known", max_size=5 * MB)
    add("known-lazy", nobmap="known", max_size=5 * MB, policy="lazy")
    add("known-unbuf", nobmap="known", max_size=5 * MB, buffering=0)
    add("unknown", nobmap="unknown", max_size=5 * MB, min_size=0)
    add("unknown-lazy", nobmap="unknown", max_size=5 * MB, min_size=0, policy="lazy", sync=False)
    add("known-long", nobmap="known", min_size=15 * MB, max_size=18 * MB)
    add("unknown-long", nobmap="unknown", min_size=15 * MB, max_size=18 * MB)
    add("known-bdev", nobmap="known", max_size=5 * MB, dest="bdev")
    add("unknown-bdev", nobmap="unknown", max_size=5 * MB, min_size=0, dest="bdev", capacity_min=True)
    add("known-bdev-long", nobmap="known", min_size=15 * MB, max_size=18 * MB, dest="bdev")
    add("known-longer-file", nobmap="known", max_size=3 * MB, file_size="longer")
    if tier == "thorough":
        for kind in ("known", "unknown"):
            for pol in ("eager", "lazy"):
                add("t-%s-%s" % (kind, pol), nobmap=kind, max_size=12 * MB, policy=pol)
            add("t-%s-40" % kind, nobmap=kind, min_size=40 * MB, max_size=42 * MB)
    return out


def harness(c, cfg):
    s = Scene(c, cfg)
    k = s.run()
    if k != "ok":
        c.fail("a readable image is not copied: %s" % k)
        return
    s.check_dest("after copy")


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    k = s.run()
    v = []
    if k != "ok":
        v.append("a readable image is not copied: %s: %s" % (k, s.err))
    else:
        v = s.dest_violations("after copy")
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
