"""C09: what a successful synchronous copy wrote is on stable storage."""

from symx import lib
from symx.values import And, Not
from symx.buffers import total
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "sizes symbolic up to 4 TiB, up to 2 ranges x 2 batches, and runs of up to 20 batches for the periodic "
    "synchronisation; regular file (buffered or not), block device, null device; with and without a bmap; "
    "copy(sync=True) and copy(sync=False) followed by sync(); one failing flush or fsync, with any error number",
    "thorough": "as quick with 3 ranges, 40 batches and more block sizes",
}
OUTSIDE = "durability of the directory entry; what the storage does with a synchronisation request"
ASSUMPTIONS = [
    "data is on stable storage once fsync or fdatasync on the destination returned after it was handed to the kernel",
]
MB = 1 << 20


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("version", "1.2")
        out.append(dict(k, name=name))

    for sync in (True, False):
        t = "sync" if sync else "later"
        add("reg-%s" % t, ranges=2, kb=2, sync=sync)
        add("reg-%s-lazy" % t, ranges=1, kb=2, sync=sync, policy="lazy")
        add("reg-%s-unbuf" % t, ranges=1, kb=2, sync=sync, buffering=0)
        add("reg-%s-r0" % t, ranges=0, sync=sync)
        add("reg-%s-known" % t, nobmap="known", max_size=4 * MB, sync=sync)
        add("reg-%s-unknown" % t, nobmap="unknown", max_size=4 * MB, min_size=0, sync=sync)
        add("reg-%s-cs" % t, ranges=1, kb=2, cs=True, version="2.0", sync=sync)
        add("reg-%s-small" % t, bs=512, ranges=1, max_range_blocks=20, sync=sync)
        add("bdev-%s" % t, ranges=2, kb=2, dest="bdev", sync=sync)
        add("bdev-%s-small" % t, bs=512, ranges=1, max_range_blocks=20, dest="bdev", sync=sync)
        add("bdev-%s-unknown" % t, nobmap="unknown", max_size=4 * MB, dest="bdev", sync=sync)
        add("null-%s" % t, ranges=1, kb=2, dest="null", sync=sync)
        add("null-%s-known" % t, nobmap="known", max_size=2 * MB, dest="null", sync=sync)
    for n in (2, 3, 6, 7):
        add("bdev-%dM" % n, bs=n * MB, ranges=1, kb=4, dest="bdev")
        add("bdev-%dM-r2" % n, bs=n * MB, ranges=2, kb=2, dest="bdev")
    add("bdev-4k-long", bs=4096, ranges=2, kb=6, dest="bdev", lens=(1536, 3))
    add("fail-reg", fault="fsync", ranges=1, kb=2, fault_max=3)
    add("fail-bdev", fault="fsync", bs=MB, ranges=1, kb=8, fault_max=4, dest="bdev")
    add("fail-flush", fault="flush", ranges=1, kb=2, fault_max=3)
    add("bdev-known-long", nobmap="known", min_size=6 * MB, max_size=8 * MB, dest="bdev")
    add("bdev-unknown-long", nobmap="unknown", min_size=6 * MB, max_size=8 * MB, dest="bdev")
    add("long-bdev", bs=MB, ranges=1, kb=20, dest="bdev", sync=False, capacity="fits")
    add("long-bdev-r3", bs=MB, ranges=3, kb=5, dest="bdev", sync=False, min_len=4)
    add("long-bdev-64k", bs=65536, ranges=1, kb=16, dest="bdev", sync=False)
    add("long-bdev-2M", bs=2 * MB, ranges=1, kb=10, dest="bdev", sync=False)
    add("long-bdev-8M", bs=8 * MB, ranges=1, kb=8, dest="bdev", sync=False)
    add("long-bdev-known", nobmap="known", min_size=7 * MB, max_size=15 * MB, dest="bdev", sync=False)
    add("long-bdev-unknown", nobmap="unknown", min_size=7 * MB, max_size=15 * MB, dest="bdev", sync=False)
    if tier == "thorough":
        for bs in (512, 1000, 4096, 32768, MB):
            for sync in (True, False):
                add("t-reg-%d-%s" % (bs, sync), bs=bs, ranges=3, kb=2, sync=sync)
                add("t-bdev-%d-%s" % (bs, sync), bs=bs, ranges=3, kb=2, dest="bdev", sync=sync)
        add("t-long-bdev", bs=MB, ranges=1, kb=40, dest="bdev", sync=False)
        add("t-long-bdev-4k", bs=4096, ranges=2, kb=12, dest="bdev", sync=False)
    return out


def limit(cfg):
    return max(8 * MB, 4 * cfg["bs"])


def harness(c, cfg):
    s = Scene(c, cfg)
    if cfg.get("min_len"):
        for f, l in s.r.items:
            c.assume(l - f + 1 >= cfg["min_len"])
    if cfg.get("lens"):
        (f, l), (f2, l2) = s.r.items
        c.assume(l - f + 1 == cfg["lens"][0])
        c.assume(l2 - f2 + 1 <= cfg["lens"][1])
    k = s.run(close=False)
    if cfg.get("fault"):
        c.check(k != "ok" or not s.fault_hit, "success although synchronising failed")
        return
    if k != "ok":
        c.fail("a good image is not copied: %s %s" % (k, s.err))
        return
    if not cfg.get("sync", True):
        k, e = lib.outcome_of(s.writer.sync)
        if k != "ok":
            c.fail("synchronising failed: %s" % e)
            return
    node = s.dst
    if cfg.get("dest") == "null":
        return
    c.check(s.f_dst.pend is None, "data is still in the program's buffer after synchronising")
    mods = [i for i, op in enumerate(node.ops) if op[0] != "s"]
    syncs = [i for i, op in enumerate(node.ops) if op[0] == "s"]
    if mods:
        c.check(
            bool(syncs) and syncs[-1] > mods[-1],
            "the destination was modified after the last synchronisation",
        )
    if cfg.get("dest") == "bdev":
        run = 0
        for op in node.ops:
            if op[0] == "s":
                run = 0
            elif op[0] == "w":
                run = run + total(op[2])
                c.check(run <= limit(cfg), "too much data is left unsynchronised on the device")


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    k = s.run()
    v = []
    if cfg.get("fault"):
        if k == "ok" and s.fault_hit():
            v.append("success although synchronising failed")
        return {"outcome": k, "violations": v}
    if k == "ok" and not cfg.get("sync", True):
        s.synced_total = None
        k2, e = s.sync_later
        if k2 != "ok":
            k, s.err = k2, e
    if k != "ok":
        v.append("a good image is not copied: %s %s" % (k, s.err))
    elif cfg.get("dest") != "null":
        ev = s.state_at_end
        if ev["last"] != "fsync" and ev["modified"]:
            v.append("the destination was modified after the last synchronisation")
        if ev["unsynced"] or ev["late"]:
            v.append("data is still in the program's buffer after synchronising")
        if cfg.get("dest") == "bdev" and s.raw.max_unsynced > limit(cfg):
            v.append("too much data is left unsynchronised on the device: %d" % s.raw.max_unsynced)
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
