"""C10: an image which does not fit the block device, or a device in use, is refused up front."""

from symx.values import And, Or, Not, Implies
from . import clilib
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "device capacity and image size symbolic up to 8 TiB / 4 TiB (image size unknown: up to 3 MiB); with and without "
    "bmap, size given or not; block sizes 512/4096/65536/1 MiB+1; through the command line: device in use or not, "
    "bmap, --nobmap, plain and compressed image",
    "thorough": "as quick, over more block sizes and with 3 ranges",
}
OUTSIDE = "devices whose size changes while copying; other ways of learning the device size than seeking to its end"
ASSUMPTIONS = ["an exclusive open of a block device in use fails with EBUSY (Linux); st_size of a block device is 0"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("kb", 1)
        k.setdefault("ranges", 2)
        k.setdefault("kind", "api")
        if k["kind"] == "api":
            k.update(dest="bdev", dest_old=False, capacity="free")
        out.append(dict(k, name=name))

    for bs in (512, 4096, 65536, (1 << 20) + 1):
        add("bmap-bs%d" % bs, bs=bs, cs=True)
    add("bmap-tail", tail=True, cs=True)
    add("bmap-empty", ranges=0)
    add("bmap-size-given", give_size=True)
    add("bmap-1.2", version="1.2", tail=True)
    add("known", nobmap="known", max_size=3 << 20)
    add("known-lazy", nobmap="known", max_size=3 << 20, policy="lazy")
    add("unknown", nobmap="unknown", max_size=3 << 20)
    for o in ("bmap", "nobmap", "packed", "packed-nobmap"):
        add("cli-" + o, kind="cli", opt=o, tools=["gzip", "pigz"])
    if tier == "thorough":
        for bs in (1, 1000, 8192, 1 << 20, 4 << 20):
            add("t-bmap-bs%d" % bs, bs=bs, ranges=3, tail=True, cs=True)
    return out


FULL = 5 << 19


def cli(env, cfg):
    bs = 4096
    nobmap = "nobmap" in cfg["opt"]
    packed = "packed" in cfg["opt"]
    size = env.int("size", 8 * bs, FULL if nobmap else 1 << 36)
    img = env.image("source.bin" if packed else "img.raw", size)
    name = "img.raw"
    if packed:
        name = "img.raw.gz"
        env.packed(name, img)
    if not nobmap:
        env.bmap("img.bmap", img, size, bs, [(1, 2, True), (4, 6, True)])
    cap = env.int("capacity", 0, 1 << 37)
    busy = env.flag("busy")
    env.dest("/dev/sdx", "bdev", 0, cap, busy)
    st = env.main(["copy"] + (["--nobmap"] if nobmap else []) + ["@" + name, "@/dev/sdx"])
    if busy:
        env.check(st != 0, "a device in use is written")
        env.check(not env.written("/dev/sdx"), "a device in use is written")
        return
    if st == 0:
        env.check(cap >= size, "success although the image does not fit")
        rows = None if nobmap else [(1, 2), (4, 6)]
        env.check_copied("/dev/sdx", img, size, bs, rows, "copied", capacity=cap)
    else:
        env.check(cap < size, "failed although the image fits: %s" % env.err)
        if not (nobmap and packed):
            env.check(not env.written("/dev/sdx"), "the device was changed although the image does not fit")


def harness(c, cfg):
    if cfg["kind"] == "cli":
        return clilib.harness_of(cli)(c, cfg)
    s = Scene(c, cfg)
    k = s.run()
    if k == "ok":
        c.check(s.cap >= s.N, "success although the image does not fit")
        s.check_dest("after the copy")
    else:
        c.check(s.cap < s.N, "failed although the image fits: %s" % s.err)
        c.check(k != "hang", "the copy never ends")
        if cfg.get("nobmap") != "unknown":
            c.check(k == "Error", "a device too small is not reported as an error of the copy API: %s" % k)
            c.check(not s.dst.ops, "the device was changed although the image does not fit")


def concrete(cfg, p, d):
    if cfg["kind"] == "cli":
        return clilib.concrete_of(cli)(cfg, p, d)
    s = RealScene(cfg, p, d)
    k = s.run()
    v = []
    cap = p["capacity"]
    if k == "ok":
        if cap < s.N:
            v.append("success although the image does not fit")
        v += s.dest_violations("after the copy")
    else:
        if cap >= s.N:
            v.append("failed although the image fits: %s" % s.err)
        if k == "hang":
            v.append("the copy never ends")
        if cfg.get("nobmap") != "unknown":
            if k != "Error":
                v.append("a device too small is not reported as an error of the copy API: %s" % k)
            if "write" in s.events or "truncate" in s.events:
                v.append("the device was changed although the image does not fit")
    return {"outcome": k, "violations": v}
