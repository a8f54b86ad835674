"""C16: a generated bmap describes the image truthfully."""

from symx.values import And, Or, Not, Implies
from .createlib import SymCreate, RealCreate, judge_text

BOUNDS = {
    "quick": "0-3 data areas, whole blocks (through FIEMAP and SEEK_HOLE) or arbitrary bytes (SEEK_HOLE), of up to 1-2 MiB where "
    "checksums are computed and of any size otherwise; image size symbolic up to 4 TiB; block sizes 512/1024/4096/65536; checksum "
    "types sha256/sha1/md5/sha512; image given by path or as a file object (buffer of one block, 64 KiB or 128 KiB, at any "
    "position); through BmapCreate and the command line (output file and standard output); one image of fixed geometry with 36000 data areas, whose bmap is longer than 1 MiB",
    "thorough": "as quick with up to 4 areas of 3 MiB",
}
OUTSIDE = "data areas above the stated size when checksums are computed; files that change during generation"
ASSUMPTIONS = ["the kernel reports the mapping truthfully (C13-C15)", "digests identify data", "a read() of a regular file returns all that was asked for up to its end"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 2)
        out.append(dict(k, name=name))

    for n in (0, 1, 2, 3):
        add("fiemap%d" % n, n=n)
        add("plain%d" % n, n=n, checksums=False)
        add("seek%d" % n, n=n, method="seek")
    for n in (1, 2):
        add("bytes%d" % n, n=n, method="seek", gran="bytes")
        add("bytes-plain%d" % n, n=n, method="seek", gran="bytes", checksums=False)
    add("bytes-plain3", n=3, method="seek", gran="bytes", checksums=False)
    for bs in (512, 1024, 65536, 1 << 20):
        add("bs%d" % bs, bs=bs)
        add("bs%d-seek" % bs, bs=bs, method="seek", gran="bytes")
    add("many", many=36000, checksums=False, bs=1024, min_size=71999 * 1024 - 500, max_size=71999 * 1024 - 500)
    add("tail", tail=True, kb=2)
    add("big", n=1, kb=3)
    for t in ("sha1", "md5", "sha512", "sha384", "blake2b"):
        add("type-" + t, cs_type=t, n=1)
    add("type-SHA256", cs_type="sha256", cs_name="SHA256", n=1)
    add("cli", via="cli")
    add("cli-plain", via="cli", checksums=False)
    add("cli-stdout", via="cli-stdout")
    add("cli-seek", via="cli", method="seek")
    add("obj", via="api-obj")
    add("obj-at", via="api-obj", at=10000)
    add("obj-dirty", via="api-obj", dirty=True, max_size=1 << 16)
    add("obj-dirty-seek", via="api-obj", dirty=True, max_size=1 << 16, method="seek", gran="bytes")
    add("obj-seek", via="api-obj", method="seek")
    for b in (65536, 1 << 17):
        add("obj-seek-buf%d" % b, via="api-obj", method="seek", bufsz=b)
        add("seek-buf%d" % b, method="seek", bufsz=b)
        add("fiemap-buf%d" % b, via="api-obj", bufsz=b)
    add("stat-blksize", no_figetbsz=True)
    if tier == "thorough":
        for bs in (512, 4096, 65536):
            add("t-%d" % bs, n=3, bs=bs, kb=2)
            add("t-seek-%d" % bs, n=3, bs=bs, kb=2, method="seek", gran="bytes")
        add("t-4", n=4)
        add("t-4-seek", n=4, method="seek")
    return out


def scenario(s):
    good = s.run()
    s.check(good, "generation failed: %s: %s" % (s.kind, s.err))
    if not good:
        return
    judge_text(s, s.text())
    if s.cfg.get("via") == "api-obj" and s.cfg.get("at"):
        want = s.cfg["at"]
        s.check(Or(s.f_image.tell() == want, And(s.N < want, s.f_image.tell() == s.N)), "the position of the image file was not restored")


def harness(c, cfg):
    scenario(SymCreate(c, cfg))


def concrete(cfg, p, d):
    s = RealCreate(cfg, p, d)
    scenario(s)
    return {"outcome": s.kind, "violations": s.v}
