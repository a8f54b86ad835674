"""C25: all published bmap versions stay readable, by the rules of their version."""

import hashlib

from symx import lib
from symx.values import And, Or, Not, Implies
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "format rules 1.0-1.2, 1.3, 1.4 and 2.x (minor version a symbolic number 0..99, major version a symbolic "
    "number 2..99), seven checksum types, six layouts of the file (spaces and tabs around numbers, single-block ranges, "
    "comments and unknown elements, other order of the elements, everything on one line, a file of 1.6 MB), image sizes symbolic up to 4 TiB, two "
    "ranges, matching or mismatching range checksums",
    "thorough": "as quick, over more block sizes, three ranges",
}
OUTSIDE = "other layouts; version texts which are not two decimal numbers"
ASSUMPTIONS = ["the digest functions are collision-free"]
TYPES = ["sha256", "sha1", "md5", "sha512", "sha384", "sha3_256", "blake2b"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("ranges", 2)
        k.setdefault("kb", 1)
        k.setdefault("content", "free")
        k.setdefault("dest_old", False)
        out.append(dict(k, name=name))

    for lay in LAYOUTS:
        add("old-" + lay, rules="old", layout=lay, singles=True)
        add("1.3-" + lay, rules="1.3", version="1.3", cs=True, layout=lay)
        add("2-" + lay, rules="2", version="2.0", cs=True, layout=lay)
    add("1.4", rules="1.4", version="1.4", cs=True)
    add("1.4-md5", rules="1.4", version="1.4", cs=True, cs_type="md5")
    for t in TYPES:
        add("2-" + t, rules="2", version="2.0", cs=True, cs_type=t)
    add("2-some", rules="2", version="2.0", cs=True, ranges=3, cs_mask=[1, 0, 1])
    add("1.3-some", rules="1.3", version="1.3", cs=True, ranges=3, cs_mask=[0, 1, 1])
    add("2-bs512", rules="2", version="2.0", cs=True, bs=512)
    add("old-stray", rules="old", layout="stray")
    add("old-stray-bad", rules="old", layout="stray", stray="bad")
    add("major", rules="major", version="2.0", cs=True, ranges=1)
    if tier == "thorough":
        for bs in (512, 1000, 65536):
            for lay in LAYOUTS:
                add("t-%d-%s" % (bs, lay), rules="2", version="2.0", cs=True, layout=lay, bs=bs, ranges=3)
                add("t13-%d-%s" % (bs, lay), rules="1.3", version="1.3", cs=True, layout=lay, bs=bs, ranges=3)
    return out


LAYOUTS = ["plain", "spaces", "noise", "order", "oneline", "long"]


def render(cfg, vtext, size, bs, blocks, mapped, rows):
    """The bmap file in one of the layouts."""
    lay = cfg.get("layout", "plain")
    pad = {"plain": " ", "spaces": " \t\n   ", "noise": " ", "order": "", "oneline": "", "stray": " ", "long": " "}[lay]
    nl = "" if lay == "oneline" else "\n"
    el = lambda n, v: "<%s>%s%s%s</%s>%s" % (n, pad, v, pad, n, nl)
    fields = [el("ImageSize", size), el("BlockSize", bs), el("BlocksCount", blocks), el("MappedBlocksCount", mapped)]
    algo = attr = None
    zero = ""
    if cfg["rules"] == "1.3":
        algo, attr, tag = "sha1", "sha1", "BmapFileSHA1"
    elif cfg["rules"] != "old":
        algo, attr, tag = cfg.get("cs_type", "sha256"), "chksum", "BmapFileChecksum"
        fields.append(el("ChecksumType", algo))
    if algo:
        zero = "0" * len(hashlib.new(algo).hexdigest())
        fields.append(el(tag, zero))
    body = ""
    for f, l, chk, single in rows:
        a = ""
        if chk and attr:
            a = ' %s="%s"' % (attr, chk)
        if lay == "stray":
            a = ' sha1="%s" chksum="%s"' % ("1" * 40, "2" * 64)
        sep = " - " if lay in ("spaces", "noise") else "-"
        r = "%s" % f if single else "%s%s%s" % (f, sep, l)
        body += "<Range%s>%s%s%s</Range>%s" % (a, pad, r, pad, nl)
        if lay == "noise":
            body += "<!-- a range -->\n"
        if lay == "long":
            body += "<!-- %s -->\n" % ("much more text, " * 50000)
    bm = "<BlockMap>%s%s</BlockMap>%s" % (nl, body, nl)
    if lay == "stray" and cfg.get("stray") == "bad":
        fields.append(el("ChecksumType", "sha256"))
        fields.append(el("BmapFileChecksum", "3" * 64))
        fields.append(el("BmapFileSHA1", "4" * 40))
    if lay == "noise":
        fields.insert(0, "<!-- made by hand: <ImageSize> 7 </ImageSize> -->\n<Vendor><ImageSize>3</ImageSize></Vendor>\n")
        fields.append("<Remark>text</Remark>\n")
    if lay == "order":
        t = bm + "".join(reversed(fields))
    else:
        t = "".join(fields) + bm
    head = '<?xml version="1.0" encoding="UTF-8"?>\n' if lay in ("noise", "order") else '<?xml version="1.0" ?>' + nl
    t = '%s<bmap version="%s">%s%s</bmap>\n' % (head, vtext, nl, t)
    if algo:
        t = t.replace(zero, hashlib.new(algo, t.encode()).hexdigest(), 1)
    return t


def version_of(cfg, num):
    """num(name, lo, hi) -> number (symbolic or concrete)."""
    r = cfg["rules"]
    if r == "old":
        return "1.%s" % num("minor", 0, 2), None
    if r == "2":
        return "2.%s" % num("minor", 0, 99), None
    if r == "major":
        m = num("major", 2, 99)
        return "%s.%s" % (m, num("minor", 0, 99)), m
    return r, None


class S(Scene):
    def __init__(self, c, cfg):
        self.vtext, self.major = version_of(cfg, lambda n, a, b: c.int(n, a, b))
        if cfg["rules"] == "old":
            cfg = dict(cfg, version="1.2")
        super().__init__(c, cfg)

    def render(self, *a):
        return render(self.cfg, self.vtext, *a)


class R(RealScene):
    def __init__(self, cfg, p, d):
        self.vtext, self.major = version_of(cfg, lambda n, a, b: p.get(n, a))
        if cfg["rules"] == "old":
            cfg = dict(cfg, version="1.2")
        super().__init__(cfg, p, d)

    def render(self, *a):
        return render(self.cfg, self.vtext, *a)


def harness(c, cfg):
    s = S(c, cfg)
    k = s.run()
    good = And(*s.okflags) if s.okflags else True
    if s.major is not None:
        good = And(s.major == 2, good)
    if k == "ok":
        c.check(good, "accepted a higher major version or data not matching its checksum")
        s.check_dest("after the copy")
    else:
        c.check(Not(good), "a well-formed bmap of this version is not accepted: %s" % s.err)
        c.check(k == "Error", "not reported as an error of the copy API: %s" % k)


def concrete(cfg, p, d):
    s = R(cfg, p, d)
    k = s.run()
    v = []
    n = cfg["ranges"]
    good = True
    if cfg.get("cs"):
        for i in range(n):
            if cfg.get("cs_mask") and not cfg["cs_mask"][i]:
                continue
            good = good and p.get("content_ok%d" % i, True)
    if s.major is not None and s.major != 2:
        good = False
    if k == "ok":
        if not good:
            v.append("accepted a higher major version or data not matching its checksum")
        v += s.dest_violations("after the copy")
    else:
        if good:
            v.append("a well-formed bmap of version %s is not accepted: %s" % (s.vtext, s.err))
        if k != "Error":
            v.append("not reported as an error of the copy API: %s" % k)
    return {"outcome": k, "violations": v}
