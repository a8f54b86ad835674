"""C05: bmap files which cannot be right are refused before the destination is touched."""

import hashlib
import os

from symx import lib, world as W
from symx.values import And, Or, Not, SymInt
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "every size field symbolic up to 4 TiB; one defect per file out of: higher major version, blocks count not "
    "matching the image size (any wrong value), size given by the caller different from the bmap's, bmap checksum wrong "
    "(one character, its length, or entirely) or contents altered in six places, unknown checksum type, missing or non-numeric field, "
    "text which is not XML, a range whose first block exceeds its last one; formats 1.0-1.4, 2.0 and any later one",
    "thorough": "as quick, over more block sizes and versions",
}
OUTSIDE = "several defects at once; alterations of the file elsewhere; a file altered and its checksum recomputed to match"
ASSUMPTIONS = ["the digest functions are collision-free"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("ranges", 1)
        k.setdefault("kb", 1)
        out.append(dict(k, name=name))

    for v in ("3.0", "3.4", "10.1", "21.0"):
        add("version-" + v, defect="version", version=v)
    add("version-any", defect="version", version="3.0", sym_version="major")
    for how in ("first", "zero"):
        add("selfsum-2.x-" + how, defect="selfsum", how=how, version="2.0", sym_version="minor", cs=True)
    for where in WHERE:
        add("alter-2.x-" + where, defect="alter", where=where, version="2.0", sym_version="minor", cs=True)
    for v in ("1.0", "1.2", "1.3", "2.0"):
        add("blocks-" + v, defect="blocks", version=v)
    add("blocks-bs512", defect="blocks", bs=512)
    add("blocks-bs1000", defect="blocks", bs=1000)
    add("size-given", defect="size", cs=True)
    add("size-given-1.2", defect="size", version="1.2")
    add("size-given-bdev", defect="size", dest="bdev", dest_old=False)
    for v in ("1.3", "1.4", "2.0"):
        for how in ("first", "last", "all", "zero"):
            add("selfsum-%s-%s" % (v, how), defect="selfsum", how=how, version=v, cs=True)
        for how in ("cut", "half", "more", "twice", "none"):
            add("selfsum-%s-%s" % (v, how), defect="selfsum", how=how, version=v)
        for where in WHERE:
            add("alter-%s-%s" % (v, where), defect="alter", where=where, version=v, cs=True)
    for v in ("1.3", "2.0"):
        for where in ("end", "range", "chksum"):
            add("alter-far-%s-%s" % (v, where), defect="alter", where=where, version=v, cs=True, pad=3 << 19)
    add("alter-sha512", defect="alter", where="end", cs=True, cs_type="sha512")
    add("hash-unknown", defect="hash")
    for f in ("BlockSize", "BlocksCount", "MappedBlocksCount", "ImageSize"):
        add("nofield-" + f, defect="nofield", field=f, version="1.2")
        add("text-" + f, defect="textfield", field=f, version="1.2")
    for f in ("ChecksumType", "BmapFileChecksum"):
        add("nofield-" + f, defect="nofield", field=f)
    add("noversion", defect="noversion", version="1.2")
    for i in range(len(NOTXML)):
        add("notxml-%d" % i, defect="notxml", n=i)
    add("order-1", defect="order", ranges=1, version="1.2")
    add("order-2", defect="order", ranges=2, version="2.0", cs=True)
    add("order-mid", defect="order", ranges=2, version="1.0", at=0)
    if tier == "thorough":
        for bs in (1, 512, 1000, 65536, 1 << 20):
            for v in ("1.0", "1.1", "1.3", "1.4", "2.0"):
                add("t-blocks-%d-%s" % (bs, v), defect="blocks", bs=bs, version=v)
                add("t-size-%d-%s" % (bs, v), defect="size", bs=bs, version=v)
        for w in WHERE:
            for t in ("md5", "sha1", "sha384"):
                add("t-alter-%s-%s" % (t, w), defect="alter", where=w, cs_type=t, cs=True, ranges=2)
    return out


WHERE = ["end", "head", "range", "chksum", "mapped", "attr"]
NOTXML = [
    "",
    "this is not a bmap\n",
    "<?xml version=\"1.0\" ?>\n<bmap version=\"2.0\">\n  <ImageSize> 1 </ImageSize>\n",
    "<?xml version=\"1.0\" ?>\n" + "<!-- a -->\n" * 9 + "<bmap version=\"2.0\">\n" + "<a>\n" * 9 + "</b>\n</bmap>\n",
    "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n<bmap version='2.0'></bmap>\n",
]


def alter(t, where):
    """Change the text of a bmap file somewhere (keeps it valid XML)."""
    if where == "end":
        return t + "<!-- x -->\n"
    if where == "head":
        return t.replace("?>\n", "?>\n<!-- x -->\n", 1)
    if where == "range":
        return t.replace("</Range>", " </Range>", 1)
    if where == "chksum":
        i = t.index("<Range")
        j = t.index('="', i) + 2
        return t[:j] + ("1" if t[j] != "1" else "2") + t[j + 1 :]
    if where == "mapped":
        return t.replace("<BlockMap>", "<BlockMap> ", 1)
    if where == "attr":
        return t.replace("<bmap ", "<bmap  ", 1)


def spoil(cfg, text, f, l):
    """The defect, as a change of the text (both sides use it)."""
    d = cfg["defect"]
    if d == "selfsum":
        tag = "BmapFileSHA1" if "BmapFileSHA1" in text else "BmapFileChecksum"
        i = text.index("<%s> " % tag) + len(tag) + 3
        j = text.index(" </", i)
        s = text[i:j]
        flip = lambda ch: "1" if ch != "1" else "2"
        s2 = {
            "first": flip(s[0]) + s[1:],
            "last": s[:-1] + flip(s[-1]),
            "all": hashlib.new("sha512", s.encode()).hexdigest()[: len(s)],
            "zero": "0" * len(s),
            "cut": s[:-1],
            "half": s[len(s) // 2 :],
            "more": s + "0",
            "twice": s + s,
            "none": "",
        }[cfg["how"]]
        return text[:i] + s2 + text[j:]
    if d == "alter":
        return alter(text, cfg["where"])
    if d == "nofield":
        i = text.index("<%s>" % cfg["field"])
        j = text.index("</%s>" % cfg["field"]) + len(cfg["field"]) + 3
        return text[:i] + text[j:]
    if d == "textfield":
        i = text.index("<%s>" % cfg["field"]) + len(cfg["field"]) + 2
        j = text.index("</%s>" % cfg["field"])
        return text[:i] + " many " + text[j:]
    if d == "noversion":
        return text.replace(' version="1.2"', "", 1)
    if d == "notxml":
        return NOTXML[cfg["n"]]
    if d == "hash":
        return text.replace(" sha256 ", " sha257 ", 1)
    return text


def in_copy(cfg):
    """Defects which only show when the ranges are walked through."""
    return cfg["defect"] == "order"


class S(Scene):
    def _bmap(self):
        cfg, c = self.cfg, self.c
        if cfg["defect"] == "blocks":
            wrong = c.int("wrong_blocks", 1, 1 << 44)
            c.assume(wrong != self.blocks)
            true, self.blocks = self.blocks, wrong
            super()._bmap()
            self.blocks = true
        elif cfg["defect"] == "order":
            at = cfg.get("at", cfg["ranges"] - 1)
            f, l = self.r.items[at]
            back = c.int("back", 1, 1 << 42)
            c.assume(f >= back)
            n = self.r.count - (l - f + 1)
            self.r.items[at] = (f, f - back)
            self.mapped_total = n
            super()._bmap()
        else:
            super()._bmap()
        t = self.bmap.content
        self.bmap.content = spoil(cfg, t, None, None)


class R(RealScene):
    pass


MUST_BE_ERROR = ("version", "blocks", "size", "selfsum", "alter", "hash", "notxml", "order")


def judge(cfg, k):
    d = cfg["defect"]
    if k == "ok":
        return "a bmap with a defect (%s) was accepted" % d
    if k == "hang":
        return "copying with a defective bmap (%s) never ends" % d
    if d in MUST_BE_ERROR and k != "Error":
        return "a defective bmap (%s) is not reported as an error of the copy API but as %s" % (d, k)
    return None


def harness(c, cfg):
    if cfg["defect"] == "size":
        cfg = dict(cfg, other_size=True)
    s = S(c, cfg)
    w = s.w
    s.open_all()
    n0 = len(s.dst.ops)

    def build():
        s.make()

    k, e = lib.outcome_of(build)
    if cfg["defect"] == "size":
        # s.given is set by make()
        if k == "ok":
            c.check(s.given == s.N, "a size differing from the bmap's was accepted")
            c.extra["outcome"] = "same"
            return
        c.check(s.given != s.N, "the right size was refused")
    m = w.mod("BmapCopy")
    if k != "ok" and isinstance(e, m.Error):
        k = "Error"
    if in_copy(cfg) and k == "ok":
        k, e = lib.outcome_of(lambda: s.writer.copy(True, True))
        if k != "ok" and isinstance(e, m.Error):
            k = "Error"
    elif len(s.dst.ops) != n0:
        c.fail("the destination was modified before the bmap was refused")
    c.extra["outcome"] = k
    msg = judge(cfg, k)
    c.check(not msg, msg or "")


def concrete(cfg, p, d):
    from symx import real

    s = R(dict(cfg, ranges=0), p, d)
    # rebuild the bmap with the defect
    N, bs = s.N, s.bs
    items = []
    for i in range(cfg["ranges"]):
        f = p["r%d_first" % i]
        l = f + p["r%d_len" % i] - 1
        if cfg["defect"] == "order" and i == cfg.get("at", cfg["ranges"] - 1):
            l = f - p["back"]
        items.append((f, l))
    s.items = items
    rows = []
    for f, l in items:
        tok = None
        if cfg.get("cs") and s.algo and l >= f:
            tok = real.digest_of(s.img, f * bs, min((l + 1) * bs, N) - f * bs, s.algo)
        rows.append((f, l, tok, False))
    blocks = p.get("wrong_blocks", s.blocks)
    text = lib.bmap_text(
        cfg.get("version", "2.0"), N, bs, blocks, sum(max(0, l - f + 1) for f, l in items), rows,
        cfg.get("cs_type", "sha256"), vtext=s.vtext(), pad=cfg.get("pad", 0),
    )
    text = spoil(cfg, text, None, None)
    with open(s.bmap, "w") as fo:
        fo.write(text)
    m = real.mod("BmapCopy")
    before = open(s.out, "rb").read(1 << 20), os.path.getsize(s.out)
    if in_copy(cfg):
        k = s.run()
        v = []
    else:
        cls = m.BmapBdevCopy if cfg.get("dest") == "bdev" else m.BmapCopy
        fi, fd, fb = open(s.img, "rb"), open(s.out, "rb+"), open(s.bmap, "rb")
        k, e = real.outcome_of(lambda: cls(fi, fd, fb, p.get("given_size")))
        if isinstance(e, m.Error):
            k = "Error"
        fd.close()
        v = []
        if k != "ok" and (open(s.out, "rb").read(1 << 20), os.path.getsize(s.out)) != before:
            v.append("the destination was modified before the bmap was refused")
    if cfg["defect"] == "size":
        if k == "ok":
            if p["given_size"] != N:
                v.append("a size differing from the bmap's was accepted")
            return {"outcome": "same", "violations": v}
        if p["given_size"] == N:
            v.append("the right size was refused")
    msg = judge(cfg, k)
    if msg:
        v.append(msg)
    return {"outcome": k, "violations": v}
