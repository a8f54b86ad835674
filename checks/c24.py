"""C24: the stand-alone writer agrees with the main tool."""

import builtins
import errno
import io
import os
import runpy
import sys

from symx import lib, real, values, world as W
from symx.buffers import filled
from symx.values import And, Or, Not, Implies, SymInt
from .copylib import LimitedRaw, FaultyImage

BOUNDS = {
    "quick": "image size symbolic up to 4 TiB, up to 3 ranges of up to 3 blocks or one of up to 16 anywhere (one block written as 'n' or 'n-n', with or without white space around the dash), block sizes "
    "1/512/4096/1 MiB, bmap versions 1.2-2.0 with and without checksums, several image names, files and block devices as destinations, missing files, wrong usage, a "
    "failure at any read or write",
    "thorough": "as quick with 4 ranges of up to 4 blocks, 3 of 6, 2 of 10, one of up to 40",
}
OUTSIDE = "longer ranges (the script copies one block after the other); images shorter than the bmap says (the script verifies nothing)"
ASSUMPTIONS = ["the image matches the bmap", "a read() of a regular file returns all that was asked for up to its end"]
SCRIPT = "contrib/bmap_write.py"
NAMES = {"mydata.img": "mydata.bmap", "a.b.raw": "a.b.bmap", "noext": "noext.bmap", "x.d/noext": "x.d/noext.bmap", "x.d/.raw": "x.d/.raw.bmap"}


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("kb", 2)
        k.setdefault("ranges", 2)
        out.append(dict(k, name=name))

    for bs in (1, 512, 4096, 1 << 20):
        add("bs%d" % bs, bs=bs)
        add("bs%d-tail" % bs, bs=bs, tail=True, ranges=1, kb=3)
    add("ranges3", ranges=3, kb=3)
    add("ranges0", ranges=0)
    add("long", ranges=1, kb=16)
    for v in ("1.2", "1.3", "1.4", "2.0"):
        add("v" + v, version=v, cs=True, singles=True)
    for n in NAMES:
        add("name-" + n, image=n, ranges=1, kb=1)
    for i, d in enumerate((" - ", "-  ", "\n\t- ", " -")):
        add("spaced%d" % i, dash=d, ranges=1 + (i < 2))
    add("old-dest", old=True, ranges=1)
    for bs in (512, 4096):
        add("bdev%d" % bs, bs=bs, bdev=True, tail=True)
        add("bdev%d-v" % bs, bs=bs, bdev=True, ranges=1, kb=3)
    for m in ("image", "bmap"):
        for n in ("mydata.img", "a.b.raw"):
            add("missing-%s-%s" % (m, n), missing=m, ranges=1, kb=1, image=n)
    for n in (0, 1, 3):
        add("args%d" % n, args=n, ranges=1, kb=1)
    for f in ("read", "write"):
        add("fault-" + f, fault=f, ranges=2, kb=2)
        add("fault-" + f + "-long", fault=f, ranges=1, kb=10)
    if tier == "thorough":
        add("t-3", ranges=3, kb=6)
        add("t-4", ranges=4, kb=4)
        add("t-3-tail", ranges=3, kb=6, tail=True)
        for bs in (1, 512, 4096, 1 << 20):
            add("t-long%d" % bs, ranges=1, kb=40, tail=True, bs=bs)
            add("t-two%d" % bs, ranges=2, kb=10, bs=bs)
    return out


def argv(cfg, base):
    a = ["bmap_write.py", base + cfg.get("image", "mydata.img"), base + "out", base + "more"]
    return a[: 1 + cfg.get("args", 2)]


def judge(s, cfg, kind, written):
    """The exit status and whether there is a result to look at."""
    ok = kind in ("ok", "exit0")
    if cfg.get("missing") or cfg.get("args", 2) != 2:
        s.check(not ok, "success although %s" % ("the %s is missing" % cfg["missing"] if cfg.get("missing") else "the usage is wrong"))
        s.check(not written, "data was written although there was nothing to write")
        return False
    if cfg.get("fault"):
        if s.hit():
            s.check(not ok, "a failing %s is reported as success" % cfg["fault"])
            return False
        # (otherwise the failure point was never reached)
    s.check(ok, "the script fails: %s" % kind)
    return ok


class Sym:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        self.w = w = W.World(c)
        w.summarise_human_size()
        bs = self.bs = cfg["bs"]
        N = self.N = c.int("size", 1, 1 << 42)
        blocks = (N + bs - 1) // bs
        self.r = lib.Ranges(c, cfg["ranges"], blocks, cfg["kb"])
        if cfg.get("tail"):
            c.assume(self.r.items[-1][1] == blocks - 1)
        name = "/work/" + cfg.get("image", "mydata.img")
        self.img = W.DataNode(name, N)
        self.bmap = "/work/" + NAMES[cfg.get("image", "mydata.img")]
        rows = []
        v = cfg.get("version", "2.0")
        for i, (f, l) in enumerate(self.r.items):
            tok = None
            algo = lib.algo_of(v)
            if cfg.get("cs") and algo:
                tok = W.hash_hex(algo, b"range-%d" % i)
                w.hash_facts.append(W.Fact(algo, [("s", self.img.src, f * bs, values.imin((l + 1) * bs, N) - f * bs)], tok, True))
            single = bool(cfg.get("singles") and f == l and c.flag("single%d" % i))
            rows.append((f, l, tok, single))
        self.text = lib.bmap_text(v, N, bs, blocks, self.r.count, rows, dash=cfg.get("dash", "-"))
        w.add("/work", W.DirNode("/work"))
        w.add("/work/x.d", W.DirNode("/work/x.d"))
        if cfg.get("missing") != "image":
            w.add(name, self.img)
        if cfg.get("missing") != "bmap":
            w.add(self.bmap, W.TextNode(self.bmap, self.text))
        if cfg.get("old"):
            w.add("/work/out", W.SinkNode("/work/out", c.int("dest_size", 0, 1 << 42)))
        if cfg.get("bdev"):
            cap = self.capacity = c.int("capacity", 1, 1 << 42)
            c.assume(cap >= N)
            n = w.add("/work/out", W.SinkNode("/work/out", bdev=True, capacity=cap))
            n.size0 = cap
        self.fault_hit = False
        if cfg.get("fault"):
            k = c.int("fault_at", 0, 12)
            seen = {"n": 0}

            def hook(op, f):
                node = getattr(f, "node", None)
                want = node is self.img if cfg["fault"] == "read" else node is w.nodes.get("/work/out")
                if op != cfg["fault"] or not want or self.fault_hit:
                    return
                n = seen["n"]
                seen["n"] += 1
                if n <= 12 and k == n:
                    self.fault_hit = True
                    raise OSError(errno.EIO, "Input/output error")

            w.fault_hook = hook

    def hit(self):
        return self.fault_hit

    def check(self, cond, msg):
        self.c.check(cond, msg)

    def go(self):
        self.w.argv[:] = argv(self.cfg, "/work/")
        self.w.loader.script(SCRIPT)

    def main_tool(self):
        w = self.w
        m = w.mod("BmapCopy")
        self.other = w.add("/work/other", W.SinkNode("/work/other", 0))
        f = w.open("/work/other", "rb+")
        wr = m.BmapCopy(w.open(self.img.name, "rb"), f, w.open(self.bmap, "rb"), None)
        wr.copy(True, True)
        f.close()

    def run(self):
        c, cfg, w = self.c, self.cfg, self.w
        k, e = lib.outcome_of(self.go)
        w.fault_hook = None
        c.extra["outcome"] = k
        out = w.nodes.get("/work/out")
        written = out is not None and any(o[0] == "w" for o in getattr(out, "ops", []))
        if not judge(self, cfg, k, written):
            return
        x = c.int("x", 0)
        t = SymInt(out.tag(x))
        inside = x < self.N
        mapped = self.r.has_byte(x, self.bs)
        zero = And(filled(x, self.img.src), t == -3)
        # (on a device a hole shows what was there before)
        c.check(Implies(And(inside, mapped), t == x if cfg.get("bdev") else Or(t == x, zero)), "a mapped byte is not the image's")
        if cfg.get("bdev"):
            c.check(Implies(And(x < self.capacity, Not(And(inside, mapped))), t == -1), "a byte outside the mapped blocks was modified")
            return
        c.check(Implies(And(inside, Not(mapped)), t == -3), "an unmapped byte is not zero")
        c.check(Implies(Not(inside), t == -2), "the result is longer than the image")
        k, e = lib.outcome_of(self.main_tool)
        c.check(k == "ok", "the main tool fails where the script succeeds: %s" % e)
        if k == "ok":
            o = SymInt(self.other.tag(x))
            nul = filled(x, self.img.src)
            same = Or(t == o, And(nul, Or(t == -3, t == x), Or(o == -3, o == x)))
            c.check(same, "the result is not the main tool's")


class Real:
    def __init__(self, cfg, p, d):
        self.cfg, self.p, self.d = cfg, p, d
        self.v = []
        base = self.base = d + "/w/"
        os.makedirs(base + "x.d")
        bs = self.bs = cfg["bs"]
        N = self.N = p["size"]
        self.items = [(p["r%d_first" % i], p["r%d_first" % i] + p["r%d_len" % i] - 1) for i in range(cfg["ranges"])]
        self.areas = [(f * bs, (l + 1) * bs) for f, l in self.items]
        name = self.img = base + cfg.get("image", "mydata.img")
        real.make_image(name, N, self.areas)
        real.apply_fills(name, p)
        v = cfg.get("version", "2.0")
        algo = lib.algo_of(v)
        rows = []
        for i, (f, l) in enumerate(self.items):
            tok = None
            if cfg.get("cs") and algo:
                tok = real.digest_of(name, f * bs, min((l + 1) * bs, N) - f * bs, algo)
            rows.append((f, l, tok, p.get("single%d" % i, False)))
        text = lib.bmap_text(v, N, bs, (N + bs - 1) // bs, sum(l - f + 1 for f, l in self.items), rows, dash=cfg.get("dash", "-"))
        self.bmap = base + NAMES[cfg.get("image", "mydata.img")]
        with open(self.bmap, "w") as f:
            f.write(text)
        if cfg.get("old"):
            real.make_image(base + "out", p.get("dest_size", 0), [], salt=7)
        if cfg.get("bdev"):
            self.cap = p.get("capacity", N)
            with open(base + "out", "wb") as f:
                f.truncate(self.cap)
                for a, b in real.probe_points(self.cap, self.areas):
                    if b > a:
                        real.write_pattern(f, a, b - a, 7)
        if cfg.get("missing"):
            os.unlink(self.img if cfg["missing"] == "image" else self.bmap)
        self._hit = {"v": False}

    def hit(self):
        return self._hit["v"]

    def check(self, cond, msg):
        if not cond:
            self.v.append(msg)

    def go(self):
        sys.argv = argv(self.cfg, self.base)
        runpy.run_path(os.path.join(real.REPO, SCRIPT), run_name="__main__")

    def run(self):
        cfg, p = self.cfg, self.p
        o_open, sa, so = builtins.open, sys.argv, sys.stdout
        out = self.base + "out"

        def f_open(path, mode="r", *a, **k):
            if cfg.get("fault") == "read" and path == self.img:
                f = FaultyImage(o_open(path, mode, *a, **k), "read", p.get("fault_at"), errno.EIO)
                f.hit = self._hit
                return Ctx(f)
            if cfg.get("bdev") and path == out:
                raw = LimitedRaw(path, mode.replace("b", "").replace("w", "r+").replace("++", "+"))
                raw.limit = self.cap
                raw.truncate = lambda n=None: einval()
                return io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
            if cfg.get("fault") == "write" and path == out:
                raw = LimitedRaw(path, mode.replace("b", ""))
                raw.fail_at, raw.hit = p.get("fault_at"), self._hit
                return io.BufferedWriter(raw)
            return o_open(path, mode, *a, **k)

        builtins.open = f_open
        sys.stdout = io.StringIO()
        try:
            k, e = real.outcome_of(self.go)
        finally:
            builtins.open = o_open
            sys.argv, sys.stdout = sa, so
        written = os.path.exists(out) and os.path.getsize(out) > 0
        self.kind = k
        if not judge(self, cfg, k, written):
            return
        n = os.path.getsize(out)
        if cfg.get("bdev"):
            self.device(out)
            return
        self.check(n == self.N, "the result has %d bytes, the image %d" % (n, self.N))
        marks = sorted({0, self.N} | {min(y, self.N) for a in self.areas for y in a})
        for a, b in zip(marks, marks[1:]):
            for pa, pb in real.probe_points(self.N, self.areas):
                s, e = max(a, pa), min(b, pb)
                while s < e and not self.v:
                    k = min(e - s, 8 << 20)
                    mapped = any(x <= s < y for x, y in self.areas)
                    want = real.read_at(self.img, s, k) if mapped else bytes(k)
                    self.check(real.read_at(out, s, k) == want, "a byte at or after %d differs" % s)
                    s += k


    def device(self, out):
        areas = [(a, min(b, self.N)) for a, b in self.areas]
        marks = sorted({0, self.cap} | {y for a in areas for y in a})
        for a, b in zip(marks, marks[1:]):
            for pa, pb in real.probe_points(self.cap, self.areas):
                s, e = max(a, pa), min(b, pb)
                while s < e and not self.v:
                    k = min(e - s, 8 << 20)
                    mapped = any(x <= s < y for x, y in areas)
                    want = real.read_at(self.img, s, k) if mapped else real.pattern(s, k, 7)
                    self.check(real.read_at(out, s, k) == want, "a byte at or after %d differs" % s)
                    s += k


def einval():
    raise OSError(errno.EINVAL, "Invalid argument")


class Ctx:
    def __init__(self, f):
        self._f = f

    def __enter__(self):
        return self._f

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, n):
        return getattr(self._f, n)


def harness(c, cfg):
    Sym(c, cfg).run()


def concrete(cfg, p, d):
    s = Real(cfg, p, d)
    s.run()
    return {"outcome": s.kind, "violations": s.v}
