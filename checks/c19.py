"""C19: compressed images are recognised by name and unpacked by the right tool."""

import os

from symx import core, real, strings, values, world as W
from symx.values import And, Or, Not, Implies, mk_bool
from . import translib
from .translib import SymT, RealT, LAYERS, Tools, TOOLS, unpack

BOUNDS = {
    "quick": "file names: every name of up to 14 characters (one directory level below), with every set of installed tools; every "
    "supported suffix locally, over http and over ssh, with image and packed sizes symbolic; every exit status (signals 1-15 "
    "included) and every amount of data before a decompressor, ssh client or HTTP connection fails, read in one go or in up to 4 pieces",
    "thorough": "as quick with names of up to 24 characters, every suffix with every failure, up to 8 pieces",
}
OUTSIDE = (
    "the decompressors themselves (an image is recovered iff the command suits the file's format and gets all of the file); "
    "exit status 2 of gzip, pigz and xz on their own (a warning); archives with several members (what the tools put out is the image); a URL whose "
    "query or fragment hides the suffix; upper-case suffixes are not suffixes"
)
ASSUMPTIONS = [
    "gzip/pigz, bzip2/pbzip2, xz, lzop, lz4, zstd and funzip unpack their own format only and tar runs the program its option "
    "names; given the wrong format a tool exits with an error, and, except in the configurations lenient-*, also when it does "
    "not get all of its input",
]
CLASSES = sorted({tuple(v) for v in LAYERS.values()})
ALT = {"gz": {"gzip", "pigz"}, "bz2": {"bzip2", "pbzip2"}, "xz": {"xz"}, "lzo": {"lzop"}, "lz4": {"lz4"}, "zst": {"zstd"}, "zip": {"funzip"}}
PLAIN = [".raw", ".gz.raw", ".GZ", ".tar", ".bz", ".z", ".lzma", ".bmap", ""]
MIB = 1 << 20
RESERVED = {"", ".", ".."}


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("kind", "packed")
        k.setdefault("ops", "ra")
        out.append(dict(k, name=name))

    big = 14 if tier == "quick" else 24
    add("any-name", symname=big, free=TOOLS[:-2], ops="a")
    for d in ("some.gz/", "x.tar/"):
        add("any-name-%s" % d[:-1], symname=big, dir=d, ops="ra")
    for s in sorted(LAYERS):
        for kind in ("packed", "http-packed", "ssh-packed"):
            add("%s%s" % (kind, s), kind=kind, suffix=s, short=2 if kind == "http-packed" else 0)
        add("tools%s" % s, suffix=s, kind="http-packed" if s in (".zip", ".tgz") else "packed", free=TOOLS[:-2], ops="a")
    for s in PLAIN:
        add("plain" + s, kind="plain", file="img" + s)
        add("http" + s, kind="http", file="img" + s, length=True)
        add("ssh" + s, kind="ssh", file="img" + s)
    some = [".gz", ".bz2", ".tar.xz", ".zip", ".tzst"] if tier == "quick" else sorted(LAYERS)
    pieces = "a", "ppp", "rpp"
    if tier == "thorough":
        pieces += ("pppppp", "rrpppp", "ra")
    for ops in pieces:
        for s in some:
            for kind, f in (("packed", "tool"), ("http-packed", "http"), ("http-packed", "reset"), ("http-packed", "tool"), ("ssh-packed", "ssh")):
                add("fail-%s-%s%s-%s" % (f, kind, s, ops), kind=kind, suffix=s, fails=f, ops=ops, max_size=3 * MIB)
            for kind, f in (("http-packed", "http"), ("http-packed", "reset"), ("ssh-packed", "ssh")):
                add("lenient-%s-%s%s-%s" % (f, kind, s, ops), kind=kind, suffix=s, fails=f, lenient=True, ops=ops, max_size=3 * MIB)
        for kind, f in (("http", "http"), ("http-noseek", "http"), ("http", "reset"), ("ssh", "ssh")):
            add("fail-%s-%s-%s" % (f, kind, ops), kind=kind, fails=f, ops=ops, max_size=3 * MIB)
    return out


def is_class(name, suffix):
    """The name has this suffix (and no longer one of the table)."""
    longer = [s for s in LAYERS if s != suffix and s.endswith(suffix)]
    return And(name.endswith(suffix), *[Not(name.endswith(s)) for s in longer])


class SymName(SymT):
    """A file with any name."""

    def location(self):
        c, w, n = self.c, self.w, self.cfg["symname"]
        name = strings.tail(c, "file", "/work/" + self.cfg.get("dir", ""), n)
        c.assume(Not(name == name.head + "."))
        c.assume(Not(name == name.head + ".."))
        w.symnodes = [(name, self.file)]
        return name

    def suits(self, args):
        good = [l for l in CLASSES if unpack(args, list(l), self.tools.have)]
        return bool(Or(*[is_class(self.name, s) for s in LAYERS if tuple(LAYERS[s]) in good])) if good else False


def of_class(env, l):
    """The condition that the file is of this class (layers, or None for none)."""
    if env.cfg.get("symname"):
        if l is None:
            return Not(Or(*[env.name.endswith(s) for s in LAYERS]))
        return Or(*[is_class(env.name, s) for s in LAYERS if tuple(LAYERS[s]) == tuple(l)])
    mine = tuple(env.layers) if env.packed else None
    return mine == (None if l is None else tuple(l))


def usable(l, have):
    """The conditions that the installed tools suffice for sure / may suffice."""
    alts = sorted(ALT[l[0]])
    some = Or(*[have(t) for t in alts])
    if len(l) == 1:
        return some, some
    first = {"gz": "gzip", "bz2": "bzip2"}.get(l[0]) or alts[0]
    return And(have("tar"), have(first)), And(have("tar"), some)


def scenario(env):
    cfg = env.cfg
    kind, f = env.call(env.open)
    env.kind = kind
    free = cfg.get("free")
    if kind == "Error" and free:
        named = [t for t in TOOLS if t in words(env.text(env.exc))]
        env.check(Or(*[Not(env.have(t)) for t in named]), "opening fails, but no program which is missing is named")
        env.check(not env.commands(), "a program is started although one is missing")
        env.check(not env.was_read(), "the file is read although a program is missing")
        env.check(Not(of_class(env, None)), "a plain image cannot be opened")
        for l in CLASSES:
            mine = of_class(env, l)
            if mine is False:
                continue
            env.check(Implies(mine, Not(usable(l, env.have)[0])), "an image cannot be opened although the tools for %s are there" % "+".join(l))
            need = set(ALT[l[0]]) | ({"tar"} if len(l) > 1 else set())
            rel = [Not(env.have(t)) for t in named if t in need]
            env.check(Implies(mine, Or(*rel)), "the message names %s, which %s does not need" % (", ".join(named), "+".join(l)))
        return
    env.check(kind == "ok", "the image cannot be opened: %s" % kind)
    if kind != "ok":
        return
    if free:
        for l in CLASSES:
            mine = of_class(env, l)
            if mine is not False:
                env.check(Implies(mine, usable(l, env.have)[1]), "a missing tool for %s goes unnoticed" % "+".join(l))
    size = env.call(lambda: f.size)[1]
    if cfg["kind"] in ("plain", "packed"):
        plain = of_class(env, None)
        if size is None:
            env.check(Not(plain), "the size of a local image is not known")
        else:
            env.check(plain, "a size is reported for a compressed image")
            env.check(size == env.N if not cfg.get("symname") else size == env.P, "a wrong size is reported")
    else:
        env.check(size is None, "a size is reported for a remote image")
    N = env.N
    if cfg.get("symname") and env.decide(of_class(env, None)):
        N, env.img = env.P, env.file
        env.image = getattr(env, "src", None)
    pos = 0
    ended = None
    for i, op in enumerate(cfg["ops"]):
        n = None
        if op in "rp":
            n = env.int("n", 0 if op == "r" else MIB, 3 * MIB)
        k, d = env.call(f.read, *(() if n is None else (n,)))
        if k != "ok":
            env.check(bool(cfg.get("fails")), "reading fails: %s" % k)
            ended = k
            break
        ln = env.length(d)
        left = N - pos
        env.check(env.same(d, pos, ln), "other bytes than the image's are delivered")
        if cfg.get("fails"):
            env.check(n is not None and Not(And(n > 0, ln == 0)), "a failure looks like the end of the image")
        elif not (cfg.get("short") and not env.packed):
            env.check(ln == (left if n is None else env.min(left, n)), "not everything is delivered")
        pos = pos + ln
    if cfg["ops"][-1] == "a" and not cfg.get("fails"):
        env.fully_fed()
    k, _ = env.call(f.close)
    env.check(k == "ok", "closing fails: %s" % k)
    env.end = ended


def words(msg):
    out, w = [], ""
    for ch in msg + " ":
        if ch.isalnum() or ch in "_+.-":
            w += ch
        else:
            out.append(w.strip("."))
            w = ""
    return out


class Sym(SymT):
    def have(self, t):
        return self.tools.cond(t)

    def commands(self):
        return self.cmds

    def was_read(self):
        return bool(self.file.reads)


class SymAny(SymName, Sym):
    pass


class Real(RealT):
    def have(self, t):
        return t in self.names

    def commands(self):
        return self.log()

    def was_read(self):
        return os.path.exists(self.d + "/fed")

    def wrapping(self):
        if not self.cfg.get("symname"):
            return super().wrapping()
        self.sym_file = strings.tail_text(self.p, "file", self.cfg["symname"])
        best = [s for s in LAYERS if self.path_end().endswith(s)]
        if not best:
            return []
        return LAYERS[max(best, key=len)]

    def path_end(self):
        return self.cfg.get("dir", "") + self.sym_file

    def location(self):
        if not self.cfg.get("symname"):
            return super().location()
        d = os.path.join(self.d, "w", self.cfg.get("dir", ""))
        d = d.rstrip("/")
        os.makedirs(d)
        if not self.layers:
            self.packed = False
        os.symlink(self.src, os.path.join(d, self.sym_file))
        return os.path.join(d, self.sym_file)


def harness(c, cfg):
    tools = Tools(c, free=cfg.get("free", ()))
    env = (SymAny if cfg.get("symname") else Sym)(c, cfg, tools)
    scenario(env)
    c.extra["outcome"] = env.kind


def concrete(cfg, p, d):
    env = Real(cfg, p, d)
    if cfg.get("symname"):
        # (a name of its own, so that the suffixes can be asked for)
        env.P = os.path.getsize(env.src)
    env.file = None
    with env:
        scenario(env)
    return {"outcome": env.kind, "violations": env.v}
