"""C15: a file map method that would miss data is never used."""

import errno
import io
import os
import sys

from symx import core, lib, world as W
from symx.values import And, Or, Not, Implies, imin, imax
from . import maplib as M

BOUNDS = {
    "quick": "every combination of: FIEMAP works / EOPNOTSUPP / ENOTTY / other error; SEEK_HOLE works / EINVAL / stub that reports "
    "everything as data / no temporary file possible / temporary file cannot be resized; file system ext4, zfs, or unknown (df fails); "
    "ZFS parameter absent, 1, 0, not a number, unreadable; through Filemap.filemap(), BmapCreate and the command line (to a file "
    "or to standard output); the image one data area of symbolic place and size in a file of symbolic size up to 4 TiB",
    "thorough": "as quick with two data areas and three block sizes",
}
OUTSIDE = "file systems that lie in other ways; images on a file system that changes during the run"
ASSUMPTIONS = [
    "an unsupported FIEMAP ioctl fails with EOPNOTSUPP or ENOTTY, an unsupported SEEK_HOLE with EINVAL or reports no holes",
    "df -T reports the file system type; on ZFS holes are reported reliably only with zfs_dmu_offset_next_sync=1",
]
FIE = {"ok": 0, "nosupp": errno.EOPNOTSUPP, "notty": errno.ENOTTY, "eio": errno.EIO}
PARAMS = ["absent", "1", "0", "junk", "unreadable"]
SEEKS = ["ok", "einval", "stub", "notemp", "notrunc"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("n", 1)
        out.append(dict(k, name=name))

    for how in ("filemap", "api", "cli", "cli-stdout"):
        add(how + "-ext4", how=how, fs="ext4")
        add(how + "-zfs", how=how, fs="zfs")
        add(how + "-unknown", how=how, fs=None)
    add("api-obj", how="api-obj", fs="ext4")
    add("api-obj-zfs", how="api-obj", fs="zfs")
    add("names", how="filemap", fs="names")
    for fs in ("ext4", "zfs"):
        add("rel-" + fs, how="filemap", fs=fs, path="rel")
        add("link-" + fs, how="filemap", fs=fs, path="link")
        add("link-api-" + fs, how="api", fs=fs, path="link")
    if tier == "thorough":
        for bs in (512, 4096, 65536):
            add("t-filemap-%d" % bs, how="filemap", fs="ext4", bs=bs, n=2)
            add("t-api-%d" % bs, how="api", fs="ext4", bs=bs, n=2)
    return out


DEVS = ["/dev/sda1     ", "rpool/my data", "tank/a  b c", "zfs"]
NAMES = ["ext4", "tmpfs", "zfs", "zfsx"]


def expectation(fs, param, fie, seek):
    """'refuse' | 'ok' | 'error' (an error, or a right answer)"""
    if fs is None or (fs == "zfs" and param != "1"):
        return "refuse"
    if fie == "ok":
        return "ok"
    if fie == "eio":
        return "error"
    return "ok" if seek == "ok" else "refuse"


class Case:
    """Choices common to both sides; pick(name, options) -> option."""

    def __init__(self, cfg, pick):
        fs = cfg["fs"]
        if fs == "names":
            fs = pick("fs", NAMES)
        self.fs = fs
        self.dev = pick("dev", DEVS) if cfg["fs"] == "names" else DEVS[0]
        self.param = pick("param", PARAMS) if fs == "zfs" else "absent"
        self.fie = pick("fiemap", list(FIE))
        self.seek = pick("seek", SEEKS)
        self.want = expectation(self.fs, self.param, self.fie, self.seek)
        if cfg["how"] == "cli-stdout" and self.seek == "notemp" and self.want == "ok":
            self.want = "error"  # (the bmap itself goes through a temporary file)


def output_is_bmap(text):
    return "</bmap>" in text or "<Range" in text


def harness(c, cfg):
    bs = cfg["bs"]
    w = W.World(c)
    w.summarise_human_size()
    case = Case(cfg, lambda n, o: c.choice(n, o))
    size = c.int("size", 1, 1 << 42)
    blocks = (size + bs - 1) // bs
    node = w.add("/work/img.raw", W.DataNode("/work/img.raw", size))
    node.bsz_ioctl = bs
    ext = M.sym_extents(c, cfg["n"], bs)
    c.assume(ext[-1][0] + ext[-1][1] <= blocks)
    if case.seek == "ok" and case.fie in ("nosupp", "notty"):
        for (f, l), (f2, _) in zip(ext, ext[1:]):
            c.assume(f2 > f + l)
    segs = [(f * bs, imin((f + l) * bs, size)) for f, l in ext]
    image = "/work/img.raw"
    if cfg.get("path") == "rel":
        image = "img.raw"
    elif cfg.get("path") == "link":
        image = "/links/img.raw"
        w.links = {image: "/work/img.raw"}
    w.popen = M.df_proc(case.fs, name=case.dev, w=w, away="/links")
    if case.param != "absent":
        t = {"1": "1\n", "0": "0\n", "junk": "on\n", "unreadable": "1\n"}[case.param]
        n = w.add(M.PARAM, W.TextNode(M.PARAM, t))
        if case.param == "unreadable":
            n.open_error = lambda mode: errno.EACCES
    k = M.Kernel(w, node, [(f * bs, l * bs) for f, l in ext], segs)
    k.fiemap = FIE[case.fie]
    k.seek = errno.EINVAL if case.seek == "einval" else 0
    k.stub_seek = case.seek in ("stub", "notemp", "notrunc")

    def fault(kind, f):
        if kind == "tempfile" and case.seek == "notemp" and w.tempdir in ("/work", "/tmp" if how == "cli-stdout" else "/work"):
            raise PermissionError(errno.EACCES, "Permission denied")
        if kind == "truncate" and case.seek == "notrunc" and getattr(f.node, "tempdir", None) == "/work":
            raise OSError(errno.EFBIG, "File too large")

    w.fault_hook = fault
    how = cfg["how"]
    st = {}

    def api():
        m = w.mod("BmapCreate")
        st["Error"] = m.Error
        cr = m.BmapCreate(w.open(image, "rb") if how == "api-obj" else image, "/work/out.bmap", "sha256")
        cr.generate(False)

    def fmap():
        m = w.mod("Filemap")
        st["Error"] = (m.Error, m.ErrorNotSupp, w.mod("BmapHelpers").Error)
        fm = m.filemap(image)
        st["ranges"] = list(fm.get_mapped_ranges(0, blocks))

    def cli():
        args = ["bmaptool", "create", "--no-checksum", image]
        if how == "cli":
            args += ["-o", "/work/out.bmap"]
        w.argv[:] = args
        c.extra["sysmodules"] = w.loader.modules
        w.loader.stubs["sys"].__dict__["modules"] = w.loader.modules
        old, err = sys.argv, sys.stderr
        sys.argv, sys.stderr = args, io.StringIO()
        try:
            w.mod("CLI").main()
        finally:
            sys.argv, sys.stderr = old, err

    kind, e = lib.outcome_of({"api": api, "api-obj": api, "filemap": fmap}.get(how, cli))
    c.extra["outcome"] = kind
    text = ""
    if how == "cli-stdout":
        text = w.stdout.text()
    elif how != "filemap" and "/work/out.bmap" in w.nodes:
        text = w.nodes["/work/out.bmap"].text()
    good = kind in ("ok", "exit0")
    clear = isinstance(e, st["Error"]) if "Error" in st else kind.startswith("exit")
    verdict(c.check, case, good, clear, text, kind, e)
    if good:
        if how == "filemap":
            rs = st["ranges"]
        else:
            from xml.etree import ElementTree

            rs = parse_ranges(text, w)
        b = c.int("b")
        c.assume(b >= 0)
        c.assume(b < blocks)
        truth(c.check, rs, b, ext)


def parse_ranges(text, w=None):
    import re
    from symx import values

    num = (lambda t: values.parse_sentinel(t) if values.has_sentinel(t) else int(t)) if w else int
    rs = []
    for m in re.finditer(r"<Range[^>]*>\s*([^\s<-]+)(?:-([^\s<]+))?\s*</Range>", text):
        f = num(m.group(1))
        rs.append((f, num(m.group(2)) if m.group(2) else f))
    return rs


def verdict(check, case, good, clear, text, kind, e):
    if case.want == "refuse":
        check(not good, "a method that does not work was used (%s)" % vars(case))
        check(not output_is_bmap(text), "a bmap was produced although no method works")
        check(clear, "no clear error: %s: %s" % (kind, e))
    elif case.want == "ok":
        check(good, "failed although a method works: %s: %s" % (kind, e))
    elif not good:
        check(clear, "no clear error: %s: %s" % (kind, e))
        check(not output_is_bmap(text), "a bmap was produced by a failing run")


def truth(check, rs, b, ext):
    inside = Or(*[And(b >= f, b <= l) for f, l in rs]) if rs else False
    covered = Or(*[And(b >= f, b < f + l) for f, l in ext])
    check(Implies(covered, inside), "a mapped block is missing")
    check(Implies(inside, covered), "an unmapped block is listed")


def concrete(cfg, p, d):
    import logging
    import tempfile
    from symx import real

    bs = cfg["bs"]
    opts = {"param": PARAMS, "fiemap": list(FIE), "seek": SEEKS, "fs": NAMES, "dev": DEVS}
    case = Case(cfg, lambda n, o: o[p.get(n, 0)])
    size = p["size"]
    blocks = (size + bs - 1) // bs
    path = os.path.join(d, "img.raw")
    outp = os.path.join(d, "out.bmap")
    with open(path, "wb") as f:
        f.truncate(size)
    ext = M.conc_extents(p, cfg["n"])
    segs = [(f * bs, min((f + l) * bs, size)) for f, l in ext]
    how = cfg["how"]
    v = []
    check = lambda cond, msg: None if cond else v.append(msg)
    real_d, image, cwd = os.path.realpath(d), path, os.getcwd()
    links = os.path.join(d, "links")
    if cfg.get("path") == "rel":
        image = "img.raw"
    elif cfg.get("path") == "link":
        os.mkdir(links)
        image = os.path.join(links, "img.raw")
        os.symlink(path, image)
    old = M.fake_df(d, case.fs, case.dev, away=os.path.join(real_d, "links"))
    st = {}
    k = M.RealKernel(path, [(f * bs, l * bs) for f, l in ext], segs)
    k.bsz = bs
    k.fiemap = FIE[case.fie]
    k.seek = errno.EINVAL if case.seek == "einval" else 0
    k.stub_seek = case.seek in ("stub", "notemp", "notrunc")
    m = {n: real.mod(n) for n in ("BmapHelpers", "Filemap", "BmapCreate", "CLI")}
    par = os.path.join(d, "param")
    if case.param != "absent":
        with open(par, "w") as f:
            f.write({"1": "1\n", "0": "0\n", "junk": "on\n", "unreadable": "1\n"}[case.param])
    o_open, o_isfile, o_temp, o_trunc = __builtins__["open"], os.path.isfile, tempfile.TemporaryFile, os.ftruncate
    import builtins

    def my_open(name, *a, **kw):
        if name == M.PARAM:
            if case.param == "unreadable":
                raise PermissionError(errno.EACCES, "Permission denied", name)
            name = par
        return o_open(name, *a, **kw)

    def my_isfile(name):
        return o_isfile(par if name == M.PARAM else name)

    def my_temp(*a, **kw):
        where = kw.get("dir", a[6] if len(a) > 6 else None)
        here = os.path.realpath(tempfile.gettempdir() if where is None else where) == real_d
        if case.seek == "notemp" and (here or how == "cli-stdout"):
            raise PermissionError(errno.EACCES, "Permission denied")
        f = o_temp(*a, **kw)
        (temps if here else others).append(f.fileno())
        return f

    temps, others = [], []
    k.temps = others

    def my_trunc(fd, n):
        n_ = fd if isinstance(fd, int) else fd.fileno()
        if case.seek == "notrunc" and n_ in temps:
            raise OSError(errno.EFBIG, "File too large")
        return o_trunc(fd, n)

    builtins.open, os.path.isfile, tempfile.TemporaryFile, os.ftruncate = my_open, my_isfile, my_temp, my_trunc
    so, se, sa = sys.stdout, sys.stderr, sys.argv
    root = logging.getLogger()
    handlers = list(root.handlers)
    buf = io.StringIO()

    def go():
        with k:
            if how == "filemap":
                st["Error"] = (m["Filemap"].Error, m["Filemap"].ErrorNotSupp, m["BmapHelpers"].Error)
                st["ranges"] = list(m["Filemap"].filemap(image).get_mapped_ranges(0, blocks))
            elif how.startswith("api"):
                st["Error"] = m["BmapCreate"].Error
                cr = m["BmapCreate"].BmapCreate(o_open(image, "rb") if how == "api-obj" else image, outp, "sha256")
                cr.generate(False)
            else:
                sys.argv = ["bmaptool", "create", "--no-checksum", image] + (["-o", outp] if how == "cli" else [])
                sys.stdout, sys.stderr = buf, io.StringIO()
                m["CLI"].main()

    os.chdir(d)
    try:
        kind, e = real.outcome_of(go)
    finally:
        os.chdir(cwd)
        builtins.open, os.path.isfile, tempfile.TemporaryFile, os.ftruncate = o_open, o_isfile, o_temp, o_trunc
        os.environ["PATH"] = old
        sys.stdout, sys.stderr, sys.argv = so, se, sa
        root.handlers[:] = handlers
    text = buf.getvalue()
    if how in ("api", "api-obj", "cli") and os.path.exists(outp):
        with open(outp) as f:
            text = f.read()
    good = kind in ("ok", "exit0")
    clear = isinstance(e, st["Error"]) if "Error" in st else kind.startswith("exit")
    verdict(check, case, good, clear, text, kind, e)
    if good:
        rs = st["ranges"] if how == "filemap" else parse_ranges(text)
        truth(check, rs, p.get("b", 0), ext)
    return {"outcome": kind, "violations": v}
