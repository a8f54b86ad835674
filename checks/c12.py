"""C12: progress is monotone, within 0..100, ends at 100, and does not disturb the copy."""

import errno
import os
import re
import stat

from symx import lib, values, world as W
from symx.values import And, Or, Not, Implies
from . import clilib
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "known sizes up to 4 TiB with up to 3 ranges and 12 batches, unknown sizes up to 5 MiB, default and given format, "
    "any spacing of the clock; splash pipe absent, not a pipe, without reader, closed or full at any of the first 6 updates; through the command line with and without terminals, --quiet, --debug, --psplash-pipe",
    "thorough": "as quick, with more ranges, batches and block sizes",
}
OUTSIDE = "a progress terminal that cannot be written"
ASSUMPTIONS = ["float division is correctly rounded, hence monotone (values are treated as exact)"]

PIPES = ["absent", "file", "noreader", "ok", "openfails", "writefails"]


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("bs", 4096)
        k.setdefault("ranges", 1)
        k.setdefault("kb", 2)
        k.setdefault("dest_old", False)
        k.setdefault("progress", True)
        k.setdefault("fmt", "p=%d;")
        k.setdefault("qt", 60000)
        out.append(dict(k, name=name))

    add("r2", ranges=2, kb=1, min_size=4096)
    add("r2-lazy", ranges=2, kb=1, policy="lazy")
    add("r3", ranges=3, max_range_blocks=40)
    add("one-block", ranges=1, max_range_blocks=1, tail=True)
    add("default-format", fmt=None)
    add("tail", tail=True)
    add("bs512", bs=512, ranges=2, kb=1)
    add("big-blocks", bs=1 << 20, kb=12)
    add("bdev", dest="bdev", ranges=2, kb=1)
    add("known", nobmap="known", max_size=5 << 20)
    add("unknown", nobmap="unknown", max_size=5 << 20, clock=True)
    add("unknown-pipe", nobmap="unknown", max_size=3 << 20, pipe="ok", progress=False)
    for p in PIPES:
        add("pipe-" + p, pipe=p, progress=False)
    add("pipe-both", pipe="writefails", kb=1, ranges=2)
    for pipe in (False, True):
        for dest in ("reg", "bdev"):
            add("cli-%s%s" % (dest, "-pipe" if pipe else ""), cli=True, cli_pipe=pipe, dest=dest)
    if tier == "thorough":
        add("t-r3", ranges=3, kb=1)
        add("t-kb4", ranges=1, kb=5)
        add("t-big", bs=1 << 20, kb=25)
        for bs in (1, 1000, 65536, 4 << 20):
            add("t-bs%d" % bs, bs=bs, ranges=2, kb=1)
    return out


def figures(text, fmt):
    pat = r"Copied ([^%\r\n]*)%" if fmt is None else r"info: ([^%\r\n]*)% copied" if "info" in fmt else r"p=([^;]*);"
    out = []
    for m in re.finditer(pat, text):
        v = values.parse_sentinel(m.group(1))
        out.append(v if v is not None else int(m.group(1)))
    return out


def pipe_figures(lines):
    out = []
    for l in lines:
        for m in re.finditer(r"PROGRESS ([^\n]*)\n", l):
            v = values.parse_sentinel(m.group(1))
            out.append(v if v is not None else int(m.group(1)))
    return out


def judge(figs, ok, complete, what, check):
    prev = None
    for f in figs:
        check(And(f >= 0, f <= 100), what + ": a figure outside 0..100")
        if prev is not None:
            check(f >= prev, what + ": a figure decreases")
        prev = f
    if ok and complete:
        if prev is None:
            check(False, what + ": no figure is ever shown")
        else:
            check(prev == 100, what + ": the last figure is not 100")


def cli(env, cfg):
    """Through the command line: the indicator on a terminal, and --psplash-pipe."""
    bs = 4096
    size = env.int("size", 8 * bs, 1 << 36)
    img = env.image("img.raw", size)
    f = env.int("first", 0, 1 << 20)
    n = env.int("blocks", 1, 600)
    env.assume((f + n) * bs <= size)
    rows = [(f, f + n - 1, True)]
    env.bmap("img.bmap", img, size, bs, rows)
    bdev = cfg["dest"] == "bdev"
    dest = "/dev/sdx" if bdev else "out"
    cap = None
    if bdev:
        cap = env.int("capacity", 1, 1 << 37)
        env.assume(cap >= size)
        env.dest(dest, "bdev", 0, cap)
    out, err = env.flag("tty_out"), env.flag("tty_err")
    quiet, debug = (env.flag("quiet"), env.flag("debug")) if not cfg["cli_pipe"] else (False, False)
    env.assume(not (quiet and debug))
    if quiet and debug:
        return
    env.terminal(out, err)
    argv = (["-q"] if quiet else []) + (["-d"] if debug else []) + ["copy"]
    if cfg["cli_pipe"]:
        env.splash("/run/splash" if env.symbolic else "splash")
        argv += ["--psplash-pipe", "@/run/splash" if env.symbolic else "@splash"]
    st = env.main(argv + ["@img.raw", "@" + dest])
    env.check(st == 0, "the copy fails: %s" % env.err)
    figs = figures(env.stderr() + env.stdout(), "bmaptool: info: %d%% copied")
    judge(figs, True, out and err and not quiet and not debug, "the indicator", env.check)
    if quiet:
        env.check(not figs, "--quiet does not silence the indicator")
    if not out and not err:
        env.check(not figs and "\033[1A" not in env.stderr(), "the indicator is shown without a terminal")
    if cfg["cli_pipe"]:
        judge(pipe_figures([env.splash_text()]), True, True, "the splash screen", env.check)
    env.check_copied(dest, img, size, bs, [(f, f + n - 1)], "copied", capacity=cap)


class S(Scene):
    lines = ()

    def prepare(self, wr):
        p = self.cfg.get("pipe")
        if not p:
            return
        c, w = self.c, self.w
        path = "/run/splash"
        self.lines = []
        if p != "absent":
            n = W.TextNode(path, "")
            if p != "file":
                n.mode = stat.S_IFIFO | 0o644
            self.at = c.int("pipe_at", 0, 6) if p.endswith("fails") else None
            self.nopen = 0

            def open_error(mode):
                k = self.nopen
                self.nopen += 1
                if p == "noreader" or p == "openfails" and k <= 6 and self.at == k:
                    return errno.ENXIO
                if p == "ok" or p.endswith("fails"):
                    # without O_NONBLOCK the open would wait for a reader
                    if isinstance(mode, int) and not mode & os.O_NONBLOCK:
                        c.fail("the splash pipe is opened so that it blocks")
                return 0

            def on_write(t):
                k = self.nopen - 1
                if p == "writefails" and k <= 6 and self.at == k:
                    raise OSError(errno.EPIPE, "Broken pipe")
                self.lines.append(t if isinstance(t, str) else bytes(t).decode())

            n.open_error = open_error
            n.on_write = on_write
            self.w.add(path, n)
        wr.set_psplash_pipe(path)


def harness(c, cfg):
    if cfg.get("cli"):
        return clilib.harness_of(cli)(c, cfg)
    s = S(c, cfg)
    if cfg.get("clock"):
        s.w.free_clock = True
    k = s.run()
    c.check(k == "ok", "the copy fails: %s" % s.err)
    if k != "ok":
        return
    known = cfg.get("nobmap") != "unknown"
    if cfg.get("progress"):
        t = s.prog.text()
        figs = figures(t, cfg["fmt"])
        judge(figs, k == "ok", known, "the indicator", c.check)
        if not known:
            c.check(not figs, "a figure is shown although the size is unknown")
    if cfg.get("pipe"):
        figs = pipe_figures(s.lines)
        judge(figs, k == "ok", known and cfg["pipe"] == "ok", "the splash screen", c.check)
        if cfg["pipe"] == "file":
            c.check(not s.w.nodes["/run/splash"].content, "something which is not a pipe was written")
    s.check_dest("after the copy")


class R(RealScene):
    def prepare(self, wr):
        p = self.cfg.get("pipe")
        if not p:
            return
        path = self.splash = os.path.join(self.d, "splash")
        self.fds = []
        if p == "file":
            open(path, "w").close()
        elif p != "absent":
            os.mkfifo(path)
        if p in ("ok", "openfails", "writefails"):
            self.reader = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        at = self.p.get("pipe_at", 0)
        self.n = 0
        self.o_open = o_open = os.open

        def f_open(q, flags, *a, **k):
            if q != path:
                return o_open(q, flags, *a, **k)
            i = self.n
            self.n += 1
            if p == "openfails" and i == at:
                raise OSError(errno.ENXIO, "No such device or address")
            if p == "writefails" and i == at:
                r, w = os.pipe()
                os.close(r)
                return w
            return o_open(q, flags, *a, **k)

        os.open = f_open
        wr.set_psplash_pipe(path)


def concrete(cfg, p, d):
    if cfg.get("cli"):
        return clilib.concrete_of(cli)(cfg, p, d)
    s = R(cfg, p, d)
    o = os.open
    try:
        k = s.run()
    finally:
        os.open = o
    v = []
    chk = lambda cond, msg: None if cond else v.append(msg)
    chk(k == "ok", "the copy fails: %s" % s.err)
    known = cfg.get("nobmap") != "unknown"
    if cfg.get("progress"):
        figs = figures(s.prog.getvalue(), cfg["fmt"])
        judge(figs, k == "ok", known, "the indicator", chk)
        if not known:
            chk(not figs, "a figure is shown although the size is unknown")
    if cfg.get("pipe"):
        text = ""
        if hasattr(s, "reader"):
            try:
                text = os.read(s.reader, 1 << 20).decode()
            except OSError:
                pass
            os.close(s.reader)
        judge(pipe_figures([text]), k == "ok", known and cfg["pipe"] == "ok", "the splash screen", chk)
        if cfg["pipe"] == "file":
            chk(os.path.getsize(s.splash) == 0, "something which is not a pipe was written")
    if k == "ok":
        v += s.dest_violations("after the copy")
    return {"outcome": k, "violations": v}
