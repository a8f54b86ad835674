"""C22: the command line does what it was asked, or fails."""

import errno
import re

from symx.values import And, Or, Not
from . import clilib

BOUNDS = {
    "quick": "14 image names (local and URLs, with several suffixes, dots in directories, leading dots, compressed) with every subset of the "
    "candidate bmap files present; every combination of --nobmap, --bmap, --no-verify, --quiet, --debug, --bmap-sig, "
    "--no-sig-verify; everything local or behind URLs; matching and mismatching checksums; a failing write, resize or synchronisation, running out of memory, an interrupt; files that cannot be opened or created; a destination under /dev that is a regular file; bmap generation to a file and to standard output with each method, failing reads and writes; image sizes symbolic "
    "up to 64 GiB (2.5 MiB where the whole image is copied)",
    "thorough": "the same",
}
OUTSIDE = "options of the argument parser itself (argparse); a failing standard output"
ASSUMPTIONS = ["argparse behaves as documented"]
BS = 4096
FULL = 5 << 19  # copied whole: up to two and a half batches

NAMES = {
    "img": ["img.bmap"],
    "img.raw": ["img.raw.bmap", "img.bmap"],
    "img.raw.gz": ["img.raw.gz.bmap", "img.raw.bmap", "img.bmap"],
    "a.b.c.d": ["a.b.c.d.bmap", "a.b.c.bmap", "a.b.bmap", "a.bmap"],
    "dir.d/img": ["dir.d/img.bmap"],
    "dir.d/img.x": ["dir.d/img.x.bmap", "dir.d/img.bmap"],
    ".hidden": [".hidden.bmap"],
    ".hidden.raw": [".hidden.raw.bmap", ".hidden.bmap"],
    "img.": ["img..bmap", "img.bmap"],
    "im..g": ["im..g.bmap", "im..bmap", "im.bmap"],
    "img.tar.gz": ["img.tar.gz.bmap", "img.tar.bmap", "img.bmap"],
    "img bmap": ["img bmap.bmap"],
    "http://host.org/dir.d/img.raw.x": ["http://host.org/dir.d/img.raw.x.bmap", "http://host.org/dir.d/img.raw.bmap", "http://host.org/dir.d/img.bmap"],
    "https://host.org/img": ["https://host.org/img.bmap"],
}
DECOYS = ["bmap", "other.bmap", "im.bmap", "img.raw.bmap.bmap", "dir.bmap"]


def configs(tier):
    out = []
    for n in NAMES:
        out.append(dict(name="discover-%s" % n.replace("/", "_"), kind="discover", image=n, tools=["gzip", "pigz", "tar"]))
    for dest in ("reg", "bdev"):
        out.append(dict(name="options-%s" % dest, kind="options", dest=dest))
        out.append(dict(name="options-url-%s" % dest, kind="options", dest=dest, url="http://host.org/"))
        for f in ("write", "truncate", "fsync"):
            if not (dest == "bdev" and f == "truncate"):
                out.append(dict(name="fault-%s-%s" % (f, dest), kind="fault", fault=f, dest=dest))
        out.append(dict(name="memory-%s" % dest, kind="fault", fault="write", err="memory", dest=dest))
    for f in ("write", "read", "memory", None):
        for cs in (True, False):
            if cs or f != "read":
                out.append(dict(name="create-%s-%s" % (f, "cs" if cs else "plain"), kind="create", fault=f, cs=cs))
    for dest in ("reg", "bdev"):
        for f in ("write", "fsync"):
            out.append(dict(name="interrupt-%s-%s" % (f, dest), kind="fault", fault=f, err="interrupt", dest=dest))
    for what in ("dest", "dest-bdev", "image", "bmap", "url-bmap-temp"):
        out.append(dict(name="refused-%s" % what, kind="refused", what=what))
    for what in ("image", "output", "temp"):
        out.append(dict(name="create-refused-%s" % what, kind="create_refused", what=what))
    out.append(dict(name="create-stdout", kind="create_stdout"))
    out.append(dict(name="under-dev", kind="under_dev"))
    out.append(dict(name="create-methods", kind="create", fault=None, cs=False, methods=True))
    out.append(dict(name="same-path", kind="same"))
    out.append(dict(name="missing", kind="missing"))
    out.append(dict(name="quiet-debug", kind="quiet"))
    out.append(dict(name="sizes", kind="sizes"))
    return out


def scenario(env, cfg):
    globals()["s_" + cfg["kind"]](env, cfg)


def s_discover(env, cfg):
    cands = NAMES[cfg["image"]]
    size = env.int("size", 6 * BS, 1 << 36)
    gz = cfg["image"].endswith(".gz")
    tgz = cfg["image"].endswith(".tar.gz")
    img = env.image("source.bin" if gz else cfg["image"], size)
    if "/" in cfg["image"] and "://" not in cfg["image"]:
        env.directory(cfg["image"].split("/")[0])
    have = []
    for i, n in enumerate(cands):
        have.append(env.flag("have%d" % i))
        if have[-1]:
            env.bmap(n, img, size, BS, [(i, i + 1, True)])
    for n in DECOYS:
        if n not in cands:
            env.bmap(n, img, size, BS, [(5, 5, True)])
    if gz:
        if env.symbolic:
            env.packed(cfg["image"], img)
        elif tgz:
            import subprocess

            subprocess.check_call(["tar", "-C", env.base, "-czf", env.path(cfg["image"]), "source.bin"])
        else:
            env.packed(cfg["image"], img)
    nobmap = env.flag("nobmap")
    if nobmap:
        env.assume(size <= FULL)
    st = env.main(["copy"] + (["--nobmap"] if nobmap else []) + ["@" + cfg["image"], "@out"])
    if nobmap:
        env.check(st == 0, "a copy without bmap fails: %s" % env.err)
        env.check_copied("out", img, size, BS, None, "--nobmap")
    elif any(have):
        env.check(st == 0, "the bmap next to the image is not used: %s" % env.err)
        i = have.index(True)
        env.check_copied("out", img, size, BS, [(i, i + 1)], "with the bmap found by name")
    else:
        env.check(st != 0, "copied without a bmap although --nobmap was not given")
        env.check(not env.written("out"), "image data written without a bmap although --nobmap was not given")


def s_options(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    url = cfg.get("url", "")
    img = env.image(url + "img.raw", size)
    ok = env.boolean("content_ok")
    rows = [(1, 2, True), (4, 6, ok)]
    env.bmap(url + "given.bmap", img, size, BS, rows)
    near = env.flag("bmap_near")
    if near:
        env.bmap(url + "img.bmap", img, size, BS, [(0, 0, True), (3, 3, ok)])
    bdev = cfg["dest"] == "bdev"
    cap = env.int("capacity", 1, 1 << 37) if bdev else None
    if bdev:
        env.assume(cap >= size)
    dest = "/dev/sdx" if bdev else "out"
    env.dest(dest, cfg["dest"], env.int("old_size", 0, 1 << 20) if not bdev else 0, cap)
    f = {n: env.flag(n) for n in ("nobmap", "bmap", "no_verify", "no_sig_verify")}
    argv = ["copy"]
    if f["nobmap"]:
        argv.append("--nobmap")
        env.assume(size <= FULL)
    if f["bmap"]:
        argv += ["--bmap", "@" + url + "given.bmap"]
    if f["no_verify"]:
        argv.append("--no-verify")
    if f["no_sig_verify"]:
        argv.append("--no-sig-verify")
    st = env.main(argv + ["@" + url + "img.raw", "@" + dest])
    used = None
    if f["nobmap"] and f["bmap"]:
        bad = True
    elif f["nobmap"]:
        bad = False
    elif f["bmap"]:
        bad, used = False, [(1, 2), (4, 6)]
    elif near:
        bad, used = False, [(0, 0), (3, 3)]
    else:
        bad = True
    if bad:
        env.check(st != 0, "contradictory or insufficient options are accepted")
        env.check(not env.written(dest), "image data written although the options are contradictory or insufficient")
        return
    good = True if used is None or f["no_verify"] else ok
    if st == 0:
        env.check(good, "a checksum mismatch is not reported")
        env.check_copied(dest, img, size, BS, used, "copied", capacity=cap)
        env.check(env.synced(dest), "the destination is not synchronised at the end")
    else:
        env.check(Not(good) if env.symbolic else not good, "failed although nothing is wrong: %s" % env.err)


def s_fault(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True), (4, 6, True)])
    bdev = cfg["dest"] == "bdev"
    cap = env.int("capacity", 1, 1 << 37) if bdev else None
    if bdev:
        env.assume(cap >= size)
    dest = "/dev/sdx" if bdev else "out"
    env.dest(dest, cfg["dest"], 0, cap)
    env.proc_files()
    env.fault(cfg["fault"], dest, env.int("fault_at", 0, 6), cfg.get("err", errno.EIO))
    st = env.main(["copy", "@img.raw", "@" + dest])
    if env.fault_hit:
        env.check(st != 0 and st != "hang", "a failing %s ends with exit status %s" % (cfg["fault"], st))
    else:
        env.check(st == 0, "failed although nothing went wrong: %s" % env.err)


def s_create(env, cfg):
    """The exit status of bmap generation."""
    env.proc_files()
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    rows = [(1, 2), (5, 5)]
    method = env.choice("method", ["fiemap", "seek", "none"]) if cfg.get("methods") else "fiemap"
    env.mapping(img, size, BS, rows, method)
    if cfg["fault"] == "read":
        env.fault("read", "img.raw", env.int("fault_at", 0, 3))
    elif cfg["fault"]:
        env.fault("write", "out.bmap", env.int("fault_at", 0, 6), "memory" if cfg["fault"] == "memory" else errno.ENOSPC)
    st = env.main(["create"] + ([] if cfg["cs"] else ["--no-checksum"]) + ["@img.raw", "-o", "@out.bmap"])
    if env.fault_hit:
        env.check(st not in (0, "hang"), "a failure during bmap generation ends with exit status %s" % st)
    elif method == "none":
        env.check(st != 0, "a bmap was generated although no method works")
    else:
        env.check(st == 0, "failed although nothing went wrong: %s" % env.err)
        text = env.content("out.bmap") or ""
        env.check("</bmap>" in text, "exit status 0 without a complete bmap")
        got = re.findall(r"<ImageSize>\s*(\S+)\s*</ImageSize>", text)
        env.check(len(got) == 1 and env.num(got[0]) == size, "the bmap is for another image size")
        env.check(len(re.findall(r"<Range[ >]", text)) == len(rows), "the bmap does not list the two areas")
        env.check(len(re.findall("chksum=", text)) == (len(rows) if cfg["cs"] else 0), "--no-checksum is not followed")


def s_refused(env, cfg):
    """A file which cannot be opened."""
    what = cfg["what"]
    env.proc_files()
    size = env.int("size", 8 * BS, 1 << 36)
    url = "http://host.org/" if what == "url-bmap-temp" else ""
    img = env.image(url + "img.raw", size)
    env.bmap(url + "img.bmap", img, size, BS, [(1, 2, True), (4, 6, True)])
    dest = "out"
    if what == "dest-bdev":
        dest = "/dev/sdx"
        env.dest(dest, "bdev", 0, 1 << 37)
    err = env.choice("errno", [errno.EACCES, errno.ENOENT, errno.EROFS, errno.EIO])
    name = {"dest": "out", "dest-bdev": dest, "image": "img.raw", "bmap": "img.bmap"}.get(what)
    given = what == "bmap"
    if name is None:
        env.refuse_temp(errno.ENOSPC)
    else:
        env.refuse(name, err)
    st = env.main(["copy"] + (["--bmap", "@img.bmap"] if given else []) + ["@" + url + "img.raw", "@" + dest])
    if name is None and st == 0:
        env.check_copied("out", img, size, BS, [(1, 2), (4, 6)], "copied without temporary files")
        return
    env.check(st not in (0, "hang"), "the %s cannot be opened and the exit status is %s" % (what, st))
    if name is None or not name.startswith(("out", "/dev")):
        env.check(not env.written("out"), "image data written although the %s cannot be opened" % what)


def s_create_refused(env, cfg):
    what = cfg["what"]
    env.proc_files()
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.mapping(img, size, BS, [(1, 2), (5, 5)])
    err = env.choice("errno", [errno.EACCES, errno.ENOENT, errno.EROFS, errno.EIO])
    if what == "temp":
        env.refuse_temp(errno.ENOSPC)
    else:
        env.refuse("img.raw" if what == "image" else "out.bmap", err)
    st = env.main(["create", "@img.raw"] + ([] if what == "temp" else ["-o", "@out.bmap"]))
    if what == "temp" and st == 0:
        env.check("</bmap>" in env.stdout(), "exit status 0 without a complete bmap")
        return
    env.check(st not in (0, "hang"), "the %s cannot be opened and the exit status is %s" % (what, st))


def s_create_stdout(env, cfg):
    """Without -o the same bmap goes to the standard output."""
    env.proc_files()
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.mapping(img, size, BS, [(1, 2), (5, 5)])
    cs = env.flag("checksums")
    quiet, debug = env.flag("quiet"), env.flag("debug")
    pre = (["-q"] if quiet else []) + (["-d"] if debug else [])
    st = env.main(pre + ["create"] + ([] if cs else ["--no-checksum"]) + ["@img.raw"])
    if quiet and debug:
        env.check(st != 0, "--quiet and --debug together are accepted")
        return
    env.check(st == 0, "failed although nothing went wrong: %s" % env.err)
    text = env.stdout()
    env.check(text.startswith("<?xml") and text.rstrip().endswith("</bmap>"), "the standard output is not exactly the bmap")
    got = re.findall(r"<ImageSize>\s*(\S+)\s*</ImageSize>", text)
    env.check(len(got) == 1 and env.num(got[0]) == size, "the bmap is for another image size")
    env.check(len(re.findall(r"<Range[ >]", text)) == 2, "the bmap does not list the two areas")
    env.check(len(re.findall("chksum=", text)) == (2 if cs else 0), "--no-checksum is not followed")


def s_under_dev(env, cfg):
    """A regular file, existing or not, under /dev is written all the same."""
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True), (4, 6, True)])
    dest = env.shm() + "/typo"
    if env.flag("exists"):
        env.dest(dest, "reg", env.int("old_size", 0, 1 << 20))
    st = env.main(["copy", "@img.raw", "@" + dest])
    env.check(st == 0, "failed although nothing is wrong: %s" % env.err)
    env.check_copied(dest, img, size, BS, [(1, 2), (4, 6)], "copied")


def s_same(env, cfg):
    """The bmap given as the image (or found to be the same file)."""
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True)])
    st = env.main(["copy", "--bmap", "@img.bmap", "@img.bmap", "@out"])
    env.check(st != 0, "the bmap was written in place of the image")
    env.check(not env.written("out"), "the bmap was written in place of the image")


def s_missing(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True)])
    what = env.choice("missing", ["image", "bmap", "sig"])
    argv = ["copy"]
    if what == "bmap":
        argv += ["--bmap", "@nothing.bmap"]
    if what == "sig":
        argv += ["--bmap-sig", "@nothing.sig"]
    st = env.main(argv + ["@nothing.raw" if what == "image" else "@img.raw", "@out"])
    env.check(st != 0, "a missing %s is not reported" % what)
    env.check(not env.written("out"), "image data written although the %s is missing" % what)


def s_quiet(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True)])
    q, d = env.flag("quiet"), env.flag("debug")
    st = env.main((["-q"] if q else []) + (["-d"] if d else []) + ["copy", "@img.raw", "@out"])
    if q and d:
        env.check(st != 0, "--quiet and --debug together are accepted")
        env.check(not env.written("out"), "image data written although the options are contradictory")
    else:
        env.check(st == 0, "failed although nothing is wrong: %s" % env.err)
        env.check_copied("out", img, size, BS, [(1, 2)], "copied")


def s_sizes(env, cfg):
    """The size in the bmap against the size of the (plain) image file."""
    size = env.int("size", 4 * BS, 1 << 36)
    other = env.int("bmap_size", 4 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.bmap("img.bmap", img, other, BS, [(1, 2, None)])
    st = env.main(["copy", "@img.raw", "@out"])
    if st == 0:
        env.check(size == other, "copied although the bmap is for another image size")
        env.check_copied("out", img, size, BS, [(1, 2)], "copied")
    else:
        env.check(size != other, "refused although the sizes agree: %s" % env.err)
        env.check(not env.written("out"), "image data written although the bmap does not fit the image")


harness = clilib.harness_of(scenario)
concrete = clilib.concrete_of(scenario)
