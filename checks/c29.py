"""C29: the input files are only read, and nothing else is left behind."""

import errno

from symx.values import And, Or, Not
from . import clilib

BOUNDS = {
    "quick": "copying to a file and to a block device: with a bmap of every format version given, found by name or behind a URL, without a "
    "bmap, a compressed image; detached signatures, found and given, and signed bmap files; matching and mismatching checksums; one failing or "
    "interrupted write, resize or synchronisation at a symbolic position. Generating a bmap with each method, to a file and to standard "
    "output, with and without checksums, a failing read or write. Each with ordinary and with write-protected input files, and called by a program that has them open for reading and writing; image sizes "
    "symbolic up to 64 GiB (2.5 MiB where the whole image is copied)",
    "thorough": "as quick, each signature configuration also to a block device",
}
OUTSIDE = "time stamps of the files that are read; the same file given as input and as output (C22); the stand-alone writer (C24)"
ASSUMPTIONS = ["temporary files made with 'tempfile' disappear with the process unless asked to stay"]
BS = 4096
FULL = 5 << 19


def configs(tier):
    out = []
    for dest in ("reg", "bdev"):
        for v in ("1.1", "1.2", "1.3", "1.4", "2.0"):
            out.append(dict(name="copy-%s-%s" % (v, dest), kind="copy", version=v, dest=dest))
        out.append(dict(name="nobmap-%s" % dest, kind="nobmap", dest=dest))
        for f in ("write", "truncate", "fsync"):
            if not (dest == "bdev" and f == "truncate"):
                out.append(dict(name="fault-%s-%s" % (f, dest), kind="copy", version="2.0", fault=f, dest=dest, weight=2))
    for how in ("found", "given", "signed", "no-signature"):
        for url in (False, True):
            for dest in ("reg", "bdev") if tier == "thorough" else ("reg",):
                out.append(dict(name="sig-%s%s-%s" % (how, "-url" if url else "", dest), kind="sig", how=how, url=url, dest=dest, weight=2))
    for v in ("1.2", "1.3", "1.4", "2.0"):
        out.append(dict(name="lib-%s" % v, kind="lib", version=v))
    for m in ("fiemap", "seek"):
        out.append(dict(name="libcreate-%s" % m, kind="libcreate", method=m))
        out.append(dict(name="libmap-%s" % m, kind="libmap", method=m))
    out.append(dict(name="packed", kind="packed", dest="reg", tools=["gzip"]))
    for m in ("fiemap", "seek", "none"):
        for f in ("write", "read", None):
            out.append(dict(name="create-%s-%s" % (m, f), kind="create", method=m, fault=f))
    return out


def scenario(env, cfg):
    globals()["s_" + cfg["kind"]](env, cfg)


def target(env, cfg, size):
    """The destination and its name."""
    if cfg["dest"] == "bdev":
        cap = env.int("capacity", 1, 1 << 37)
        env.assume(cap >= size)
        env.dest("/dev/sdx", "bdev", 0, cap)
        return "/dev/sdx"
    if env.flag("dest_there"):
        env.dest("out", "reg", env.int("old_size", 0, 1 << 30))
    return "out"


def finish(env, argv, outputs, protect, must=True):
    """The command; with nothing going wrong it must succeed."""
    if protect:
        env.protect()
    st = env.call(argv) if callable(argv) else env.main(argv)
    env.check(st != "hang", "never ends")
    if must and not env.fault_hit:
        env.check(st == 0, "fails although nothing went wrong%s: %s" % (" (input files are write-protected)" if protect else "", env.err))
    env.check_inputs(outputs, "after the command (exit status %s)" % st)
    return st


def s_copy(env, cfg):
    v = cfg["version"]
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    cs = v not in ("1.1", "1.2")
    good = env.flag("content_ok") if cs else True
    given = env.flag("bmap_given")
    name = "map" if given else "img.bmap"
    env.bmap(name, img, size, BS, [(1, 2, True if cs else None), (4, 6, good if cs else None)], version=v)
    protect = env.flag("protected")
    dest = target(env, cfg, size)
    env.proc_files()
    if cfg.get("fault"):
        env.fault(cfg["fault"], dest, env.int("fault_at", 0, 6), env.choice("err", [errno.EIO, "interrupt"]))
    argv = ["copy"] + (["--bmap", "@" + name] if given else []) + ["@img.raw", "@" + dest]
    finish(env, argv, [dest], protect, good)


def s_nobmap(env, cfg):
    size = env.int("size", 1, FULL)
    env.image("img.raw", size)
    protect = env.flag("protected")
    dest = target(env, cfg, size)
    finish(env, ["copy", "--nobmap", "@img.raw", "@" + dest], [dest], protect)


def s_packed(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("source.bin", size)
    env.bmap("img.bmap", img, size, BS, [(1, 2, True), (4, 6, True)])
    env.packed("img.raw.gz", img)
    protect = env.flag("protected")
    dest = target(env, cfg, size)
    finish(env, ["copy", "@img.raw.gz", "@" + dest], [dest], protect)


def s_sig(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    base = "http://host.org/" if cfg["url"] else ""
    how = cfg["how"]
    argv = ["copy", "--bmap", "@" + base + "img.bmap"]
    if how == "signed":
        env.text(
            base + "img.bmap",
            "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n<?xml version=\"1.0\" ?>\n<bmap version=\"2.0\">\n</bmap>\n"
            "-----BEGIN PGP SIGNATURE-----\nabc\n-----END PGP SIGNATURE-----\n",
        )
    else:
        env.bmap(base + "img.bmap", img, size, BS, [(1, 2, True)])
    if how == "found":
        env.text(base + "img.bmap.asc", "a signature")
    elif how == "given":
        env.text(base + "given.sig", "a signature")
        argv += ["--bmap-sig", "@" + base + "given.sig"]
    skip = env.flag("no_sig_verify")
    if skip:
        argv.append("--no-sig-verify")
    verdict = env.choice("verdict", ["error", "bad", "sigs"])
    have = env.flag("gpg_installed")
    if have:
        env.have_gpg = True
        env.gpg(lambda data, sig: [1] if verdict == "sigs" else verdict)
    protect = env.flag("protected") if not cfg["url"] else False
    dest = target(env, cfg, size)
    finish(env, argv + ["@img.raw", "@" + dest], [dest], protect, how == "no-signature" or how in ("found", "given") and have and verdict == "sigs" and not skip)


def s_create(env, cfg):
    env.proc_files()
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.mapping(img, size, BS, [(1, 2), (5, 5)], cfg["method"])
    protect = env.flag("protected")
    cs = env.flag("checksums")
    stdout = cfg["fault"] != "write" and env.flag("stdout")
    if cfg["fault"] == "read":
        env.fault("read", "img.raw", env.int("fault_at", 0, 3))
    elif cfg["fault"]:
        env.fault("write", "out.bmap", env.int("fault_at", 0, 6), env.choice("err", [errno.ENOSPC, "interrupt"]))
    argv = ["create"] + ([] if cs else ["--no-checksum"]) + ["@img.raw"] + ([] if stdout else ["-o", "@out.bmap"])
    finish(env, argv, [] if stdout else ["out.bmap"], protect, cfg["method"] != "none")


def s_lib(env, cfg):
    """A program which has its files open for reading and writing."""
    v = cfg["version"]
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    cs = v not in ("1.1", "1.2")
    good = env.flag("content_ok") if cs else True
    env.bmap("map", img, size, BS, [(1, 2, True if cs else None), (4, 6, good if cs else None)], version=v)
    modes = ["rb", "rb+"]
    im, bm = env.choice("image_mode", modes), env.choice("bmap_mode", modes)

    def use(mod, open_):
        with open_(env.path("img.raw"), im) as f, open_(env.path("map"), bm) as b, open_(env.path("out"), "wb+") as d:
            mod("BmapCopy").BmapCopy(f, d, b).copy()

    finish(env, use, ["out"], False, good)


def s_libcreate(env, cfg):
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.mapping(img, size, BS, [(1, 2), (5, 5)], cfg["method"])
    im = env.choice("image_mode", ["rb", "rb+", "path"])
    cs = env.flag("checksums")

    def use(mod, open_):
        p = env.path("img.raw")
        if im == "path":
            mod("BmapCreate").BmapCreate(p, env.path("out.bmap"), "sha256").generate(cs)
            return
        with open_(p, im) as f, open_(env.path("out.bmap"), "w+") as b:
            mod("BmapCreate").BmapCreate(f, b, "sha256").generate(cs)

    finish(env, use, ["out.bmap"], False)


def s_libmap(env, cfg):
    """The block map of an image given by its path."""
    size = env.int("size", 8 * BS, 1 << 36)
    img = env.image("img.raw", size)
    env.mapping(img, size, BS, [(1, 2), (5, 5)], cfg["method"])

    def use(mod, open_):
        m = mod("Filemap").filemap(env.path("img.raw"))
        for r in m.get_mapped_ranges(0, m.blocks_cnt):
            pass
        m.block_is_mapped(3)

    finish(env, use, [], env.flag("protected"))


harness = clilib.harness_of(scenario)
concrete = clilib.concrete_of(scenario)
