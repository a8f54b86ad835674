"""C21: image data is written only after the signature of the bmap was accepted."""

from symx.values import And, Or, Not
from . import clilib

BOUNDS = {
    "quick": "every combination of: signature given with --bmap-sig (existing or not) / found as .asc / found as .sig / both / "
    "none, verification software present or not, verdict of the verification (error, bad signature, up to 2 signatures with "
    "any summary bits), --no-sig-verify, embedded signature, bmap and signature local or given by URL, regular file or block device; image size symbolic up to 64 GiB",
    "thorough": "as quick with 3 signatures",
}
OUTSIDE = (
    "the verification itself (gpg); a signature file which contains no signature at all is only warned about (documented "
    "behaviour)"
)
ASSUMPTIONS = [
    "gpg.Context().verify() raises, or returns the signatures it could check; a signature is valid iff the VALID bit is set",
]
BS = 4096


def configs(tier):
    out = []
    for name, k in (
        ("given", dict(given=True)),
        ("given-missing", dict(given=True, missing=True)),
        ("found", dict(found=True)),
        ("given-and-found", dict(given=True, found=True)),
        ("none", dict()),
        ("embedded", dict(embedded=True)),
    ):
        for dest in ("reg", "bdev"):
            out.append(dict(k, name="%s-%s" % (name, dest), dest=dest, sigs=2 if tier == "quick" else 3))
    out.append(dict(name="discovered-bmap", found=True, dest="reg", discover=True, sigs=1))
    for name, k in (("url-found", dict(found=True)), ("url-given", dict(given=True)), ("url-given-missing", dict(given=True, missing=True)), ("url-none", dict()), ("url-embedded", dict(embedded=True))):
        out.append(dict(k, name=name, dest="reg", url=True, sigs=1))
    for url in (False, True):
        out.append(dict(name="sigurl-given%s" % ("-url" if url else ""), dest="reg", given=True, sigurl=True, url=url, sigs=2))
    out.append(dict(name="sigurl-missing", dest="reg", given=True, missing=True, sigurl=True, sigs=1))
    out.append(dict(name="given-nobmap", given=True, nobmap=True, dest="reg", sigs=1))
    return out


def scenario(env, cfg):
    size = env.int("size", 1, 1 << 36)
    img = env.image("img.raw", size)
    rows = [(0, 0, True)]
    name = "img.bmap" if cfg.get("discover") else "map.bmap"
    if cfg.get("url"):
        name = "http://host/dir/" + name
    if cfg.get("nobmap"):
        name = None
    elif cfg.get("embedded"):
        env.text(name, "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n<?xml version=\"1.0\" ?>\n<bmap version=\"2.0\">\n</bmap>\n-----BEGIN PGP SIGNATURE-----\nabc\n-----END PGP SIGNATURE-----\n")
    else:
        env.bmap(name, img, size, BS, rows)
    argv = ["copy"]
    sigs = []
    if cfg.get("found"):
        which = env.choice("found_kind", ["asc", "sig", "both", "none"])
        for e in ("asc", "sig"):
            if which in (e, "both"):
                env.text(name + "." + e, "signature " + e)
                sigs.append("signature " + e)
    if cfg.get("given"):
        given = "http://host/given.sig" if cfg.get("sigurl") else "given.sig"
        argv += ["--bmap-sig", "@" + given]
        sigs = []
        if not cfg.get("missing"):
            env.text(given, "signature given")
            sigs = ["signature given"]
    skip = env.flag("no_sig_verify")
    if skip:
        argv.append("--no-sig-verify")
    have = env.flag("gpg_installed")
    verdict = env.choice("verdict", ["error", "bad", "sigs"])
    n = env.choice("n_sigs", cfg["sigs"] + 1) if verdict == "sigs" else 0
    sums = [env.int("summary%d" % i, 0, 0xFFF) for i in range(n)]
    calls = []

    def verify(data, sig):
        calls.append((data, sig))
        if sig is not None:
            # checking another pair of files finds a bad signature
            if name is None or data != env.content(name) or sig not in sigs:
                return "bad"
        return sums if verdict == "sigs" else verdict

    if have:
        env.have_gpg = True
        env.gpg(verify)
    bdev = cfg["dest"] == "bdev"
    cap = env.int("capacity", 1, 1 << 37) if bdev else None
    if bdev:
        env.assume(cap >= size)
    env.dest("/dev/sdx" if bdev else "out", cfg["dest"], 0, cap)
    if name and not cfg.get("discover"):
        argv += ["--bmap", "@" + name]
    if cfg.get("nobmap"):
        argv += ["--nobmap"]
    argv += ["@img.raw", "@/dev/sdx" if bdev else "@out"]
    dest = "/dev/sdx" if bdev else "out"
    st = env.main(argv)

    valid = And(*[s % 2 == 1 for s in sums]) if sums else True
    if cfg.get("embedded"):
        # whatever is made of it: without a valid verdict nothing is written
        if not (have and verdict == "sigs" and calls):
            env.check(not env.written(dest), "image data written although the embedded signature was not verified")
            env.check(st != 0 or not env.written(dest), "an unverified embedded signature is reported as success")
        return
    if cfg.get("nobmap") or (cfg.get("given") and (cfg.get("missing") or skip)):
        env.check(st != 0, "a signature that was given explicitly is ignored")
        env.check(not env.written(dest), "image data written although the given signature was not verified")
        return
    if skip or not (cfg.get("given") or sigs):
        must, may = True, True
    elif not have or verdict != "sigs":
        must, may = False, False
    elif not sums:
        must, may = None, None
    else:
        must = may = valid
    if st == 0:
        if must is None:
            env.check(
                bool([m for m in env.messages() if "signature" in m.lower()]) and bool(calls),
                "a signature file without signatures is ignored silently",
            )
        else:
            env.check(may, "copied although the signature was not accepted")
    else:
        if must is not None:
            env.check(Not(must) if not isinstance(must, bool) else not must, "refused although the signature is acceptable (%s)" % env.err)
    if env.written(dest):
        if may is not None:
            env.check(may, "image data written although the signature was not accepted")


harness = clilib.harness_of(scenario)
concrete = clilib.concrete_of(scenario)
