"""C18: streamed image reading is position-exact."""

from symx.values import And, Or, Not, Implies
from .translib import SymT, RealT

BOUNDS = {
    "quick": "histories of 3-4 operations (read of any size, read all, seek to/by any distance in either direction, seek from the "
    "end) with sizes and distances symbolic (forward seeks up to 3 MiB each where the source cannot seek), image size symbolic; "
    "sources: local file, local compressed file, http, http without seek support, compressed http, ssh, compressed ssh, "
    "standard input as pipe and as file; up to 4 reads answered with less than was asked for",
    "thorough": "as quick with every history of 3 operations and histories of 5, up to 8 short reads",
}
OUTSIDE = "longer histories; forward seeks of more than 3 MiB at once (the loop discards 1 MiB pieces, each alike)"
ASSUMPTIONS = ["the response of the HTTP library or the pipe returns at most what was asked for, and nothing only at the end"]
MIB = 1 << 20
FAKE = ["packed", "http", "http-noseek", "http-packed", "ssh", "ssh-packed", "stdin"]


def configs(tier):
    out = []

    def add(kind, ops, **k):
        name = "%s-%s" % (kind, ops) + ("-short%d" % k["short"] if k.get("short") else "")
        out.append(dict(k, kind=kind, ops=ops, name=name))

    for kind in ["plain", "stdin-file"] + FAKE:
        for ops in ("rsr", "crt", "scr", "era", "rab", "rbr", "rdr", "rAr"):
            add(kind, ops)
    for kind in ("http", "http-noseek"):
        for ops in ("rsr", "scr", "rcr", "sbr", "sda"):
            add(kind, ops, short=4)
    add("packed", "rsrsr")
    add("plain", "rsrsr")
    add("http", "srsr", short=3)
    if tier == "thorough":
        for kind in ["plain", "stdin-file"] + FAKE:
            for a in "rascbde":
                for b in "rscbe":
                    for c in "rA":
                        add(kind, "t" + a + b + c)
            add(kind, "rsrcra")
            add(kind, "srsrs")
        for kind in ("http", "http-noseek"):
            for ops in ("rsrcr", "srscr"):
                add(kind, ops, short=8)
    return out


def scenario(env):
    cfg, N = env.cfg, env.N
    kind, f = env.call(lambda: env.open())
    env.kind = kind
    env.check(kind == "ok", "the image cannot be opened: %s" % kind)
    if kind != "ok":
        return
    fake = cfg["kind"] in FAKE
    pos = 0

    def where(msg):
        k, t = env.call(f.tell)
        env.check(k == "ok", "tell() fails %s: %s" % (msg, k))
        if k == "ok":
            env.check(t == pos, "a wrong position is reported %s" % msg)

    def seek(target, *args):
        nonlocal pos
        k, _ = env.call(f.seek, *args)
        if fake and env.decide(target < pos):
            env.check(k == "Error", "an impossible seek is not refused (%s)" % k)
            return
        if not fake and env.decide(target < 0):
            env.check(k != "ok", "a seek before the start succeeds")
            return
        env.check(k == "ok", "seeking fails: %s" % k)
        pos = env.min(target, N) if fake else target

    for i, op in enumerate(cfg["ops"]):
        if op in "rt" and op == "r":
            n = env.int("n", 0, 3 * MIB)
            k, d = env.call(f.read, n)
            got(env, k, d, pos, env.min(n, env.max(0, N - pos)), bool(cfg.get("short")))
            if k != "ok":
                return
            pos = pos + env.length(d)
        elif op in "aA":
            k, d = env.call(f.read, *(() if op == "a" else (-1,)))
            got(env, k, d, pos, env.max(0, N - pos), bool(cfg.get("short")))
            if k != "ok":
                return
            pos = pos + env.length(d)
        elif op in "sb":
            t = env.int("to", 0, 1 << 43)
            if op == "b":
                env.assume(t <= pos)
            elif fake:
                env.assume(t >= pos)
                env.assume(t <= pos + 3 * MIB)
            seek(t, t) if i % 2 else seek(t, t, 0)
        elif op in "cd":
            by = env.int("by", -(1 << 43), 1 << 43)
            if op == "d":
                env.assume(by < 0)
            elif fake:
                env.assume(by >= 0)
                env.assume(by <= 3 * MIB)
            seek(pos + by, by, 1)
        elif op == "e":
            by = env.int("end", -(1 << 43), 0)
            if fake:
                k, _ = env.call(f.seek, by, 2)
                env.check(k == "Error", "seeking from the end of a stream is not refused (%s)" % k)
            else:
                seek(N + by, by, 2)
        where("after operation %d (%s)" % (i + 1, op))
    k, _ = env.call(f.close)
    env.check(k == "ok", "closing fails: %s" % k)
    if cfg["ops"][-1] in "aA":
        env.fully_fed()


def got(env, k, d, pos, want, short):
    env.check(k == "ok", "reading fails: %s" % k)
    if k != "ok":
        return
    ln = env.length(d)
    if short:
        env.check(And(ln <= want, Or(ln > 0, want == 0)), "reading returns more than there is, or an early end")
    else:
        env.check(ln == want, "reading does not return what is there")
    env.check(env.same(d, pos, ln), "reading returns other bytes than those at the position")


def harness(c, cfg):
    env = SymT(c, cfg)
    scenario(env)
    c.extra["outcome"] = env.kind


def concrete(cfg, p, d):
    env = RealT(cfg, p, d)
    with env:
        scenario(env)
    return {"outcome": env.kind, "violations": env.v}
