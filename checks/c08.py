"""C08: reader/writer hand-over: any schedule, bounded memory, no hang, errors cross over."""

from symx import lib
from symx.values import And, Not, imax
from symx.buffers import total, pieces_of
from .copylib import Scene, RealScene

BOUNDS = {
    "quick": "every interleaving (at queue operations) of reader and writer for up to 3 batches in 1-2 ranges, with and "
    "without a checksum mismatch or a read failure at any batch; extreme schedules (reader first, writer first) for up to "
    "14 batches; sizes symbolic up to 4 TiB; block sizes 4096 to 2 MiB",
    "thorough": "as quick, every interleaving for up to 5 batches and 30-batch runs",
}
OUTSIDE = "preemption inside an operation other than the synchronisation ones (shared data is handed over only through the queue)"
ASSUMPTIONS = ["queue.Queue and the thread primitives behave as documented"]
MB = 1 << 20


def configs(tier):
    out = []

    def add(name, **k):
        k.setdefault("dest_old", False)
        k.setdefault("bs", MB)
        k["count"] = True
        out.append(dict(k, name=name))

    ex = dict(policy="explore", preempt=2, max_size=1 << 36)
    add("explore-r1", ranges=1, kb=3, version="1.2", **ex)
    add("explore-r2", bs=4096, ranges=2, kb=1, cs=True, tail=True, **ex)
    add("explore-mismatch", ranges=2, kb=1, cs=True, content="free", **ex)
    add("explore-read-error", ranges=1, kb=3, version="1.2", fault="read", **ex)
    add("explore-write-error", ranges=1, kb=2, version="1.2", fault="write", **ex)
    add("explore-unknown", bs=4096, nobmap="unknown", **dict(ex, max_size=2 * MB + 5, min_size=0))
    add("eager-long", ranges=1, kb=14, version="1.2", policy="eager")
    add("eager-long-r2", ranges=2, kb=5, version="1.2", policy="eager")
    add("lazy-long", ranges=1, kb=14, version="1.2", policy="lazy")
    add("mainfirst-long", ranges=1, kb=10, version="1.2", policy="mainfirst")
    add("eager-long-bs64k", bs=65536, ranges=1, kb=10, version="1.2", policy="eager")
    add("eager-long-bs2M", bs=2 * MB, ranges=1, kb=12, version="1.2", policy="eager")
    add("eager-unknown", bs=4096, nobmap="unknown", min_size=11 * MB, max_size=14 * MB, policy="eager")
    add("eager-known", bs=4096, nobmap="known", min_size=11 * MB, max_size=14 * MB, policy="eager")
    add("eager-bdev", ranges=1, kb=14, version="1.2", policy="eager", dest="bdev")
    add("eager-mismatch", ranges=2, kb=8, cs=True, content="free", policy="eager", tail=True, min_len=7)
    add("eager-write-error", ranges=1, kb=12, version="1.2", policy="eager", fault="write", max_size=1 << 36, min_len=9)
    if tier == "thorough":
        add("t-explore-r1", ranges=1, kb=5, version="1.2", policy="explore")
        add("t-explore-r2", ranges=2, kb=2, cs=True, content="free", policy="explore")
        add("t-eager-30", ranges=1, kb=30, version="1.2", policy="eager")
        add("t-eager-30-4k", bs=4096, ranges=1, kb=30, cs=True, policy="eager")
    return out


def limit(cfg):
    return 8 * max(MB, cfg["bs"])


def harness(c, cfg):
    s = Scene(c, cfg)
    w = s.w
    if cfg.get("min_len"):
        for i in range(cfg["ranges"]):
            f, l = s.r.items[i]
            c.assume(l - f + 1 >= cfg["min_len"] * max(1, MB // cfg["bs"]))
    state = {"read": 0, "top": 0}

    def short(f, n):
        """Called with the length of every read of the image."""
        if f.node is s.img:
            state["read"] = state["read"] + n
            out = 0
            for op in s.dst.ops:
                if op[0] == "w":
                    out = out + total(op[2])
            pend = 0
            if getattr(s, "f_dst", None) is not None and s.f_dst.pend is not None:
                pend = total(s.f_dst.pend[1])
            c.check(
                state["read"] - out - pend <= limit(cfg),
                "more than 8 batches of image data are held in memory",
            )
        return n

    w.short_reads = short
    k = s.run(close=False)
    if k == "hang":
        c.fail("the copy never ends: %s" % s.err)
        return
    left = lib.leftover(w)
    if left:
        c.fail("a thread which keeps the process from ending is left behind")
        return
    want_ok = True
    if cfg.get("fault"):
        want_ok = not s.fault_hit
    elif cfg.get("content") == "free":
        want_ok = And(*s.okflags)
    if k == "ok":
        c.check(want_ok, "an error of the reader or writer was lost")
        s.f_dst.close()
        s.check_dest("after copy")
    else:
        c.check(Not(want_ok), "failed (%s) although nothing went wrong" % k)


def concrete(cfg, p, d):
    s = RealScene(cfg, p, d)
    k = s.run(40)
    v = []
    if k == "hang":
        v.append("the copy never ends")
    if cfg.get("fault"):
        good = not s.fault_hit()
    else:
        good = all(p.get("content_ok%d" % i, True) for i in range(cfg.get("ranges", 0)))
    if k == "ok" and not good:
        v.append("an error of the reader or writer was lost")
    elif k == "ok":
        v += s.dest_violations("after copy")
    elif good and k != "hang":
        v.append("failed (%s %s) although nothing went wrong" % (k, s.err))
    # the reader is one read ahead of what the symbolic side counts at most
    if s.max_inflight > limit(cfg) + 8192:
        v.append("more than 8 batches of image data are held in memory: %d bytes" % s.max_inflight)
    import threading

    # the process must be able to end
    if getattr(s, "left", None):
        v.append("a thread which keeps the process from ending is left behind")
    for t in threading.enumerate():
        if t is not threading.main_thread() and not t.daemon:
            t.join(5)
            if t.is_alive():
                v.append("a thread which keeps the process from ending is left behind")
    return {"outcome": k, "violations": v, "err": str(s.err)[:300]}
