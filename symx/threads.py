"""Cooperative threads: real OS threads, one running at a time (baton).

Scheduling points are the operations of the synchronisation objects below and
thread start/end.  The policy decides who runs next:
  eager    another thread whenever one can run
  lazy     the current thread until it blocks
  explore  every choice (a symbolic selector, i.e. all interleavings)
"""

import threading as _th
import types
import collections
import queue as _queue
from . import core
from .values import SymInt, ctx


class ThreadKill(BaseException):
    pass


class Hang(BaseException):
    """Every thread is blocked: the real program would never return."""


class Task:
    def __init__(self, name, daemon):
        self.name = name
        self.daemon = daemon
        self.sem = _th.Semaphore(0)
        self.pred = None
        self.timed = False
        self.timed_out = False
        self.done = False
        self.exc = None
        self.why = ""
        self.thread = None

    def runnable(self):
        return not self.done and (self.pred is None or self.pred())


class Sched:
    def __init__(self, c, policy="eager"):
        self.c = c
        self.policy = policy
        self.main = Task("main", False)
        self.tasks = [self.main]
        self.cur = self.main
        self.killed = False
        self.unhandled = []
        self.switches = 0
        self.preempt = None  # bound on voluntary switches (None: no bound)
        c.extra.setdefault("cleanup", []).append(self.shutdown)

    # -- choosing ---------------------------------------------------------
    def _pick(self, cands, cur_ok):
        if len(cands) == 1:
            return cands[0]
        if self.policy == "explore" and self.c.failed is None:
            if cur_ok and self.preempt is not None and self.preempt <= 0:
                return self.cur
            self.c.tick()
            # staying with the current thread is always the first choice
            if cur_ok:
                cands = [self.cur] + [t for t in cands if t is not self.cur]
            nxt = self.c.choice("sched", cands)
            if cur_ok and nxt is not self.cur and self.preempt is not None:
                self.preempt -= 1
            return nxt
        if self.policy == "lazy" and cur_ok:
            return self.cur
        others = [t for t in cands if t is not self.cur]
        if self.policy == "mainfirst" and self.main in cands:
            return self.main
        return others[0] if others else cands[0]

    def _cands(self):
        return [t for t in self.tasks if t.runnable()]

    def point(self):
        """The current task could go on; maybe let another one run."""
        self._live()
        cands = self._cands()
        nxt = self._pick(cands, True)
        self._to(nxt)

    def _live(self):
        if self.killed:
            raise ThreadKill()
        if self.c.failed is not None:
            raise self.c.failed

    def block(self, pred, why="", timeout=None):
        """Wait until pred(); returns False when it timed out."""
        self._live()
        if timeout is None:
            self.point_if_other(pred)
        me = self.cur
        if pred():
            return True
        me.pred = pred
        me.why = why
        me.timed = timeout is not None
        try:
            while not pred():
                cands = [t for t in self._cands() if t is not me]
                if not cands:
                    # a timed wait fires when nothing else can run
                    timed = [t for t in self.tasks if not t.done and t.timed]
                    if timed:
                        t = timed[0]
                        t.timed_out = True
                        if t is me:
                            return False
                        t.pred = lambda: True
                        cands = [t]
                    else:
                        self._hang()
                self._to(self._pick(cands, False))
                if me.timed_out:
                    me.timed_out = False
                    return bool(pred())
            return True
        finally:
            me.pred = None
            me.timed = False

    def point_if_other(self, pred):
        if len(self.tasks) > 1:
            self.point()

    def _hang(self):
        h = Hang(
            "all threads are blocked: "
            + ", ".join(
                "%s in %s" % (t.name, t.why) for t in self.tasks if not t.done
            )
        )
        if self.cur is self.main:
            raise h
        # deliver it in the main task
        self.main.exc = h
        self.main.pred = None
        self._to(self.main)
        raise ThreadKill()

    def _to(self, nxt):
        me = self.cur
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()
        self._woken(me)

    def _woken(self, me):
        if self.killed:
            raise ThreadKill()
        if me is self.main:
            if me.exc is not None:
                e, me.exc = me.exc, None
                raise e
        if self.c.failed is not None:
            raise self.c.failed

    # -- tasks -------------------------------------------------------------
    def spawn(self, fn, args=(), kwargs=None, daemon=True, name=None):
        t = Task(name or "thread-%d" % len(self.tasks), daemon)

        def body():
            t.sem.acquire()
            try:
                if not self.killed:
                    fn(*args, **(kwargs or {}))
            except (ThreadKill, core.Steer):
                pass
            except SystemExit:
                pass
            except core.EngineError as e:
                self.main.exc = e
            except BaseException as e:
                self.unhandled.append((t.name, e))
            finally:
                t.done = True
                if not self.killed:
                    self._finish(t)

        t.thread = _th.Thread(target=body, daemon=True)
        self.tasks.append(t)
        t.thread.start()
        self.point()
        return t

    def _finish(self, t):
        if self.c.failed is not None or self.main.exc is not None:
            nxt = self.main
        else:
            try:
                cands = self._cands()
                if not cands:
                    timed = [x for x in self.tasks if not x.done and x.timed]
                    if timed:
                        timed[0].timed_out = True
                        cands = [timed[0]]
                if cands:
                    nxt = self._pick(cands, False)
                else:
                    self.main.exc = Hang(
                        "all threads are blocked: "
                        + ", ".join(
                            "%s in %s" % (x.name, x.why)
                            for x in self.tasks
                            if not x.done
                        )
                    )
                    nxt = self.main
            except core.Steer:
                nxt = self.main
            except BaseException as e:
                self.main.exc = e
                nxt = self.main
        self.cur = nxt
        nxt.sem.release()

    def settle(self):
        """Main is done: run the other threads until they end or block."""
        while True:
            cands = [t for t in self._cands() if t is not self.main]
            if not cands:
                return [t for t in self.tasks if not t.done and t is not self.main]
            self._to_others(cands[0])

    def _to_others(self, nxt):
        main = self.main
        stop = {"v": False}
        main.pred = lambda: not [
            t for t in self.tasks if t is not main and t.runnable()
        ]
        main.why = "exit"
        try:
            self._to(nxt)
        finally:
            main.pred = None

    def shutdown(self):
        self.killed = True
        for t in self.tasks:
            if t is not self.main and not t.done:
                t.sem.release()
                t.thread.join(10)


class ScriptCtx:
    """Stands for the path context when a schedule is replayed on the real code."""

    def __init__(self, params):
        self.p, self.n = params, 0
        self.failed = None
        self.extra = {}
        self.queues = []

    def tick(self):
        pass

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        k = name if self.n == 0 else "%s#%d" % (name, self.n)
        self.n += 1
        i = self.p.get(k, 0)
        return options[i if i < len(options) else 0]

    def on_put(self, *a):
        pass

    def on_get(self, *a):
        pass


def script_into(module, params, preempt=None):
    """Make the threads of a real module follow the schedule in 'params'."""
    import _thread

    c = ScriptCtx(params)
    sched = Sched(c, "explore")
    sched.preempt = preempt
    stubs = make_modules(sched, c)
    saved = {}
    real = {_th: stubs["threading"], _thread: stubs["_thread"], _queue: stubs["queue"]}
    names = {}
    for rm, st in real.items():
        for n, v in vars(st).items():
            r = getattr(rm, n, None)
            if r is not None and callable(r):
                names[id(r)] = v
    for n, v in list(vars(module).items()):
        if isinstance(v, types.ModuleType) and v in real:
            saved[n] = v
            setattr(module, n, real[v])
        elif id(v) in names:
            saved[n] = v
            setattr(module, n, names[id(v)])

    def restore():
        for n, v in saved.items():
            setattr(module, n, v)
        sched.shutdown()

    return sched, restore


# ---------------------------------------------------------------------------
# synchronisation objects
# ---------------------------------------------------------------------------


def make_modules(sched, world):
    Empty, Full = _queue.Empty, _queue.Full

    class Lock:
        def __init__(self):
            self._owner = None
            self._n = 0

        _re = False

        def acquire(self, blocking=True, timeout=-1):
            if self._re and self._owner is sched.cur:
                self._n += 1
                return True
            if self._owner is not None and not blocking:
                return False
            ok = sched.block(
                lambda: self._owner is None,
                "Lock.acquire",
                None if timeout is None or timeout < 0 else timeout,
            )
            if not ok:
                return False
            self._owner = sched.cur
            self._n = 1
            return True

        def release(self):
            if self._owner is None:
                raise RuntimeError("release unlocked lock")
            self._n -= 1
            if self._n == 0:
                self._owner = None
            sched.point()

        def locked(self):
            return self._owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        _re = True

    class Condition:
        def __init__(self, lock=None):
            self._lock = lock or RLock()
            self._tickets = []

        def acquire(self, *a, **k):
            return self._lock.acquire(*a, **k)

        def release(self):
            self._lock.release()

        def __enter__(self):
            self._lock.acquire()
            return self

        def __exit__(self, *a):
            self._lock.release()

        def wait(self, timeout=None):
            tk = [False]
            self._tickets.append(tk)
            n = self._lock._n
            self._lock._owner, self._lock._n = None, 0
            ok = sched.block(lambda: tk[0], "Condition.wait", timeout)
            if not ok and tk in self._tickets:
                self._tickets.remove(tk)
            sched.block(lambda: self._lock._owner is None, "Condition.wait")
            self._lock._owner, self._lock._n = sched.cur, n
            return ok

        def wait_for(self, pred, timeout=None):
            while not pred():
                if not self.wait(timeout):
                    return pred()
            return True

        def notify(self, n=1):
            for _ in range(min(n, len(self._tickets))):
                self._tickets.pop(0)[0] = True

        def notify_all(self):
            self.notify(len(self._tickets))

        notifyAll = notify_all

    class Event:
        def __init__(self):
            self._f = False

        def is_set(self):
            sched.point()
            return self._f

        isSet = is_set

        def set(self):
            self._f = True
            sched.point()

        def clear(self):
            self._f = False

        def wait(self, timeout=None):
            return sched.block(lambda: self._f, "Event.wait", timeout)

    class Semaphore:
        def __init__(self, value=1):
            self._v = value

        def acquire(self, blocking=True, timeout=None):
            if not blocking and self._v <= 0:
                return False
            if not sched.block(lambda: self._v > 0, "Semaphore.acquire", timeout):
                return False
            self._v -= 1
            return True

        def release(self, n=1):
            self._v += n
            sched.point()

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class BoundedSemaphore(Semaphore):
        pass

    class Queue:
        def __init__(self, maxsize=0):
            if isinstance(maxsize, SymInt):
                maxsize = ctx().concretise(maxsize.t, "queue size")
            self.maxsize = maxsize
            self._init()
            self.unfinished_tasks = 0
            world.queues.append(self)

        def _init(self):
            self.queue = collections.deque()

        def _putitem(self, x):
            self.queue.append(x)

        def _getitem(self):
            return self.queue.popleft()

        def _full(self):
            return self.maxsize > 0 and len(self.queue) >= self.maxsize

        def qsize(self):
            return len(self.queue)

        def empty(self):
            return not self.queue

        def full(self):
            return self._full()

        def put(self, item, block=True, timeout=None):
            world.on_put(self, item, False)
            if not block:
                sched.point()
                if self._full():
                    raise Full
            elif not sched.block(lambda: not self._full(), "Queue.put", timeout):
                raise Full
            self._putitem(item)
            self.unfinished_tasks += 1
            world.on_put(self, item, True)
            sched.point()

        def put_nowait(self, item):
            return self.put(item, False)

        def get(self, block=True, timeout=None):
            if not block:
                sched.point()
                if not self.queue:
                    raise Empty
            elif not sched.block(lambda: bool(self.queue), "Queue.get", timeout):
                raise Empty
            item = self._getitem()
            world.on_get(self, item)
            sched.point()
            return item

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            if self.unfinished_tasks <= 0:
                raise ValueError("task_done() called too many times")
            self.unfinished_tasks -= 1

        def join(self):
            sched.block(lambda: self.unfinished_tasks == 0, "Queue.join")

    class LifoQueue(Queue):
        def _getitem(self):
            return self.queue.pop()

    class SimpleQueue(Queue):
        def __init__(self):
            Queue.__init__(self, 0)

    class Thread:
        _n = 0

        def __init__(
            self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None
        ):
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            Thread._n += 1
            self.name = name or "Thread-%d" % Thread._n
            self.daemon = bool(daemon)
            self._task = None

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._task is not None:
                raise RuntimeError("threads can only be started once")
            self._task = True
            self._task = sched.spawn(self.run, daemon=self.daemon, name=self.name)

        def join(self, timeout=None):
            t = self._task
            if t is None:
                raise RuntimeError("cannot join thread before it is started")
            if t is True:
                t = sched.tasks[-1]
            sched.block(lambda: t.done, "Thread.join", timeout)

        def is_alive(self):
            sched.point()
            return (
                self._task is not None
                and self._task is not True
                and not self._task.done
            )

        isAlive = is_alive

        def setDaemon(self, d):
            self.daemon = d

        def getName(self):
            return self.name

    def start_new_thread(fn, args, kwargs=None):
        sched.spawn(fn, args, kwargs, daemon=True)
        return len(sched.tasks)

    threading = types.SimpleNamespace(
        Thread=Thread,
        Lock=Lock,
        RLock=RLock,
        Condition=Condition,
        Event=Event,
        Semaphore=Semaphore,
        BoundedSemaphore=BoundedSemaphore,
        current_thread=lambda: types.SimpleNamespace(name=sched.cur.name, daemon=sched.cur.daemon),
        currentThread=lambda: types.SimpleNamespace(name=sched.cur.name, daemon=sched.cur.daemon),
        main_thread=lambda: types.SimpleNamespace(name="main"),
        get_ident=lambda: id(sched.cur),
        active_count=lambda: len([t for t in sched.tasks if not t.done]),
        local=lambda: types.SimpleNamespace(),
        excepthook=None,
    )
    thread = types.SimpleNamespace(
        start_new_thread=start_new_thread,
        start_new=start_new_thread,
        allocate_lock=Lock,
        allocate=Lock,
        get_ident=threading.get_ident,
        exit=lambda: (_ for _ in ()).throw(SystemExit()),
        error=RuntimeError,
    )
    queue = types.SimpleNamespace(
        Queue=Queue,
        LifoQueue=LifoQueue,
        SimpleQueue=SimpleQueue,
        Empty=Empty,
        Full=Full,
    )
    return {"threading": threading, "_thread": thread, "queue": queue}
