"""Controlled runtimes: asyncio and trio under an explorer-owned environment.

Every source of nondeterminism an ASGI application meets on a real event loop
is an *environment action* chosen by the explorer: when receive()/send()
complete, when the client disconnects, when a worker thread finishes, when a
timer fires, in which order trio runs a batch.  The event loops themselves are
the real ones (CPython's BaseEventLoop._run_once, trio's unrolled_run) with
only their poll step replaced.
"""
from __future__ import annotations

import asyncio
import asyncio.base_events
import contextvars
import gc
import itertools
import threading

from mc.core import Stuck


class Deadlock(BaseException):
    pass


MAX_TICKS = 20000
FOREVER = 1e6  # seconds; a timer further away never fires
SPIN = 400  # consecutive non-idle ticks before the environment is forced to act


class Env:
    """Pending environment actions, fired by the loop's poll step."""

    def __init__(self, ch=None, early=1, fifo=False, order=True):
        self.ch = ch
        self.early = early  # deviation cost of firing while tasks are runnable; None: never
        self.fifo = fifo  # only the oldest action is offered (no reordering)
        self.order = order  # explore orders at idle
        self.actions = {}  # id -> (label, fn, background)
        self._ids = itertools.count()
        self.ticks = 0
        self.spins = 0
        self.jumps = 0
        self.fired = []
        self.deadlock = False
        self.on_deadlock = None
        self.quiet = False  # after the main task ended
        self.main_done = False

    def add(self, label, fn, background=False):
        i = next(self._ids)
        self.actions[i] = (label, fn, background)
        return i

    def drop(self, i):
        self.actions.pop(i, None)

    def _fire(self, i):
        label, fn, _ = self.actions.pop(i)
        self.fired.append(label)
        fn()

    def _ids_in_order(self):
        fg = [i for i, a in self.actions.items() if not a[2]]
        bg = [i for i, a in self.actions.items() if a[2]]
        return fg + bg

    def idle(self):
        """No task can run.  Fire something; False if nothing can ever happen."""
        self.spins = 0
        self._count()
        ids = self._ids_in_order()
        if not ids:
            return False
        k = 0
        if len(ids) > 1 and self.ch is not None and self.order and not self.quiet:
            k = self.ch.choose(1 if self.fifo else len(ids))
        self._fire(ids[k])
        self._more()
        return True

    def time_passes(self):
        """A timer is due before the environment acts?  Free the first times, a deviation later (polling loops)."""
        if self.ch is None or self.quiet:
            return False
        self.jumps += 1
        return self.ch.choose(2, 0 if self.jumps <= 3 else 1)

    def busy(self):
        """Tasks are runnable; the environment may still act (a deviation)."""
        self._count()
        self.spins += 1
        if not self.actions:
            return
        if self.spins > SPIN:
            self.spins = 0
            self._fire(self._ids_in_order()[0])
            return
        self._more()

    def _more(self):
        while self.actions and self.early is not None and self.ch is not None and not self.quiet:
            ids = self._ids_in_order()
            if self.fifo:
                ids = ids[:1]
            k = self.ch.choose(1 + len(ids), self.early)
            if not k:
                return
            self._fire(ids[k - 1])

    def _count(self):
        self.ticks += 1
        if self.ticks > MAX_TICKS:
            raise Stuck("no progress after %d event loop iterations (livelock)" % MAX_TICKS)


class Gate:
    """`await gate.wait()` suspends until the environment lets it go."""

    def __init__(self, env):
        self.env = env

    async def wait(self, label, background=False):
        import anyio

        ev = anyio.Event()
        i = self.env.add(label, ev.set, background)
        try:
            await ev.wait()
        finally:
            self.env.drop(i)


# ------------------------------------------------------------------ asyncio


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        env = loop.env
        if env is None:
            if timeout is None:
                raise Deadlock()
            if timeout > 0:
                loop.vtime += timeout
            return []
        if loop._stopping:
            return []
        if loop._ready:
            env.busy()
            return []
        # idle
        if timeout is not None and timeout > 0 and loop._scheduled[0]._when - loop.vtime < FOREVER:
            # a timer is pending: either the environment acts first or time passes
            if env.actions:
                if env.time_passes():
                    loop.vtime += timeout
                    return []
                env.idle()
                return []
            env._count()
            loop.vtime += timeout
            return []
        if not env.idle():
            env.deadlock = True
            if env.on_deadlock is not None:
                fn, env.on_deadlock = env.on_deadlock, None
                fn()
                return []
            raise Deadlock()
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class MCLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.env = None
        self.vtime = 0.0
        self._selector = _Selector(self)
        self.set_exception_handler(self._record)
        self.problems = []

    @staticmethod
    def _record(loop, context):
        loop.problems.append(str(context.get("message")))

    def time(self):
        return self.vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _make_self_pipe(self):
        pass


_loop = None


def _get_loop():
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = MCLoop()
    return _loop


def _discard_loop():
    global _loop
    _loop = None


class Outcome:
    __slots__ = ("value", "exc", "leaked", "deadlock", "env", "problems")

    def __init__(self):
        self.value = None
        self.exc = None
        self.leaked = []
        self.deadlock = False
        self.env = None
        self.problems = []


def run_asyncio(fn, env=None):
    """Run `await fn()` to completion on the controlled asyncio loop."""
    loop = _get_loop()
    if loop._ready:
        loop._ready.clear()
    if loop._scheduled:
        loop._scheduled.clear()
    gc.disable()  # cyclic collection may run async generator finalisers: keep it between executions
    try:
        return _run_asyncio(loop, fn, env or Env(None))
    finally:
        gc.enable()


def _run_asyncio(loop, fn, env):
    out = Outcome()
    out.env = env
    loop.env = env
    loop.problems = out.problems
    ctx = contextvars.Context()
    task = loop.create_task(fn(), context=ctx)

    def on_deadlock():
        task.cancel()

    env.on_deadlock = on_deadlock
    try:
        out.value = loop.run_until_complete(task)
    except Deadlock:
        env.deadlock = True
    except Stuck:
        _discard_loop()
        loop.env = None
        raise
    except BaseException as exc:
        if env.deadlock and isinstance(exc, asyncio.CancelledError):
            pass
        else:
            out.exc = exc
    out.deadlock = env.deadlock
    env.main_done = True
    env.quiet = True
    if task.done():
        # give stragglers (async generator finalisers, callbacks) some ticks
        if loop._ready:
            for _ in range(12):
                if not loop._ready:
                    break
                loop.call_soon(loop.stop)
                loop.run_forever()
        left = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if left:
            out.leaked = [_task_name(t) for t in left]
            for t in left:
                t.cancel()
            try:
                for _ in range(20):
                    if all(t.done() for t in left):
                        break
                    loop.call_soon(loop.stop)
                    loop.run_forever()
            except BaseException:
                pass
            if not all(t.done() for t in left):
                _discard_loop()
        if loop._scheduled:
            for h in list(loop._scheduled):
                h.cancel()
    else:
        out.leaked = ["main"]
        _discard_loop()
    loop.env = None
    return out


def _task_name(t):
    co = t.get_coro()
    return getattr(co, "__qualname__", repr(co))


# --------------------------------------------------------------------- trio

_trio_env = None
_trio_installed = False


def _install_trio():
    global _trio_installed
    if _trio_installed:
        return
    _trio_installed = True
    import sys

    import trio._core._io_epoll as io_epoll
    import trio._core._run as trun

    orig = io_epoll.EpollIOManager.get_events

    def get_events(self, timeout):
        env = _trio_env
        if env is None:
            return orig(self, timeout)
        runner = trun.GLOBAL_RUN_CONTEXT.runner
        clock = runner.clock
        if env.main_done:
            return orig(self, timeout)
        real = orig(self, 0)  # run_sync_soon wakeups (async generator finalisers)
        if real:
            return real
        if runner.runq:
            env.busy()
            return []
        if runner.waiting_for_idle:
            return []
        deadline = runner.deadlines.next_deadline()
        if deadline != float("inf") and deadline < clock.now + FOREVER:
            if env.actions:
                if env.time_passes():
                    clock.now = max(clock.now, deadline)
                    return []
                env.idle()
                return []
            clock.now = max(clock.now, deadline)
            return []
        if not env.idle():
            env.deadlock = True
            if env.on_deadlock is not None:
                fn, env.on_deadlock = env.on_deadlock, None
                fn()
                return []
            raise Deadlock()
        return []

    io_epoll.EpollIOManager.get_events = get_events

    class _R:
        real = trun._r

        def random(self):
            env = _trio_env
            if env is None:
                return self.real.random()
            batch = sys._getframe(1).f_locals.get("batch")
            if not batch or len(batch) < 2:
                return 1.0
            # canonical order (creation), trio pops from the end
            batch.sort(key=lambda t: -t._counter)
            if env.ch is None or env.quiet or not getattr(env, "batches", True):
                return 1.0
            return 0.0 if env.ch.choose(2, 1) else 1.0

        def __getattr__(self, name):
            return getattr(self.real, name)

    trun._r = _R()


class _Clock:
    """Virtual trio clock."""

    def __init__(self):
        self.now = 0.0

    def start_clock(self):
        pass

    def current_time(self):
        return self.now

    def deadline_to_sleep_time(self, deadline):
        return max(0.0, deadline - self.now)


def run_trio(fn, env=None):
    global _trio_env
    import trio

    _install_trio()
    env = env or Env(None)
    out = Outcome()
    out.env = env
    _trio_env = env
    gc.disable()
    clock = _make_trio_clock()

    async def main():
        import trio.lowlevel as ll

        me = ll.current_task()
        before = set(_trio_user_tasks())
        with trio.CancelScope() as scope:
            env.on_deadlock = scope.cancel
            try:
                out.value = await fn()
            except trio.Cancelled:
                raise
            except BaseException as exc:
                out.exc = exc
        env.on_deadlock = None
        env.main_done = True
        env.quiet = True
        out.leaked = [t.name for t in _trio_user_tasks() if t not in before and t is not me]

    try:
        trio.run(main, clock=clock)
    except Deadlock:
        env.deadlock = True
    except trio.TrioInternalError as exc:
        if isinstance(exc.__cause__, Deadlock):
            env.deadlock = True
        elif isinstance(exc.__cause__, Stuck):
            raise exc.__cause__
        else:
            raise
    finally:
        _trio_env = None
        gc.enable()
    out.deadlock = env.deadlock
    return out


def _trio_user_tasks():
    import trio._core._run as trun

    runner = trun.GLOBAL_RUN_CONTEXT.runner
    main = runner.main_task
    res = []
    todo = list(runner.tasks)
    for t in todo:
        p = t
        while p is not None and p is not main:
            nur = p._parent_nursery
            p = nur._parent_task if nur is not None else None
        if p is main:
            res.append(t)
    return res


_clock_cls = None


def _make_trio_clock():
    global _clock_cls
    if _clock_cls is None:
        import trio

        class C(_Clock, trio.abc.Clock):
            pass

        _clock_cls = C
    return _clock_cls()


def run(fn, env=None, backend="asyncio"):
    return run_asyncio(fn, env) if backend == "asyncio" else run_trio(fn, env)


# ------------------------------------------------------------ worker threads


class VThreads:
    """How `anyio.to_thread.run_sync` behaves: 'inline' (checkpoint, then run),
    'env' (start and completion are environment actions), 'baton' (a real thread in
    lockstep; its start and its return from every call into the loop are environment
    actions), 'real'."""

    mode = "inline"
    plain = None
    in_worker = 0
    jobs = 0
    active = 0
    max_active = 0


VT = VThreads


def _call_in_worker(func, args, ctx):
    """Run func like a worker thread would: no running loop, no async library."""
    loop = asyncio._get_running_loop()
    asyncio._set_running_loop(None)
    VT.in_worker += 1
    VT.jobs += 1
    try:
        return ctx.run(func, *args)
    finally:
        VT.in_worker -= 1
        asyncio._set_running_loop(loop)


def install():
    """Patch anyio's worker thread entry points and make its sets ordered."""
    import anyio._backends._asyncio as ab
    import sniffio
    from anyio import CapacityLimiter  # noqa: F401

    class OrderedSet(dict):
        """Insertion-ordered set: iteration order must not depend on addresses."""

        def __init__(self, it=()):
            super().__init__()
            for i in it:
                self[i] = None

        def add(self, x):
            self[x] = None

        def discard(self, x):
            self.pop(x, None)

        def remove(self, x):
            del self[x]

        def copy(self):
            return OrderedSet(self)

        def clear(self):
            dict.clear(self)

        def update(self, *its):
            for it in its:
                for i in it:
                    self[i] = None

        def difference_update(self, other):
            for i in list(other):
                self.pop(i, None)

        def __reversed__(self):
            return iter(list(self)[::-1])

    ab.set = OrderedSet

    def patch(cls, is_trio):
        orig = cls.run_sync_in_worker_thread

        async def run_sync_in_worker_thread(cls, func, args, abandon_on_cancel=False, limiter=None):
            if VT.mode == "real":
                return await orig.__func__(cls, func, args, abandon_on_cancel, limiter)
            await cls.checkpoint()
            async with limiter or cls.current_default_thread_limiter():
                ctx = contextvars.copy_context()
                ctx.run(sniffio.current_async_library_cvar.set, None)
                if VT.mode == "inline" or (VT.plain is not None and VT.plain(func)):
                    return _call_in_worker(func, args, ctx)
                if VT.mode == "baton":
                    return await _run_baton(cls, func, args, ctx, abandon_on_cancel)
                return await VT.run_env(cls, func, args, ctx, abandon_on_cancel)

        cls.run_sync_in_worker_thread = classmethod(run_sync_in_worker_thread)
        oasync, osync = cls.run_async_from_thread, cls.run_sync_from_thread

        def run_async_from_thread(cls, func, args, token):
            b = getattr(_here, "baton", None)
            if b is None:
                return oasync.__func__(cls, func, args, token)
            return b.ask(True, func, args)

        def run_sync_from_thread(cls, func, args, token):
            b = getattr(_here, "baton", None)
            if b is None:
                return osync.__func__(cls, func, args, token)
            return b.ask(False, func, args)

        cls.run_async_from_thread = classmethod(run_async_from_thread)
        cls.run_sync_from_thread = classmethod(run_sync_from_thread)

    patch(ab.AsyncIOBackend, False)
    try:
        import anyio._backends._trio as tb

        patch(tb.TrioBackend, True)
    except Exception:  # pragma: no cover
        pass


async def _run_env(cls, func, args, ctx, abandon_on_cancel):
    import anyio

    env = VT.env()
    done = anyio.Event()
    box = []

    def start():
        VT.active += 1
        VT.max_active = max(VT.max_active, VT.active)
        try:
            box.append((True, _call_in_worker(func, args, ctx)))
        except BaseException as exc:
            box.append((False, exc))
        finally:
            VT.active -= 1
        done.set()

    env.add("thread:" + getattr(func, "__name__", type(func).__name__), start)
    with anyio.CancelScope(shield=not abandon_on_cancel):
        await done.wait()
    ok, val = box[0]
    if ok:
        return val
    raise val


_here = threading.local()
_idle_batons = []


class _Killed(BaseException):
    pass


class _Baton:
    """A real thread that runs in lockstep with the event loop: it only runs
    while the loop thread waits for it in resume()."""

    def __init__(self):
        import os

        self.pid = os.getpid()
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        threading.Thread(target=self._main, daemon=True).start()

    # in the helper thread
    def _main(self):
        from anyio._core._eventloop import claim_worker_thread

        _here.baton = self
        while True:
            self.go.acquire()
            cls, func, args, ctx = self.inbox
            try:
                with claim_worker_thread(cls, object()):
                    self.msg = ("done", True, ctx.run(func, *args))
            except BaseException as exc:
                self.msg = ("done", False, exc)
            self.inbox = cls = func = args = ctx = None
            self.back.release()

    def ask(self, is_async, func, args):
        self.msg = ("call", is_async, func, args)
        self.back.release()
        self.go.acquire()
        ok, val = self.inbox
        if ok:
            return val
        raise val

    # in the loop's thread
    def resume(self, value):
        self.inbox = value
        VT.in_worker += 1
        try:
            self.go.release()
            self.back.acquire()
        finally:
            VT.in_worker -= 1
        return self.msg


async def _run_baton(cls, func, args, ctx, abandon_on_cancel):
    import os

    import anyio

    env = VT.env()
    while True:
        b = _idle_batons.pop() if _idle_batons else _Baton()
        if b.pid == os.getpid():
            break
    VT.jobs += 1
    VT.active += 1
    VT.max_active = max(VT.max_active, VT.active)
    state = {}

    def step(value):
        def act():
            state["msg"] = b.resume(value)
            state["ev"].set()

        state["ev"] = anyio.Event()
        env.add("thread:" + ("start" if len(value) == 4 else "resume"), act)

    step((cls, func, args, ctx))
    try:
        with anyio.CancelScope(shield=not abandon_on_cancel):
            while True:
                await state["ev"].wait()
                msg = state["msg"]
                if msg[0] == "done":
                    break
                try:
                    val = msg[2](*msg[3])
                    if msg[1]:
                        val = await val
                except Exception as exc:
                    step((False, exc))
                else:
                    step((True, val))
    finally:
        VT.active -= 1
        msg = state.get("msg")
        for _ in range(100):
            if msg is None or msg[0] == "done":
                break
            msg = b.resume((False, _Killed()))
        if msg is not None and msg[0] == "done":
            _idle_batons.append(b)
    if msg[1]:
        return msg[2]
    raise msg[2]


def _cur_env():
    if _trio_env is not None:
        return _trio_env
    return _get_loop().env


VT.run_env = staticmethod(_run_env)
VT.env = staticmethod(_cur_env)


class vthreads:
    """Context manager selecting the worker thread mode."""

    def __init__(self, mode, plain=None):
        self.mode = mode
        self.plain = plain  # functions that run inline all the same

    def __enter__(self):
        self.old = VT.mode, VT.plain
        VT.mode, VT.plain = self.mode, self.plain
        VT.jobs = 0
        VT.max_active = 0
        VT.active = 0
        VT.in_worker = 0

    def __exit__(self, *a):
        VT.mode, VT.plain = self.old
