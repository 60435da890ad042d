"""C34 Sync code runs off the event loop with async semantics."""
from __future__ import annotations

import asyncio
import contextvars
import functools
import inspect
import itertools
import threading
import warnings

from mc import asgi, errors, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool, run_until_first_complete
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute

C = Check("C34", [
    "a callable is async if calling it gives a coroutine and inspect can tell; sync wrappers that return coroutines are not",
    "StopIteration cannot leave a coroutine (PEP 479); functions that raise it are not explored",
    "callable objects as Route endpoints are ASGI applications, not endpoints",
])

CV = contextvars.ContextVar("c34", default="unset")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def here():
    """What the code being called can tell about where it runs."""
    try:
        asyncio.get_running_loop()
        loop = True
    except RuntimeError:
        loop = False
    return ("loop" if not rt.VT.in_worker else "worker", CV.get())


# ------------------------------------------------------------- callable kinds

class Core:
    """The body of the callable: notes its arguments and where it runs, then does `outcome`."""

    def __init__(self, outcome):
        self.outcome = outcome
        self.calls = []

    def run(self, args, kw):
        self.calls.append((here(), args, kw))
        return self.outcome(args, kw)


def kinds(core):
    """name -> (callable, is it async, extra positional args bound, extra keyword args bound)"""

    def f(*args, **kw):
        return core.run(args, kw)

    async def af(*args, **kw):
        return core.run(args, kw)

    class Obj:
        def __call__(self, *args, **kw):
            return core.run(args, kw)

    class AObj:
        async def __call__(self, *args, **kw):
            return core.run(args, kw)

    class M:
        def m(self, *args, **kw):
            return core.run(args, kw)

        async def am(self, *args, **kw):
            return core.run(args, kw)

        @classmethod
        def c(cls, *args, **kw):
            return core.run(args, kw)

        @classmethod
        async def ac(cls, *args, **kw):
            return core.run(args, kw)

        @staticmethod
        def s(*args, **kw):
            return core.run(args, kw)

        @staticmethod
        async def as_(*args, **kw):
            return core.run(args, kw)

        pm = functools.partialmethod(m, "b", k=1)
        apm = functools.partialmethod(am, "b", k=1)

    class Sub(functools.partial):
        pass

    class Cls:
        """Calling it makes an instance, which is the result; the instances are async callables."""

        def __new__(cls, *args, **kw):
            return core.run(args, kw)

        async def __call__(self):  # pragma: no cover
            raise AssertionError("an instance was called")

    @functools.wraps(af)
    async def wrapped(*args, **kw):
        return await af(*args, **kw)

    @functools.wraps(f)
    def swrapped(*args, **kw):
        return f(*args, **kw)

    def named(q):
        """A partial with attributes is not merged into a partial around it."""
        return functools.update_wrapper(q, af)

    m = M()
    p = functools.partial
    marked = inspect.markcoroutinefunction(lambda *args, **kw: af(*args, **kw))
    return {
        "def": (f, 0, (), {}),
        "async def": (af, 1, (), {}),
        "lambda": (lambda *args, **kw: core.run(args, kw), 0, (), {}),
        "marked lambda": (marked, 1, (), {}),
        "partial": (p(f, "b", k=1), 0, ("b",), {"k": 1}),
        "partial async": (p(af, "b", k=1), 1, ("b",), {"k": 1}),
        "partial2": (p(p(f, "b"), "c", k=1), 0, ("b", "c"), {"k": 1}),
        "partial2 async": (p(p(af, "b"), "c", k=1), 1, ("b", "c"), {"k": 1}),
        "partial3": (p(Sub(p(f), k=2), k=1), 0, (), {"k": 1}),
        "partial3 async": (p(Sub(p(af), k=2), k=1), 1, (), {"k": 1}),
        "object": (Obj(), 0, (), {}),
        "async object": (AObj(), 1, (), {}),
        "partial object": (p(Obj(), k=1), 0, (), {"k": 1}),
        "partial async object": (p(p(AObj()), k=1), 1, (), {"k": 1}),
        "nested partial async object": (p(Sub(p(AObj()), k=2), k=1), 1, (), {"k": 1}),
        "nested partial object": (p(Sub(p(Obj()), k=2), k=1), 0, (), {"k": 1}),
        "nested partial subclass": (Sub(Sub(AObj()), k=1), 1, (), {"k": 1}),
        "named partials async": (p(named(p(named(p(af, "b")), "c")), k=1), 1, ("b", "c"), {"k": 1}),
        "named partials async object": (p(named(p(named(p(AObj())), k=3)), k=1), 1, (), {"k": 1}),
        "method": (m.m, 0, (), {}),
        "async method": (m.am, 1, (), {}),
        "partial method": (p(m.m, k=1), 0, (), {"k": 1}),
        "partial async method": (p(m.am, k=1), 1, (), {"k": 1}),
        "classmethod": (M.c, 0, (), {}),
        "async classmethod": (M.ac, 1, (), {}),
        "staticmethod": (M.s, 0, (), {}),
        "async staticmethod": (m.as_, 1, (), {}),
        "partialmethod": (m.pm, 0, ("b",), {"k": 1}),
        "async partialmethod": (m.apm, 1, ("b",), {"k": 1}),
        "call method of object": (Obj().__call__, 0, (), {}),
        "call method of async object": (AObj().__call__, 1, (), {}),
        "class": (Cls, 0, (), {}),
        "partial class": (p(Cls, k=1), 0, (), {"k": 1}),
        "wraps": (swrapped, 0, (), {}),
        "async wraps": (wrapped, 1, (), {}),
    }


KINDS = list(kinds(Core(None)))
FUNCTIONS = [k for k in KINDS if "object" not in k and "class" not in k.replace("classmethod", "")] + ["call method of object",
                                                                                                       "call method of async object"]


def marker(val="outer"):
    """ASGI middleware that sets the context variable before calling the app."""

    class Mark:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            CV.set(val)
            await self.app(scope, receive, send)

    return Middleware(Mark)


# each site: (build(f) -> application, request scope, outcome expectations)

def site_route(f):
    return Starlette(routes=[Route("/", f)], middleware=[marker()])


def site_mounted(f):
    return Starlette(routes=[Mount("/m", routes=[Route("/", f, methods=["POST"])])], middleware=[marker()])


def site_endpoint(f):
    class E(HTTPEndpoint):
        get = staticmethod(f)

    return Starlette(routes=[Route("/", E)], middleware=[marker()])


def site_endpoint_plain(f):
    class E(HTTPEndpoint):
        post = staticmethod(f)

    async def app(scope, receive, send):
        CV.set("outer")
        await E(scope, receive, send)

    return app


def raiser(exc):
    async def endpoint(request):
        CV.set("endpoint")
        raise exc

    return endpoint


def site_handler(f):
    return Starlette(routes=[Route("/", raiser(Boom()))], exception_handlers={Boom: f}, middleware=[marker()])


def site_status(f):
    return Starlette(routes=[Route("/", raiser(HTTPException(418)))], exception_handlers={418: f}, middleware=[marker()])


def site_outer(f):
    """Raised by middleware: handled by the outer ExceptionMiddleware."""

    class Raise:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            raise HTTPException(418)

    return Starlette(exception_handlers={418: f, 404: f}, middleware=[marker()])


def site_500(f):
    return Starlette(routes=[Route("/", raiser(Boom()))], exception_handlers={Exception: f}, middleware=[marker("mid")])


def site_500n(f):
    return Starlette(routes=[Route("/", raiser(Boom()))], exception_handlers={500: f})


def bg(f):
    async def endpoint(request):
        CV.set("endpoint")
        return PlainTextResponse("x", background=BackgroundTask(f, "p", q=2))

    return Starlette(routes=[Route("/", endpoint)])


def bgs(f):
    async def endpoint(request):
        CV.set("endpoint")
        tasks = BackgroundTasks([BackgroundTask(f, "p", q=2)])
        return PlainTextResponse("x", background=tasks)

    return Starlette(routes=[Route("/", endpoint)])


def bgs2(f):
    async def endpoint(request):
        CV.set("endpoint")
        tasks = BackgroundTasks()
        tasks.add_task(f, "p", q=2)
        return StreamingResponse(iter(["x"]), background=tasks)

    return Starlette(routes=[Route("/", endpoint)])


def ws_raise(exc):
    async def endpoint(ws):
        CV.set("endpoint")
        raise exc

    return endpoint


def site_ws(f):
    return Starlette(routes=[WebSocketRoute("/", ws_raise(Boom()))], exception_handlers={Boom: f})


# name -> (build, kinds, scope keywords, context seen, what the callable is called with)
SITES = {
    "route": (site_route, FUNCTIONS, {}, "outer", "request"),
    "mounted": (site_mounted, FUNCTIONS, {"path": "/m/", "method": "POST"}, "outer", "request"),
    "endpoint": (site_endpoint, KINDS, {}, "outer", "request"),
    "endpoint outside an app": (site_endpoint_plain, KINDS, {"method": "POST"}, "outer", "request"),
    "handler": (site_handler, KINDS, {}, "endpoint", "request, exc"),
    "status handler": (site_status, KINDS, {}, "endpoint", "request, exc"),
    "404 handler": (site_outer, KINDS, {"path": "/none"}, "outer", "request, exc"),
    "500 handler": (site_500, KINDS, {}, "endpoint", "request, exc"),
    "500 handler by number": (site_500n, KINDS, {}, "endpoint", "request, exc"),
    "background": (bg, KINDS, {}, "endpoint", "task"),
    "background tasks": (bgs, KINDS, {}, "endpoint", "task"),
    "add_task": (bgs2, KINDS, {}, "endpoint", "task"),
    "ws handler": (site_ws, KINDS, {"type": "websocket"}, "endpoint", "ws, exc"),
}
OUTCOMES = ["return", "raise", "http", "base"]


class Result(Response):
    pass


def outcome_fn(kind, site, box):
    def go(args, kw):
        if kind == "return":
            box["value"] = Result(b"result", headers={"x-result": "1"}) if site not in ("ws handler",) else None
            return box["value"]
        box["exc"] = {"raise": ValueError("raised"), "http": HTTPException(409, "raised"), "base": BaseBoom("raised")}[kind]
        raise box["exc"]

    return go


def site_cases(tier):
    for backend in ("asyncio", "trio"):
        for site in SITES:
            for mode in ("inline", "env"):
                yield backend, site, mode


@C.family("sites", site_cases,
          "every callable kind at every place that takes one x outcomes: where it runs, with what arguments and context, result and exception")
def _(case, x):
    backend, site, mode = case
    build, names, kw, cv, args_kind = SITES[site]
    for name in names:
        for how in OUTCOMES:
            box = {}
            core = Core(outcome_fn(how, site, box))
            f, is_async, extra, extra_kw = kinds(core)[name]
            app = build(f)
            sc = asgi.scope(**kw)
            what = (site, name, how, backend, mode)

            def one(ch):
                core.calls.clear()
                box.clear()
                env = rt.Env(ch, early=None)
                srv = asgi.WSServer([{"type": "websocket.connect"}]) if sc["type"] == "websocket" else asgi.Server([{"type": "http.request", "body": b""}])

                async def main():
                    caught = None
                    with rt.vthreads(mode):
                        try:
                            await app(sc, srv.receive, srv.send)
                        except BaseException as exc:
                            if not isinstance(exc, (Exception, BaseBoom)):
                                raise
                            caught = exc
                        return caught, rt.VT.jobs

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                exc, jobs = res.value
                x.check(len(core.calls) == 1, "the callable ran %d times" % len(core.calls), what, short(exc))
                (where, ctx), args, kws = core.calls[0]
                x.eq(where, "loop" if is_async else "worker", "where the callable ran: %r" % (what,))
                x.eq(ctx, cv, "the caller's context: %r" % (what,))
                x.eq(args[:len(extra)], extra, "arguments: %r" % (what,))
                rest = args[len(extra):]
                n = {"request": 1, "request, exc": 2, "ws, exc": 2, "task": 1}[args_kind]
                x.eq(len(rest), n, "number of arguments: %r" % (what,))
                want_kw = dict(extra_kw)
                if args_kind == "task":
                    x.eq(rest, ("p",), "arguments: %r" % (what,))
                    want_kw["q"] = 2
                else:
                    x.check(rest[0].scope.get("type") == sc["type"], "not a connection", what)
                x.eq(kws, want_kw, "keyword arguments: %r" % (what,))
                judge_site(x, site, how, srv, exc, box, what)

            x.explore(one, 0, cap=100)


def judge_site(x, site, how, srv, exc, box, what):
    if sc_is_ws(site):
        if how != "http":  # (that one becomes a denial response)
            x.check(exc is box.get("exc"), "exception of the handler: %s" % short(exc), what)
        return
    got = asgi.judge(srv.sent, need_complete=False) if srv.sent else None
    if site in ("background", "background tasks", "add_task"):
        x.check(got is not None and got.status == 200 and got.body == b"x", "the response before the background task", what)
        if how == "http":
            # the response is gone already: only that it is not swallowed
            x.check(exc is box["exc"] or (isinstance(exc, RuntimeError) and exc.__cause__ is box["exc"]),
                    "exception of the background task: %s" % short(exc), what)
        else:
            x.check(exc is box.get("exc"), "exception of the background task: %s" % short(exc), what)
        return
    if how == "return":
        x.check(got is not None and got.complete and got.body == b"result" and got.get(b"x-result") == b"1", "the result was not the response", what, got)
        if site.startswith("500"):
            x.check(isinstance(exc, Boom), "the server got %s" % short(exc), what)
        else:
            x.check(exc is None, "the server got %s" % short(exc), what)
    elif how == "http" and not (site.startswith("500") or site.endswith("outside an app") or site == "404 handler"):
        x.check(got is not None and got.complete and got.status == 409 and got.body == b"raised" and exc is None, "HTTPException from sync code", what, short(exc))
    else:
        x.check(exc is box["exc"], "the server got %s instead of the exception raised" % short(exc), what)


def sc_is_ws(site):
    return site == "ws handler"


# --------------------------------------------------------- run_in_threadpool

def rip_cases(tier):
    for backend in ("asyncio", "trio"):
        for n in (1, 2, 3):
            yield backend, n


@C.family("run", rip_cases, "1-3 concurrent run_in_threadpool calls next to a task that takes steps: arguments, result and exception "
                            "identity, context, cancellation, every completion order; no step waits for a worker")
def _(case, x):
    backend, n = case
    outs = ["value", "none", "exc", "base"] if n < 3 else ["value", "exc"]
    for how in itertools.product(outs, repeat=n):
        for cancel in ([None] + list(range(n)) if n < 3 else [None]):
            if cancel is not None and "base" in how:
                continue
            orders = set()

            def one(ch):
                env = rt.Env(ch, early=None if n > 1 else 1)
                log = []
                made = {}
                got = {}
                scopes = {}
                abandoned = [0]

                def work(i, *args, **kw):
                    log.append("work%d" % i)
                    made[i] = (here(), args, kw)
                    if how[i] == "value":
                        made["v%d" % i] = object()
                        return made["v%d" % i]
                    if how[i] == "none":
                        return None
                    made["v%d" % i] = Boom(i) if how[i] == "exc" else BaseBoom(i)
                    raise made["v%d" % i]

                async def call(i):
                    import anyio

                    CV.set("caller%d" % i)
                    with anyio.CancelScope() as scopes[i]:
                        try:
                            got[i] = ("value", await run_in_threadpool(work, i, "a", i, k="v"))
                        except (Boom, BaseBoom) as exc:
                            got[i] = ("exc", exc)
                        log.append("got%d" % i)
                    abandoned[0] += sum(a[0].startswith("thread:") for a in env.actions.values()) if n == 1 else 0

                async def other():
                    for j in range(2):
                        await rt.Gate(env).wait("step%d" % j)
                        log.append("step%d" % j)
                        if j == 0 and cancel is not None:
                            scopes[cancel].cancel()

                async def main():
                    import anyio

                    with rt.vthreads("env"):
                        async with anyio.create_task_group() as tg:
                            for i in range(n):
                                tg.start_soon(call, i)
                            tg.start_soon(other)

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                x.check(not res.deadlock, "a call never came back", case, how)
                x.check(not abandoned[0], "the call ended while its function was still waiting to run", case, how, cancel)
                orders.add(tuple(e for e in log if e[0] in "ws"))
                for i in range(n):
                    if i not in made:
                        x.check(i == cancel, "the function never ran", case, how)
                        continue
                    x.eq(made[i], (("worker", "caller%d" % i), ("a", i), {"k": "v"}), "call %d of %r" % (i, how))
                    if i == cancel:
                        if i in got:
                            continue
                        continue
                    want = {"value": ("value", made.get("v%d" % i)), "none": ("value", None)}.get(how[i], ("exc", made.get("v%d" % i)))
                    x.check(got.get(i) is not None and got[i][0] == want[0] and got[i][1] is want[1], "result of call %d" % i, got.get(i), want)
                x.outcome((how, cancel, tuple(log)))

            x.explore(one, 0 if n > 1 else 1, cap=3000)
            if cancel is None:
                # the other task took its steps in every position relative to the workers
                steps = {tuple(("w" if e.startswith("work") else "s") for e in o) for o in orders}
                want = set(itertools.permutations("w" * n + "ss"))
                x.check(steps == want, "the workers held up other tasks: orders %r" % sorted(want - steps), case, how)


# ------------------------------------------------------------- error classes

ERRORS = errors.table()


def class_cases(tier):
    return [(b, site, at) for b in ("asyncio", "trio") for site in ("run", "iterate", "iterate-own", "stream", "background") for at in ((0,) if site in ("run", "background") else (0, 1, 2))]


@C.family("classes", class_cases, "functions, generators and iterator objects that raise, at each position, every class of error (StopIteration apart): that very error and no early end")
def _(case, x):
    backend, site, at = case
    for name, make in ERRORS.items():
        exc, got = make(), []

        def boom(*a):
            raise exc

        def gen():
            yield from range(at)
            boom()

        class Own:
            n = 0

            def __iter__(self):
                return self

            def __next__(self):
                if self.n == at:
                    boom()
                self.n += 1
                return self.n - 1

        srv = asgi.Server()

        async def main():
            if site == "run":
                await run_in_threadpool(boom, 1)
            elif site == "background":
                await BackgroundTask(boom)()
            elif site == "stream":
                await StreamingResponse(b"%d" % i for i in gen())(asgi.scope("/", spec="2.4"), srv.receive, srv.send)
            else:
                async for i in iterate_in_threadpool(gen() if site == "iterate" else Own()):
                    got.append(i)

        x.step()
        with rt.vthreads("inline"):
            out = rt.run(main, None, backend)
        asgi.settled(out)
        what = "%s raised in %s at %d" % (name, site, at)
        if site == "stream":
            got = [int(m["body"]) for m in srv.sent[1:]]
        x.eq(got, list(range(at)) if site not in ("run", "background") else [], "%s: items before" % what)
        x.check(out.exc is exc, "%s: %s reached the caller" % (what, "nothing" if out.exc is None else short(out.exc)))
        x.outcome((site, name))


# ------------------------------------------------------------- iterate_in_threadpool

class It:
    """A sync iterator that notices everything."""

    def __init__(self, items, fail, log, iter_fail=False, own=True):
        self.items = items
        self.fail = fail
        self.log = log
        self.i = 0
        self.busy = 0
        self.own = own
        self.iter_fail = iter_fail
        self.after = 0
        self.done = False

    def __iter__(self):
        self.log.append(("iter",) + here())
        if self.iter_fail:
            raise Boom("iter")
        return self

    def __next__(self):
        assert not self.busy, "pulled while another pull was under way"
        self.busy = 1
        try:
            self.log.append(("pull", self.i) + here())
            if self.done:
                self.after += 1
                raise StopIteration
            i = self.i
            self.i += 1
            if i == self.fail:
                self.done = True
                raise Boom(i)
            if i >= len(self.items):
                self.done = True
                raise StopIteration
            return self.items[i]
        finally:
            self.busy = 0


def gen(it):
    it.log.append(("iter",) + here())
    try:
        while True:
            try:
                yield it.__next__()
            except StopIteration:
                return
    finally:
        it.log.append(("closed",))


class Seq:
    """The old sequence protocol."""

    def __init__(self, it):
        self.it = it

    def __getitem__(self, i):
        assert i == self.it.i
        try:
            return self.it.__next__()
        except StopIteration:
            raise IndexError(i)


class Lazy:
    """Does its work when asked for its iterator."""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


SHAPES = {
    "iterator": lambda it: it,
    "generator": gen,
    "iterable": Lazy,
    "sequence": Seq,
    "map": lambda it: map(lambda v: v, it),
    "chain": lambda it: itertools.chain([], it),
    "callable": lambda it: iter(it.__next__, object()),
}
ITEMS = ["", None, StopIteration, 0, StopAsyncIteration("item"), Exception]


def iter_cases(tier):
    for backend in ("asyncio", "trio"):
        for shape in SHAPES:
            for n in range(0, 5 if tier != "thorough" else 6):
                yield backend, shape, n


@C.family("iterate", iter_cases, "iterables of 0-4 items in every shape, failure at every position, consumer stops, closes, throws or is cancelled at every "
                                 "position, next to a task that takes steps: items in order, one pull at a time, in a worker, with the puller's context")
def _(case, x):
    backend, shape, n = case
    items = [ITEMS[i % len(ITEMS)] if i else object() for i in range(n)]
    fails = [None] + list(range(n + 1))
    for fail in fails:
        total = n if fail is None else fail
        stops = [None] + [("close", k) for k in range(total + 1)] + [("break", k) for k in range(1, total + 1)] + ["cancel"]
        for stop in stops:
            def one(ch):
                env = rt.Env(ch, early=None if n > 2 else 1)
                log = []
                it = It(items, fail, log)
                got = []
                end = []
                state = {"pulling": 0}

                async def consume():
                    import anyio

                    source = SHAPES[shape](it)
                    log.clear()  # (making a map already asks for its iterator)
                    agen = iterate_in_threadpool(source)
                    CV.set("c0")
                    with anyio.CancelScope() as state["scope"]:
                        try:
                            if isinstance(stop, tuple) and stop[1] == 0:
                                await agen.aclose()
                                end.append("closed")
                                state["pulls at end"] = it.i
                                return
                            async for v in agen:
                                got.append(v)
                                CV.set("c%d" % len(got))
                                if isinstance(stop, tuple) and len(got) == stop[1]:
                                    if stop[0] == "close":
                                        await agen.aclose()
                                        end.append("closed")
                                        break
                                    end.append("left")
                                    break
                            else:
                                end.append("exhausted")
                                # and it stays exhausted
                                async for v in agen:
                                    got.append(v)
                        except Boom as exc:
                            end.append(("boom", exc.args))
                    if state["scope"].cancelled_caught:
                        end.append("cancelled")
                    state["pulls at end"] = it.i + it.after
                    state["abandoned"] = [a[0] for a in env.actions.values() if a[0].startswith("thread:")]
                    if isinstance(stop, tuple) and stop[0] == "break":
                        await agen.aclose()

                async def other():
                    await rt.Gate(env).wait("step")
                    log.append("step")
                    if stop == "cancel":
                        state["scope"].cancel()
                        state["at"] = it.i

                async def main():
                    import anyio

                    with rt.vthreads("env"):
                        async with anyio.create_task_group() as tg:
                            tg.start_soon(consume)
                            tg.start_soon(other)
                    state["max"] = rt.VT.max_active

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                what = (case, fail, stop, log)
                x.check(not res.deadlock, "iteration never ended", what)
                x.check(all(a is b for a, b in zip(got, items)) and len(got) <= total, "items", got, what)
                x.check(state["max"] <= 1, "%d pulls at once" % state["max"], what)
                x.check(not state.get("abandoned"), "the consumer is gone but a pull is still under way", what)
                x.check(it.after == 0, "pulled again after exhaustion or error", what)
                x.check(it.i + it.after == state["pulls at end"], "pulled after the consumer was gone", what)
                for e in log:
                    if e[0] in ("pull", "iter"):
                        x.check(e[-2] == "worker", "%s ran on the event loop" % e[0], what)
                    if e[0] == "pull":
                        x.check(e[-1] == "c%d" % e[1], "context of the pull: %r" % (e,), what)
                if stop == "cancel" and end == ["cancelled"]:
                    x.check(it.i <= state["at"] + 1, "pulled on after cancellation", what)
                    x.check(len(got) <= it.i, "items", what)
                elif isinstance(stop, tuple):
                    x.eq(len(got), stop[1], "items consumed: %r" % (what,))
                    x.eq(it.i, stop[1], "items pulled: %r" % (what,))
                elif fail is not None:
                    x.eq((len(got), end), (fail, [("boom", (fail,))]), "end of the iteration: %r" % (what,))
                else:
                    x.eq((len(got), end), (n, ["exhausted"]), "end of the iteration: %r" % (what,))
                x.outcome((shape, n, fail, stop, tuple(end), len(got)))

            x.explore(one, 1 if n <= 1 else 0, cap=4000)
    # the iterator cannot even be made
    if n == 0 and shape in ("iterable", "chain", "map"):
        def one(ch):
            log = []
            it = It([], None, log, iter_fail=True)

            async def main():
                with rt.vthreads("env"):
                    try:
                        async for v in iterate_in_threadpool(Lazy(it)):
                            raise Violation("an item", v)
                    except Boom as exc:
                        return exc

            res = rt.run(main, rt.Env(ch, early=None), backend)
            x.check(isinstance(res.value, Boom), "the error of iter() is lost", case, res.exc)
            x.eq(log, [("iter", "worker", "unset")], "where iter() ran")

        x.explore(one, 0)


def two_cases(tier):
    for backend in ("asyncio", "trio"):
        for a in range(3):
            for b in range(3):
                yield backend, a, b


@C.family("two", two_cases, "two iterations at once: each gets its own items, whatever the order of the pulls; same for two iterations of one list")
def _(case, x):
    backend, a, b = case
    for shape in ("iterator", "generator", "list"):
        for fa, fb in itertools.product([None] + list(range(a + 1)), [None] + list(range(b + 1))):
            if shape == "list" and (fa, fb) != (None, None):
                continue
            seen = set()

            def one(ch):
                env = rt.Env(ch, early=None)
                log = []
                items = [["a%d" % i for i in range(a)], ["b%d" % i for i in range(b)]]
                its = [It(items[0], fa, log), It(items[1], fb, log)]
                got = [[], []]
                same = items[0] + items[1]

                async def consume(k):
                    src = same if shape == "list" else SHAPES[shape](its[k])
                    CV.set("k%d" % k)
                    try:
                        async for v in iterate_in_threadpool(src):
                            got[k].append(v)
                        got[k].append("end")
                    except Boom as exc:
                        got[k].append(("boom", exc.args))

                async def main():
                    import anyio

                    with rt.vthreads("env"):
                        async with anyio.create_task_group() as tg:
                            tg.start_soon(consume, 0)
                            tg.start_soon(consume, 1)

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                for k, f in ((0, fa), (1, fb)):
                    want = (same if shape == "list" else items[k][:f]) + (["end"] if f is None else [("boom", (f,))])
                    x.eq(got[k], want, "iteration %d of %r" % (k, case))
                x.check({e[3] for e in log if e[0] == "pull"} <= {"k0", "k1"}, "context")
                seen.add((len(seen), tuple(env.fired)))

            x.explore(one, 0, cap=3000)
            x.check(len(seen) > 1, "the pulls were never interleaved", case)


# ------------------------------------------------------------- streamed bodies

def stream_cases(tier):
    for backend in ("asyncio", "trio"):
        for kind in ("list", "tuple", "generator", "iterator", "iterable", "async generator", "async iterable", "both"):
            for spec in ("2.3", "2.4"):
                yield backend, kind, spec


@C.family("stream", stream_cases, "StreamingResponse over sync and async iterables of 0-3 chunks, failing at each position, next to another task: body and error "
                                  "as given, sync code in a worker and one pull per chunk sent, async code on the loop")
def _(case, x):
    backend, kind, spec = case
    for n in range(4 if x.tier == "thorough" or kind == "generator" else 3):
        for fail in [None] + list(range(n + 1)):
            if kind in ("list", "tuple") and fail is not None:
                continue

            def one(ch):
                env = rt.Env(ch, early=1)
                log = []
                chunks = ["c%d;" % i if i % 2 else b"c%d;" % i for i in range(n)]
                it = It(chunks, fail, log)

                async def agen():
                    for i in range(n + 1):
                        log.append(("apull", i) + here())
                        if i == fail:
                            raise Boom(i)
                        if i < n:
                            yield chunks[i]

                class AIt:
                    def __aiter__(self):
                        return agen()

                class Both(AIt):
                    """Sync and async iterable: the async side is used."""

                    def __iter__(self):
                        raise AssertionError("sync iteration of an async iterable")

                src = {"list": lambda: list(chunks), "tuple": lambda: tuple(chunks), "generator": lambda: gen(it), "iterator": lambda: it,
                       "iterable": lambda: Lazy(it), "async generator": agen, "async iterable": AIt, "both": Both}[kind]()

                async def endpoint(request):
                    CV.set("endpoint")
                    return StreamingResponse(src, media_type="text/plain")

                app = Starlette(routes=[Route("/", endpoint)])
                waiting = []

                async def receive():
                    if not waiting:
                        waiting.append(1)
                        return {"type": "http.request", "body": b"", "more_body": False}
                    import anyio

                    await anyio.Event().wait()

                sent = []

                async def send(m):
                    await rt.Gate(env).wait("send")
                    sent.append(m)
                    log.append(("sent",))

                async def other():
                    await rt.Gate(env).wait("step")
                    log.append(("step",))

                async def main():
                    import anyio

                    exc = None
                    with rt.vthreads("env"):
                        async with anyio.create_task_group() as tg:
                            tg.start_soon(other)
                            try:
                                await app(asgi.scope(spec=spec), receive, send)
                            except Exception as e:
                                exc = e
                    return exc

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                exc = res.value
                what = (case, n, fail, log, short(exc))
                total = n if fail is None else fail
                want = b"".join(c.encode() if isinstance(c, str) else c for c in chunks[:total])
                r = asgi.judge(sent, need_complete=False)
                x.eq(r.body, want, "body of %r" % (what,))
                x.eq(r.complete, fail is None, "complete: %r" % (what,))
                if fail is None:
                    x.check(exc is None, "exception", what)
                else:
                    x.check(isinstance(exc, Boom) and exc.args == (fail,), "the error of the iterable is lost", what)
                # pulls: where, with what context, and never ahead of the chunks sent
                pulls = bodies = 0
                for e in log:
                    if e[0] in ("pull", "apull"):
                        x.eq(e[2:], ("worker" if e[0] == "pull" else "loop", "endpoint"), "where the pull ran: %r" % (what,))
                        pulls += 1
                        x.check(pulls <= bodies + 1, "pulled ahead of the client", what)
                    elif e[0] == "iter":
                        x.eq(e[1], "worker", "where iter() ran: %r" % (what,))
                    elif e[0] == "sent":
                        bodies += 1
                x.outcome((kind, n, fail, r.complete))

            x.explore(one, 1, cap=3000)


# ------------------------------------------------------------- first complete

ENDS = ["return", "raise"]
ON_CANCEL = ["plain", "cleanup", "raise", "late"]


def first_cases(tier):
    for backend in ("asyncio", "trio"):
        for n in range(0, 4):
            for steps in itertools.product([0, 1, 2, None] if n < 3 else [0, 1, None], repeat=n):
                if n and all(s is None for s in steps):
                    continue
                if tier != "thorough" and n == 3 and steps.count(None) == 2 and steps.count(0) == 1:
                    continue
                yield backend, steps


@C.family("first", first_cases, "run_until_first_complete over 0-3 functions with 0-2 suspension points or none that ever returns x how they end x how they react to "
                                "cancellation, every completion order, and cancelled from outside: the rest is cancelled and waited for")
def _(case, x):
    backend, steps = case
    n = len(steps)
    if n < 3:
        plans = itertools.product(*[[(e, c) for e in (ENDS if s is not None else ["return"]) for c in ON_CANCEL] for s in steps])
    else:
        plans = itertools.product(*[[("return", "cleanup"), ("raise", "plain")] if s is not None else [("return", "late"), ("return", "raise")] for s in steps])
    for plan in plans:
        for outer in ((False, True) if n < 3 else (False,)):
            def one(ch):
                import anyio

                env = rt.Env(ch, early=1 if n < 3 else None)
                log = []
                errors = []
                state = {}

                async def f(i=None, *, tag):
                    CVs = CV.get()
                    log.append(("start", i, tag, CVs))
                    end, oc = plan[i]
                    try:
                        if steps[i] is None:
                            await anyio.Event().wait()
                        for k in range(steps[i]):
                            await rt.Gate(env).wait("f%d.%d" % (i, k))
                        if end == "raise":
                            errors.append(Boom(i))
                            log.append(("raised", i))
                            raise errors[-1]
                        log.append(("returned", i))
                    except anyio.get_cancelled_exc_class():
                        log.append(("cancelled", i))
                        if oc in ("cleanup", "late"):
                            with anyio.CancelScope(shield=True):
                                await rt.Gate(env).wait("cleanup%d" % i)
                            log.append(("cleaned", i))
                        if oc == "raise":
                            errors.append(Boom(("cleanup", i)))
                            raise errors[-1]
                        if oc == "late":
                            log.append(("returned late", i))
                            return
                        raise
                    finally:
                        log.append(("end", i))

                async def main():
                    CV.set("main")
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        async with anyio.create_task_group() as tg:
                            scope = anyio.CancelScope()
                            try:
                                with scope:
                                    if outer:
                                        env.add("outer", scope.cancel, background=True)
                                    state["value"] = await run_until_first_complete(*[(f, {"i": i, "tag": "t%d" % i}) for i in range(n)])
                                    state["ok"] = True
                            except Exception as exc:
                                state["exc"] = exc
                            log.append(("back",))
                            state["cancelled"] = scope.cancelled_caught
                    return None

                res = rt.run(main, env, backend)
                if res.exc is not None:
                    raise res.exc
                what = (case, plan, outer, log)
                x.check(not res.deadlock, "it never came back", what)
                x.check(not res.leaked, "tasks left behind: %r" % (res.leaked,), what)
                back = log.index(("back",))
                x.check(all(e[0] in ("back",) for e in log[back:]), "a function was still running when it came back", what)
                starts = [e for e in log if e[0] == "start"]
                x.check(len(starts) == len(set(starts)) and all(s[2] == "t%d" % s[1] and s[3] == "main" for s in starts), "arguments or context", what)
                if not (outer and "outer" in env.fired):
                    x.eq(len(starts), n, "functions started: %r" % (what,))
                x.eq([e[1] for e in log if e[0] == "end"].sort(), [s[1] for s in starts].sort(), "functions ended")
                x.eq(len([e for e in log if e[0] == "end"]), len(starts), "functions ended: %r" % (what,))
                # errors: all of them and nothing else
                flat = []
                todo = [state.get("exc")] if state.get("exc") is not None else []
                while todo:
                    e = todo.pop()
                    todo.extend(e.exceptions) if isinstance(e, BaseExceptionGroup) else flat.append(e)
                x.check({id(e) for e in flat} == {id(e) for e in errors}, "exceptions: %r, raised: %r" % (flat, errors), what)
                if not errors and not state.get("cancelled"):
                    x.check(state.get("ok") and state["value"] is None, "result", what)
                    x.check(n == 0 or any(e[0].startswith("returned") for e in log), "nothing had completed", what)
                # nobody is cancelled before somebody completed or failed; nobody sleeps on once somebody did
                if not (outer and "outer" in env.fired):
                    done = [k for k, e in enumerate(log) if e[0] in ("returned", "raised")]
                    cans = [k for k, e in enumerate(log) if e[0] == "cancelled"]
                    x.check(not cans or (done and done[0] < cans[0]), "cancelled before the first completion", what)
                elif not errors:
                    x.check(state.get("ok") or state.get("cancelled"), "outer cancellation lost", what)
                x.outcome((case, tuple(e[0] for e in log)))

            x.explore(one, 0 if n == 3 else 1, cap=600)


# ------------------------------------------------------------- real threads

def real_cases(tier):
    for backend in ("asyncio", "trio"):
        for site in ("route", "endpoint", "handler", "500 handler", "background", "stream", "run", "iterate"):
            yield backend, site


@C.family("real", real_cases, "real worker threads and event loops: blocking sync code in each place returns only once another task has run")
def _(case, x):
    import anyio

    backend, site = case
    go = threading.Event()
    entered = threading.Event()
    main_thread = threading.get_ident()
    seen = []

    def block(*args, **kw):
        seen.append(threading.get_ident())
        entered.set()
        seen.append(go.wait(20))
        seen.append(CV.get())
        return PlainTextResponse("done") if site not in ("run", "iterate", "stream") else "done"

    def blockgen():
        yield block()

    async def endpoint(request):
        return StreamingResponse(blockgen())

    app = None
    if site in SITES:
        app = SITES[site][0](block)
    elif site == "stream":
        app = Starlette(routes=[Route("/", endpoint)])
    sent = []

    async def send(m):
        sent.append(m)

    asked = []

    async def never():
        asked.append(1)
        if len(asked) == 1:
            return {"type": "http.request", "body": b"", "more_body": False}
        await anyio.Event().wait()

    out = []

    async def run():
        CV.set("real")
        try:
            if site == "run":
                out.append(await run_in_threadpool(block))
            elif site == "iterate":
                async for v in iterate_in_threadpool(blockgen()):
                    out.append(v)
            else:
                await app(asgi.scope(), never, send)
        except Boom:
            pass

    async def other():
        while not entered.is_set():
            await anyio.sleep(0.001)
        go.set()

    async def main():
        async with anyio.create_task_group() as tg:
            tg.start_soon(run)
            tg.start_soon(other)

    with rt.vthreads("real"):
        anyio.run(main, backend=backend)
    x.step(2)
    x.check(len(seen) == 3 and seen[1], "sync code held up the event loop", case, seen)
    x.check(seen[0] != main_thread, "sync code ran on the event loop's thread", case)
    x.check(seen[2] != "unset", "the caller's context is missing", case, seen)
    if app is not None:
        body = b"".join(m.get("body", b"") for m in sent)
        x.eq(body, b"x" if site == "background" else b"done", "body at %s" % site)
    else:
        x.eq(out, ["done"], "result")
