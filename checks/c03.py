"""C03 Background tasks run once, in order, after the response."""
from __future__ import annotations

import functools
import itertools
import os
import shutil
import tempfile

import anyio

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.requests import ClientDisconnect
from starlette.responses import (FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response,
                                 StreamingResponse)
from starlette.routing import Mount, Route

C = Check("C03", ["a sync task is atomic at the environment action that runs it"])
DIR = None


def setup():
    global DIR
    DIR = tempfile.mkdtemp(prefix="mc-c03-")
    with open(os.path.join(DIR, "f.txt"), "wb") as f:
        f.write(b"0123456789")


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


class Boom(Exception):
    pass


KINDS = ["a", "s", "A", "S", "p", "o", "m", "P"]
# a/s: async/sync function; A/S: failing ones; p: partial of async; o: async callable object; m: bound sync method; P: failing partial


class Rec:
    def __init__(self):
        self.log = []
        self.env = None
        self.exc = None

    async def step(self):
        if self.env is not None:
            await rt.Gate(self.env).wait("task")

    def callables(self, kind, i):
        rec = self

        async def a(*args, **kw):
            rec.log.append(("start", i, args, tuple(sorted(kw.items())), rt.VT.in_worker > 0))
            await rec.step()
            rec.log.append(("end", i))

        def s(*args, **kw):
            rec.log.append(("start", i, args, tuple(sorted(kw.items())), rt.VT.in_worker > 0))
            rec.log.append(("end", i))
            return object()

        async def A(*args, **kw):
            rec.log.append(("start", i, args, tuple(sorted(kw.items())), rt.VT.in_worker > 0))
            await rec.step()
            rec.exc = Boom(i)
            raise rec.exc

        def S(*args, **kw):
            rec.log.append(("start", i, args, tuple(sorted(kw.items())), rt.VT.in_worker > 0))
            rec.exc = Boom(i)
            raise rec.exc

        class O:
            async def __call__(self, *args, **kw):
                await a(*args, **kw)

        class M:
            def meth(self, *args, **kw):
                return s(*args, **kw)

        return {"a": a, "s": s, "A": A, "S": S, "p": functools.partial(a, "pre"), "o": O(), "m": M().meth,
                "P": functools.partial(functools.partial(A, "pre"))}[kind]

    def expect(self, tasks):
        out = []
        for i, k in enumerate(tasks):
            args = (i, "x")
            if k in "pP":
                args = ("pre",) + args
            out.append(("start", i, args, (("kw", i),), k in "sSm"))
            if k in "ASP":
                break
            out.append(("end", i))
        return out


def build(rec, tasks, how):
    if not tasks and how != "empty":
        return None
    if how == "single":
        (k,) = tasks
        return BackgroundTask(rec.callables(k, 0), 0, "x", kw=0)
    if how == "list":
        return BackgroundTasks([BackgroundTask(rec.callables(k, i), i, "x", kw=i) for i, k in enumerate(tasks)])
    bt = BackgroundTasks()
    for i, k in enumerate(tasks):
        bt.add_task(rec.callables(k, i), i, "x", kw=i)
    return bt


RESP = {
    "plain": lambda bg: PlainTextResponse("hello", background=bg),
    "response": lambda bg: Response(b"", status_code=204, background=bg),
    "html": lambda bg: HTMLResponse("<p>", background=bg),
    "json": lambda bg: JSONResponse({"a": 1}, background=bg),
    "redirect": lambda bg: RedirectResponse("/x", background=bg),
    "stream": lambda bg: StreamingResponse([b"a", b"b"], background=bg),
    "file": lambda bg: FileResponse(os.path.join(DIR, "f.txt"), background=bg),
}
EXTRA = {
    "file-range": ("file", {"headers": [(b"range", b"bytes=0-3")]}),
    "file-ranges": ("file", {"headers": [(b"range", b"bytes=0-1,4-5")]}),
    "file-head": ("file", {"method": "HEAD"}),
    "stream-2.4": ("stream", {"spec": "2.4"}),
    "ws-plain": ("plain", {"type": "websocket"}),
}


def resp_for(name, bg):
    base, sc = EXTRA.get(name, (name, {}))
    return RESP[base](bg), asgi.scope(**sc)


def tasklists(maxlen, kinds):
    for n in range(0, maxlen + 1):
        yield from itertools.product(kinds, repeat=n)


def nmessages(name):
    return {"stream": 4, "stream-2.4": 4, "file-ranges": 8}.get(name, 2)


def cases_direct(tier):
    for name in list(RESP) + list(EXTRA):
        for tasks in tasklists(3, KINDS if tier != "quick" else KINDS[:5]):
            hows = ["list", "add"] + (["single"] if len(tasks) == 1 else [])
            for how in hows:
                fails = [None] + list(range(nmessages(name))) if len(tasks) in (1, 2) and how == "list" else [None]
                for fail in fails:
                    yield (name, "".join(tasks), how, fail)
    for name in RESP:
        for k in KINDS:
            yield (name, k, "single", None)


@C.family("direct", cases_direct, "response class x every task list up to length 3 (async, sync, failing, partial...) x construction x failing send position")
def _(case, x):
    name, tasks, how, fail = case
    rec = Rec()
    resp, sc = resp_for(name, build(rec, tasks, how))
    for rnd in range(2 if fail is None and name not in ("stream", "stream-2.4") else 1):
        del rec.log[:]
        rec.exc = None
        srv = asgi.Server(log=rec.log, fail_at=fail)

        async def main():
            await resp(dict(sc), srv.receive, srv.send)

        out = rt.run_asyncio(main)
        asgi.settled(out)
        sends = [e for e in rec.log if e[0] in ("send", "sendfail")]
        tl = [e for e in rec.log if e[0] in ("start", "end")]
        x.step(len(rec.log))
        if fail is not None:
            x.check(not tl, "background ran although sending the response failed", rec.log)
            want = ClientDisconnect if name == "stream-2.4" else asgi.TransportError
            x.check(type(out.exc) is want, "send failure surfaced as %r" % (out.exc,), rec.log)
        else:
            want = rec.expect(tasks)
            first = [i for i, e in enumerate(rec.log) if e[0] == "start"]
            last = [i for i, e in enumerate(rec.log) if e[0] == "send"][-1]
            x.check(not first or first[0] > last, "task started before the response was complete", rec.log)
            x.eq(tl, want, "task trace (round %d)" % rnd)
            x.check(srv.sent[-1]["type"].endswith("http.response.body") and not srv.sent[-1].get("more_body"), "final message", srv.sent)
            if rec.exc is not None or any(k in "ASP" for k in tasks):
                x.check(out.exc is rec.exc and rec.exc is not None, "task's exception did not reach the caller as itself: %r" % (out.exc,), rec.log)
            else:
                x.check(out.exc is None, "unexpected %r" % (out.exc,))
        x.outcome((tuple(e[:2] for e in rec.log), type(out.exc).__name__))


async def pass_dispatch(request, call_next):
    return await call_next(request)


class Over(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        response = await call_next(request)
        response.headers["x-over"] = "1"
        return response


def boom_handler(request, exc):
    return PlainTextResponse("handled", status_code=500)


STACKS = ["bare", "debug", "base", "base2", "gzip", "session", "cors", "handler", "exc-handler", "base+handler", "mount", "route-mw", "all"]
EPS = ["async", "sync", "class", "class-sync", "raise"]


def make_app(rec, stack, ep, rname, bg):
    def response():
        return resp_for(rname, bg)[0]

    async def aep(request):
        return response()

    def sep(request):
        return response()

    class Cls(HTTPEndpoint):
        async def get(self, request):
            return response()

    class ClsS(HTTPEndpoint):
        def get(self, request):
            return response()

    class Teapot(Exception):
        pass

    async def rep(request):
        raise Teapot()

    endpoint = {"async": aep, "sync": sep, "class": Cls, "class-sync": ClsS, "raise": rep}[ep]
    handlers = {Teapot: (lambda request, exc: response())}
    mws = []
    b = Middleware(BaseHTTPMiddleware, dispatch=pass_dispatch)
    if stack in ("base", "base+handler"):
        mws = [b]
    elif stack == "base2":
        mws = [b, Middleware(Over)]
    elif stack == "gzip":
        mws = [Middleware(GZipMiddleware, minimum_size=1)]
    elif stack == "session":
        mws = [Middleware(SessionMiddleware, secret_key="k")]
    elif stack == "cors":
        mws = [Middleware(CORSMiddleware, allow_origins=["*"])]
    elif stack == "all":
        mws = [Middleware(GZipMiddleware, minimum_size=1), b, Middleware(SessionMiddleware, secret_key="k"), Middleware(CORSMiddleware, allow_origins=["*"]), Middleware(Over)]
    if stack in ("handler", "base+handler"):
        handlers[Boom] = boom_handler
    if stack == "exc-handler":
        handlers[Exception] = boom_handler
    routes = [Route("/", endpoint)]
    path = "/"
    if stack == "mount":
        routes = [Mount("/m", routes=routes, middleware=[b])]
        path = "/m/"
    if stack == "route-mw":
        routes = [Route("/", endpoint, middleware=[b])]
    return Starlette(debug=stack == "debug", routes=routes, middleware=mws, exception_handlers=handlers), path


def cases_stack(tier):
    lists = ["", "a", "s", "A", "S", "as", "sa", "aA", "sS", "Sa", "asa", "aAa"]
    for stack in STACKS:
        for ep in EPS:
            for rname in ("plain", "stream", "file", "redirect"):
                for tasks in lists:
                    yield (stack, ep, rname, tasks)


@C.family("stacks", cases_stack, "application stacks (exception handlers, BaseHTTPMiddleware x1/x2, gzip, sessions, CORS, mount, route middleware) x endpoint kinds x task lists")
def _(case, x):
    stack, ep, rname, tasks = case
    rec = Rec()
    for backend in ("asyncio",) if x.tier == "quick" else ("asyncio", "trio"):
        bg = build(rec, tasks, "add")
        app, path = make_app(rec, stack, ep, rname, bg)
        for rnd in range(2):
            del rec.log[:]
            rec.exc = None
            srv = asgi.Server(log=rec.log)
            sc = asgi.scope(path)

            async def main():
                await app(sc, srv.receive, srv.send)

            out = rt.run(main, None, backend)
            asgi.settled(out)
            r = asgi.judge(srv.sent)
            x.eq(r.status, 307 if rname == "redirect" else 200, "status")
            tl = [e for e in rec.log if e[0] in ("start", "end")]
            first = [i for i, e in enumerate(rec.log) if e[0] == "start"]
            sends = [i for i, e in enumerate(rec.log) if e[0] == "send"]
            # behind BaseHTTPMiddleware the application's own final message is what counts;
            # the outermost final message may still be on its way while tasks run
            if stack in ("bare", "debug", "gzip", "session", "cors", "handler", "exc-handler"):
                x.check(not first or first[0] > sends[-1], "task started before the response was complete", rec.log)
            x.eq(tl, rec.expect(tasks), "task trace")
            if any(k in "ASP" for k in tasks):
                e = out.exc
                ok = e is rec.exc or (isinstance(e, RuntimeError) and e.__cause__ is rec.exc and stack in ("handler", "base+handler"))
                x.check(ok, "task's exception did not reach the server: %r" % (e,), rec.log)
            else:
                x.check(out.exc is None, "unexpected %r" % (out.exc,))
            x.outcome((tuple(e[:2] for e in rec.log), type(out.exc).__name__))


def cases_sched(tier):
    for rname in ("plain", "stream", "stream-2.4"):
        for wrap in ("none", "base", "base2"):
            for tasks in ("a", "s", "as", "sa", "aa", "Aa", "sAs"):
                for backend in ("asyncio", "trio"):
                    if backend == "trio" and (len(tasks) > 2 or wrap == "base2"):
                        continue
                    for mode in ("s", "sd"):
                        yield (rname, wrap, tasks, backend, mode)


@C.family("schedules", cases_sched, "gated sends and tasks, client disconnect: tasks never overlap each other or the response, on every schedule with <=1 early completion (thorough 2)")
def _(case, x):
    rname, wrap, tasks, backend, mode = case

    def run(ch):
        env = rt.Env(ch, early=1)
        rec = Rec()
        rec.env = env
        resp, sc = resp_for(rname, build(rec, tasks, "list"))
        app = resp
        inner_log = []

        async def spy(scope, receive, send):
            async def send2(m):
                await send(m)
                inner_log.append(m)
                rec.log.append(("inner", m["type"], m.get("more_body", False)))
            await resp(scope, receive, send2)

        app = spy
        if wrap != "none":
            app = BaseHTTPMiddleware(app, pass_dispatch)
        if wrap == "base2":
            app = BaseHTTPMiddleware(app, pass_dispatch)
        srv = asgi.Server(env=env, gate=mode, log=rec.log)
        with rt.vthreads("env"):
            async def main():
                await app(sc, srv.receive, srv.send)
            out = rt.run(main, env, backend)
        asgi.settled(out)
        tl = [e for e in rec.log if e[0] in ("start", "end")]
        gone = ("hangup",) in rec.log
        first = [i for i, e in enumerate(rec.log) if e[0] == "start"]
        inner = [i for i, e in enumerate(rec.log) if e[0] == "inner"]
        want = rec.expect(tasks)
        if first:
            x.check(not inner or inner[-1] < first[0], "response message after a task started", rec.log)
            if not gone:
                x.check(rec.log[inner[-1]] == ("inner", "http.response.body", False), "task started before the final body message", rec.log)
        if not gone:
            x.eq(tl, want, "task trace")
            r = asgi.judge(srv.sent)
            if wrap == "none":
                lastsend = [i for i, e in enumerate(rec.log) if e[0] == "send"][-1]
                x.check(not first or first[0] > lastsend, "task before the final message was sent", rec.log)
        else:
            x.check(tl == want[: len(tl)], "task trace after disconnect", rec.log)
        # behind BaseHTTPMiddleware the server may still be sending while tasks run; the response must end complete
        if rec.exc is not None:
            x.check(out.exc is rec.exc, "task's exception lost: %r" % (out.exc,), rec.log)
        elif not gone:
            x.check(out.exc is None, "unexpected %r" % (out.exc,), rec.log)
        for i in range(len(rec.log)):
            x.state(tuple(e[:2] for e in rec.log[:i]))
        x.outcome((tuple(e[:2] for e in rec.log), type(out.exc).__name__))

    b = 1 if backend == "asyncio" else 0
    if x.tier == "quick" and wrap != "none" and (len(tasks) > 1 or wrap == "base2"):
        b = 0
    x.explore(run, b + (x.tier != "quick"))


def cases_growth(tier):
    for n in range(0, 4):
        for grow in range(0, 3):
            for given in ("list", "tuple", "list, emptied later", "list, grown later"):
                yield (n, grow, given)


@C.family("growing", cases_growth, "tasks added to the BackgroundTasks object after the response was built, or lists handed in and mutated")
def _(case, x):
    n, grow, given = case
    rec = Rec()
    tasks = [BackgroundTask(rec.callables("a", i), i, "x", kw=i) for i in range(n)]
    bt = BackgroundTasks(tuple(tasks) if given == "tuple" else tasks)
    resp = PlainTextResponse("x", background=bt)
    for g in range(grow):
        bt.add_task(rec.callables("s", n + g), n + g, "x", kw=n + g)
    x.eq(len(tasks), n, "the list handed in")
    if given == "list, emptied later":
        del tasks[:]
    elif given == "list, grown later":
        tasks.append(BackgroundTask(rec.callables("a", 9), 9, "x", kw=9))
    other = BackgroundTasks()
    x.eq(len(other.tasks), 0, "a new BackgroundTasks starts empty")
    srv, out = asgi.call(resp, asgi.scope(), log=rec.log)
    asgi.settled(out)
    tl = [e for e in rec.log if e[0] in ("start", "end")]
    x.eq(tl, rec.expect("a" * n + "s" * grow), "task trace")
    x.outcome(tuple(e[:2] for e in rec.log))


def cases_live(tier):
    for spec in itertools.product("as+-", repeat=2 if tier == "quick" else 3):
        for adds in ("a", "s", "as"):
            yield "".join(spec), adds


@C.family("live", cases_live, "tasks that add further tasks while they run (the first of each '+' / '-' kind, async / sync): all run, in the order added")
def _(case, x):
    spec, adds = case
    rec = Rec()
    bt = BackgroundTasks()
    n = [len(spec)]
    want = []

    def more():
        for k in adds:
            i = n[0]
            n[0] += 1
            bt.add_task(rec.callables(k, i), i, "x", kw=i)

    async def aplus(i):
        rec.log.append(("start", i))
        more()
        rec.log.append(("end", i))

    def splus(i):
        rec.log.append(("start", i))
        more()
        rec.log.append(("end", i))

    for i, k in enumerate(spec):
        if k in "+-":
            bt.add_task(aplus if k == "+" else splus, i)
        else:
            bt.add_task(rec.callables(k, i), i, "x", kw=i)
    total = len(spec) + len(adds) * sum(k in "+-" for k in spec)
    for i in range(total):
        want += [("start", i), ("end", i)]
    for backend in ("asyncio", "trio"):
        del rec.log[:]
        n[0] = len(spec)
        del bt.tasks[len(spec):]
        out = rt.run(lambda: asgi_call(PlainTextResponse("x", background=bt), rec.log), None, backend)
        asgi.settled(out)
        x.check(out.exc is None, "unexpected %r" % (out.exc,))
        x.eq([e[:2] for e in rec.log if e[0] in ("start", "end")], want, "task trace")
        x.outcome((spec, adds, backend))


async def asgi_call(resp, log):
    srv = asgi.Server(log=log)
    await resp(asgi.scope(), srv.receive, srv.send)


# ------------------------------------------------------- tasks that dispatch functions attach

ENDS = ["plain", "plain-404", "empty", "stream", "stream-503", "file", "http-exc", "handled", "head", "304"]


def cases_attached(tier):
    for end in ENDS:
        for own in ("", "a", "as"):
            for n in (1, 2) if tier == "quick" else (1, 2, 3):
                for layers in itertools.product(("pass", "attach-a", "attach-s", "list", "own", "own-error"), repeat=n):
                    if set(layers) != {"pass"}:
                        yield end, own, layers


@C.family("attached", cases_attached, "dispatch functions (1 to 2, thorough 3 layers) that attach tasks to the response of call_next or to their own, for responses of every class and status, with and without tasks of the endpoint: "
          "each task of a response that was sent runs exactly once, after its final message, those of one response in their order")
def attached(case, x):
    end, own, layers = case
    for backend in ("asyncio", "trio"):
        log, want = [], []

        def task(name, sync=False):
            async def a(*args):
                log.append(("start", name, args))
                await anyio.lowlevel.checkpoint()
                log.append(("end", name))

            def s(*args):
                log.append(("start", name, args))
                log.append(("end", name))

            return s if sync else a

        def tasks(prefix, kinds):
            bt = BackgroundTasks()
            for i, k in enumerate(kinds):
                bt.add_task(task((prefix, i), k == "s"), prefix, i)
            return bt if kinds else None

        async def body():
            yield b"a"
            yield b"b"

        async def endpoint(request):
            bg = tasks("own", own)
            if end == "http-exc":
                raise HTTPException(409)
            if end == "handled":
                raise KeyError("k")
            return {"plain": lambda: PlainTextResponse("x", background=bg), "plain-404": lambda: PlainTextResponse("x", 404, background=bg), "empty": lambda: Response(background=bg), "head": lambda: PlainTextResponse("x", background=bg),
                    "304": lambda: Response(status_code=304, background=bg), "stream": lambda: StreamingResponse(body(), background=bg), "stream-503": lambda: StreamingResponse(body(), 503, background=bg),
                    "file": lambda: FileResponse(os.path.join(DIR, "f.txt"), background=bg)}[end]()

        async def handler(request, exc):
            return PlainTextResponse("handled", 422, background=tasks("own", own))

        def layer(i, kind):
            async def dispatch(request, call_next):
                if kind.startswith("own"):
                    return PlainTextResponse("mine", 500 if kind == "own-error" else 200, background=tasks(i, "as"))
                response = await call_next(request)
                if kind.startswith("attach"):
                    response.background = BackgroundTask(task((i, 0), kind == "attach-s"), i, 0)
                elif kind == "list":
                    response.background = tasks(i, "sas")
                return response

            return Middleware(BaseHTTPMiddleware, dispatch=dispatch)

        reached = True
        for i, kind in enumerate(layers):
            want.append((i, {"pass": 0, "attach-a": 1, "attach-s": 1, "list": 3}.get(kind, 2)))
            if kind.startswith("own"):
                reached = False
                break
        if reached and end != "http-exc":
            want.append(("own", len(own)))
        app = Starlette(routes=[Route("/", endpoint)], middleware=[layer(i, k) for i, k in enumerate(layers)], exception_handlers={KeyError: handler})
        srv = asgi.Server(log=log)

        async def main():
            await app(asgi.scope("/", "HEAD" if end == "head" else "GET"), srv.receive, srv.send)

        with rt.vthreads("inline"):
            out = rt.run(main, None, backend)
        asgi.settled(out)
        x.check(out.exc is None, "unexpected %r" % (out.exc,), case)
        asgi.judge(srv.sent)
        last = max(i for i, e in enumerate(log) if e[0] == "send")
        got = [e for e in log if e[0] in ("start", "end")]
        # what lies further in has handed its final message to the layer outside it, which is all that counts
        x.check(all(e[0] != "start" or e[1][0] != 0 for e in log[:last]), "a task started before the response was sent", case, log)
        for prefix, n in want:
            x.eq([(e[0], e[1]) + tuple(e[2:]) for e in got if e[1][0] == prefix], [ev for j in range(n) for ev in (("start", (prefix, j), (prefix, j)), ("end", (prefix, j)))], "tasks of %r: %r" % (prefix, case))
        x.eq(len(got), 2 * sum(n for _, n in want), "events: %r" % (case,))
        x.outcome((end, own, layers))
        x.step()


VALUES = [None, 0, False, "", b"", (), [], {}, 0.0, Ellipsis, "x", {"a": None}]
NAMES = ["name", "args", "kwargs", "task", "tasks", "limiter", "cancellable", "abandon_on_cancel", "is_async", "backend", "request", "fn", "loop"]


def cases_args(tier):
    for kind in "aspom":
        for how in ("single", "list", "add"):
            for backend in ("asyncio", "trio"):
                yield kind, how, backend


@C.family("arguments", cases_args, "every kind of task x construction x arguments of every falsy and truthy kind, keywords of every name: the task gets the very objects it was given")
def _(case, x):
    kind, how, backend = case
    calls = [((v,), {}) for v in VALUES] + [((), {"k": v}) for v in VALUES] + [((), {n: v}) for n in NAMES for v in (None, 1)]
    calls += [((a, b), {"p": a, "q": b}) for a in VALUES for b in VALUES] + [((), {}), ((object(),), {n: object() for n in NAMES})]
    if how == "single":
        groups = [[c] for c in calls]
    else:
        groups = [calls]
    for group in groups:
        rec = Rec()
        if how == "single":
            bt = BackgroundTask(rec.callables(kind, 0), *group[0][0], **group[0][1])
        elif how == "list":
            bt = BackgroundTasks([BackgroundTask(rec.callables(kind, i), *a, **k) for i, (a, k) in enumerate(group)])
        else:
            bt = BackgroundTasks()
            for i, (a, k) in enumerate(group):
                bt.add_task(rec.callables(kind, i), *a, **k)
        out = rt.run(lambda: asgi_call(PlainTextResponse("x", background=bt), rec.log), None, backend)
        asgi.settled(out)
        x.check(out.exc is None, "unexpected %r" % (out.exc,))
        starts = [e for e in rec.log if e[0] == "start"]
        x.eq([e[1] for e in starts], list(range(len(group))), "tasks run")
        for e, (a, k) in zip(starts, group):
            got = e[2][1:] if kind == "p" else e[2]
            x.check(len(got) == len(a) and all(g is w for g, w in zip(got, a)), "positional arguments", got, a)
            x.check([n for n, _ in e[3]] == sorted(k) and all(v is k[n] for n, v in e[3]), "keyword arguments", e[3], k)
        x.outcome(len(group))
