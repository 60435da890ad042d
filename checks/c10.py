"""C10 Lifespan reports exactly what startup and shutdown did."""
from __future__ import annotations

import contextlib
import functools
import itertools
import types

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute

C = Check("C10", ["the server hands each request a shallow copy of the lifespan state, as the ASGI specification says"])


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


class Rec(list):
    exc = None


KINDS = "asASpom"


def handler(rec, kind, name):
    async def a():
        rec.append(("begin", name))
        import anyio

        await anyio.lowlevel.checkpoint()
        rec.append(("end", name))

    def s():
        rec.append(("begin", name))
        rec.append(("end", name))

    async def A():
        rec.append(("begin", name))
        rec.exc = Boom("fail<%s>" % name)
        raise rec.exc

    def S():
        rec.append(("begin", name))
        rec.exc = Boom("fail<%s>" % name)
        raise rec.exc

    class O:
        async def __call__(self):
            await a()

    class M:
        async def meth(self):
            await a()

    async def p(x):
        assert x == 1
        await a()

    return {"a": a, "s": s, "A": A, "S": S, "o": O(), "m": M().meth, "p": functools.partial(p, 1)}[kind]


class LServer:
    """Lifespan server: hands out startup, then shutdown when it wants to."""

    def __init__(self, rec, fail_send=None, messages=("lifespan.startup", "lifespan.shutdown"), env=None):
        self.rec = rec
        self.fail_send = fail_send
        self.todo = list(messages)
        self.sent = []
        self.env = env

    async def receive(self):
        import anyio

        if self.env is not None:
            await rt.Gate(self.env).wait("recv")
        if not self.todo:
            await anyio.Event().wait()
        t = self.todo.pop(0)
        self.rec.append(("recv", t))
        return {"type": t}

    async def send(self, m):
        i = len(self.sent)
        self.sent.append(dict(m))
        self.rec.append(("send", m["type"]))
        if self.fail_send is not None and i >= self.fail_send:
            self.rec.exc = asgi.TransportError("gone")
            raise self.rec.exc


def model(start, stop):
    log = [("recv", "lifespan.startup")]
    for i, k in enumerate(start):
        log.append(("begin", "up%d" % i))
        if k in "AS":
            return log + [("send", "lifespan.startup.failed")], True
        log.append(("end", "up%d" % i))
    log += [("send", "lifespan.startup.complete"), ("recv", "lifespan.shutdown")]
    for i, k in enumerate(stop):
        log.append(("begin", "down%d" % i))
        if k in "AS":
            return log + [("send", "lifespan.shutdown.failed")], True
        log.append(("end", "down%d" % i))
    return log + [("send", "lifespan.shutdown.complete")], False


def lists(n, kinds=KINDS):
    for k in range(n + 1):
        yield from ("".join(t) for t in itertools.product(kinds, repeat=k))


def cases_handlers(tier):
    for start in lists(3 if tier != "quick" else 2):
        for stop in lists(2, "asASo"):
            yield (start, stop)
    for start in lists(3, "asAS"):
        for stop in lists(3, "asAS"):
            yield (start, stop)


def mkapp(how, ups, downs):
    if how == "init":
        return Starlette(on_startup=ups or None, on_shutdown=downs or None)
    if how == "router":
        return Router(on_startup=ups, on_shutdown=downs)
    if how == "add":
        app = Starlette()
        for u in ups:
            app.add_event_handler("startup", u)
        for d in downs:
            app.add_event_handler("shutdown", d)
        return app
    if how == "on_event":
        app = Starlette()
        for u in ups:
            app.on_event("startup")(u)
        for d in downs:
            app.on_event("shutdown")(d)
        return app
    if how == "radd":
        app = Router()
        for u in ups:
            app.add_event_handler("startup", u)
        for d in downs:
            app.add_event_handler("shutdown", d)
        return app
    if how == "mw":
        async def passthru(request, call_next):
            return await call_next(request)
        return Starlette(on_startup=ups or None, on_shutdown=downs or None, middleware=[Middleware(BaseHTTPMiddleware, dispatch=passthru)])


def judge_failed(x, srv, exc):
    m = srv.sent[-1]
    x.check(isinstance(m.get("message"), str) and "Traceback" in m["message"] and str(exc) in m["message"], "failure message", m)


@C.family("handlers", cases_handlers, "startup x shutdown handler lists (async, sync, failing, partial, objects, methods) registered in every way, run twice")
def _(case, x):
    start, stop = case
    for how in ("init", "router", "add", "on_event", "radd", "mw"):
        rec = Rec()
        app = mkapp(how, [handler(rec, k, "up%d" % i) for i, k in enumerate(start)], [handler(rec, k, "down%d" % i) for i, k in enumerate(stop)])
        for rnd in range(2):
            for state in (True, False):
                del rec[:]
                rec.exc = None
                srv = LServer(rec)
                sc = {"type": "lifespan", "asgi": {"version": "3.0"}}
                if state:
                    sc["state"] = {}

                async def main():
                    await app(sc, srv.receive, srv.send)

                out = rt.run(main)
                asgi.settled(out)
                want, failed = model(start, stop)
                x.eq(list(rec), want, "lifespan trace via %s" % how)
                if failed:
                    x.check(out.exc is rec.exc and rec.exc is not None, "the failure surfaced as %r" % (out.exc,))
                    judge_failed(x, srv, rec.exc)
                else:
                    x.check(out.exc is None, "%r" % (out.exc,))
                    x.check(all(m.get("message", "") == "" for m in srv.sent), "messages", srv.sent)
                if state:
                    x.eq(sc["state"], {}, "state")
                x.step(len(rec))
        x.outcome((case, how))


STYLES = ["cm", "agen", "gen", "class", "partial"]


def ctx(rec, style, enter, leave, state):
    def up():
        rec.append(("enter",))
        if enter is not None:
            rec.exc = enter("fail-enter")
            raise rec.exc

    def down():
        rec.append(("exit",))
        if leave is not None:
            rec.exc = leave("fail-exit")
            raise rec.exc

    async def agen(app):
        rec.append(("app", app))
        up()
        try:
            if state is None:
                yield
            else:
                yield state
        finally:
            down()

    def gen(app):
        rec.append(("app", app))
        up()
        try:
            yield state
        finally:
            down()

    class CM:
        def __init__(self, app):
            rec.append(("app", app))

        async def __aenter__(self):
            up()
            return state

        async def __aexit__(self, *a):
            down()

    if style == "cm":
        return contextlib.asynccontextmanager(agen)
    if style == "agen":
        return agen
    if style == "gen":
        return gen
    if style == "class":
        return CM
    if style == "partial":
        cm = contextlib.asynccontextmanager(agen)
        return functools.partial(lambda n, app: cm(app), 1)


def drive(coro):
    """Run a coroutine that never really suspends."""
    n = 0
    try:
        while True:
            coro.send(None)
            n += 1
            if n > 100:
                raise RuntimeError("suspended")
    except StopIteration as exc:
        return None
    except BaseException as exc:
        return exc


STATES = [None, {}, {"a": 1}, {"a": 1, "b": [2]}, types.MappingProxyType({"m": 1})]
EXCS = [None, Boom, Halt, KeyboardInterrupt, SystemExit, GeneratorExit, ValueError]


def cases_ctx(tier):
    for style in STYLES:
        for enter in EXCS:
            for leave in EXCS if enter is None else [None]:
                for si in range(len(STATES)):
                    for support in ("none", "empty", "filled"):
                        for fail_send in (None, 0, 1):
                            yield (style, enter, leave, si, support, fail_send)


@C.family("context", cases_ctx, "lifespan context styles x failing entry/exit with ordinary and base exceptions x yielded state x state support x failing sends")
def _(case, x):
    style, enter, leave, si, support, fail_send = case
    if style == "gen" and GeneratorExit in (enter, leave):
        return  # a generator based context cannot raise GeneratorExit
    for kind in ("starlette", "router"):
        rec = Rec()
        state = STATES[si]
        cm = ctx(rec, style, enter, leave, state)
        app = Starlette(lifespan=cm) if kind == "starlette" else Router(lifespan=cm)
        for rnd in range(2):
            del rec[:]
            rec.exc = None
            srv = LServer(rec, fail_send=fail_send)
            sc = {"type": "lifespan", "asgi": {"version": "3.0"}}
            shared = {"z": 0} if support == "filled" else {}
            if support != "none":
                sc["state"] = shared
            exc = drive(app(sc, srv.receive, srv.send))
            apps = [e for e in rec if e[0] == "app"]
            x.check(len(apps) == 1 and apps[0][1] is (app if kind == "starlette" else None), "the context got %r" % (apps,))
            log = [e for e in rec if e[0] != "app"]
            want = [("recv", "lifespan.startup"), ("enter",)]
            nostate = state is not None and support == "none"
            if enter is not None:
                want += [("send", "lifespan.startup.failed")]
                x.check(exc is rec.exc, "the failure surfaced as %r" % (exc,))
            elif nostate:
                want += [("exit",), ("send", "lifespan.startup.failed")]
                x.check(isinstance(exc, RuntimeError) or exc is rec.exc, "missing state support surfaced as %r" % (exc,))
            elif fail_send == 0:
                # the transport broke while startup was reported: the context is still left, exactly once
                x.eq(log[:4], want + [("send", "lifespan.startup.complete"), ("exit",)], "trace")
                x.check(exc is not None, "failed send swallowed")
                x.eq(log.count(("exit",)), 1, "context exits")
                x.check(all(e != ("send", "lifespan.shutdown.complete") for e in log), "shutdown.complete without shutdown")
                continue
            else:
                want += [("send", "lifespan.startup.complete"), ("recv", "lifespan.shutdown"), ("exit",)]
                if leave is not None:
                    want += [("send", "lifespan.shutdown.failed")]
                    x.check(exc is rec.exc, "the failure surfaced as %r" % (exc,))
                else:
                    want += [("send", "lifespan.shutdown.complete")]
                    if fail_send is None:
                        x.check(exc is None, "%r" % (exc,))
            x.eq(log, want, "lifespan trace")
            if fail_send is None and want[-1][1].endswith("failed"):
                judge_failed(x, srv, exc)
            if support != "none":
                exp = {"z": 0} if support == "filled" else {}
                if enter is None and state:
                    exp.update(state)
                x.check(sc["state"] is shared, "the server's state object was replaced")
                x.eq(shared, exp, "server state")
            x.step(len(rec))
        x.outcome((case, kind))


def cases_cancel(tier):
    for style in ("cm", "class", "agen", "gen"):
        for leave in (None, Boom):
            for backend in ("asyncio", "trio"):
                yield (style, leave, backend)


@C.family("cancellation", cases_cancel, "the serving task is cancelled before startup, while waiting for shutdown: the context is left exactly once")
def _(case, x):
    style, leave, backend = case

    def run(ch):
        import anyio

        env = rt.Env(ch, early=1)
        rec = Rec()
        app = Starlette(lifespan=ctx(rec, style, None, leave, None))
        srv = LServer(rec, env=env)
        ended = []

        async def main():
            async with anyio.create_task_group() as tg:
                scope = anyio.CancelScope()

                async def serve():
                    with scope:
                        try:
                            await app({"type": "lifespan", "state": {}}, srv.receive, srv.send)
                        except Exception as exc:
                            ended.append(exc)
                        except BaseException:
                            ended.append("cancelled")
                            raise
                        else:
                            ended.append("done")

                env.add("cancel", scope.cancel, background=True)
                tg.start_soon(serve)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        enters, exits = rec.count(("enter",)), rec.count(("exit",))
        x.eq(enters, exits, "context entered and left")
        sends = [e[1] for e in rec if e[0] == "send"]
        if ended == ["done"]:
            x.eq(sends, ["lifespan.startup.complete", "lifespan.shutdown.complete"], "messages")
        elif ended == ["cancelled"]:
            x.check("lifespan.shutdown.complete" not in sends, "shutdown.complete although cancelled", rec)
        if ("recv", "lifespan.shutdown") not in rec:
            x.check("lifespan.shutdown.complete" not in sends, "complete without being asked", rec)
        x.state(tuple(env.fired))
        x.outcome((tuple(map(str, rec)), str(ended)))

    x.explore(run, 2)


REQ_OPS = ["set", "del", "setc", "append", "none", "scope"]


def cases_state(tier):
    for where in ("endpoint", "middleware", "base", "ws"):
        for ops in itertools.product(REQ_OPS, repeat=3 if tier == "quick" else 4):
            yield (where, ops)


@C.family("request-state", cases_state, "state of the lifespan is visible on every request, changes stay within their request (middleware, endpoint, background, websocket)")
def _(case, x):
    where, ops = case
    import copy

    initial = {"a": 1, "l": [0]}
    seen = []
    cur = [None]

    @contextlib.asynccontextmanager
    async def lifespan(app):
        yield {"a": 1, "l": [0]}

    def mutate(conn):
        op = cur[0]
        if op == "set":
            conn.state.a = 99
        elif op == "del":
            del conn.state.a
        elif op == "setc":
            conn.state.c = "new"
        elif op == "append":
            conn.state.l = conn.state.l + [1]
        elif op == "scope":
            conn.scope["state"]["c"] = "new"

    def view(conn):
        out = {}
        for k in ("a", "l", "c"):
            try:
                out[k] = getattr(conn.state, k)
            except AttributeError:
                pass
        return out

    async def bg(request):
        seen.append(("bg", view(request)))

    async def ep(request):
        seen.append(("first", view(request)))
        if where == "endpoint":
            mutate(request)
        seen.append(("after", view(Request(request.scope))))
        return PlainTextResponse("ok", background=BackgroundTask(bg, request))

    async def wsep(ws):
        seen.append(("first", view(ws)))
        mutate(ws)
        seen.append(("after", view(ws)))
        await ws.accept()
        await ws.close()

    async def base(request, call_next):
        seen.append(("mw", view(request)))
        mutate(request)
        r = await call_next(request)
        seen.append(("mw-after", view(request)))
        return r

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            if scope["type"] == "http":
                conn = Request(scope)
                seen.append(("mw", view(conn)))
                mutate(conn)
            await self.app(scope, receive, send)

    mws = {"base": [Middleware(BaseHTTPMiddleware, dispatch=base)], "middleware": [Middleware(Pure)]}.get(where, [])
    app = Starlette(routes=[Mount("/m", routes=[Route("/", ep), WebSocketRoute("/ws", wsep)])], lifespan=lifespan, middleware=mws)
    state = {}
    rec = Rec()
    srv = LServer(rec)

    async def main():
        import anyio

        async def server():
            await app({"type": "lifespan", "state": state}, srv.receive, srv.send)

        # up to startup.complete, then requests, then shutdown
        gate = anyio.Event()
        orig = srv.receive

        async def receive():
            if rec.count(("recv", "lifespan.startup")):
                await gate.wait()
            return await orig()

        srv.receive = receive
        async with anyio.create_task_group() as tg:
            tg.start_soon(server)
            while not srv.sent:
                await anyio.lowlevel.checkpoint()
            x.eq(state, initial, "server state after startup")
            for op in ops:
                cur[0] = op
                del seen[:]
                if where == "ws":
                    s = asgi.WSServer([{"type": "websocket.connect"}])
                    sc = asgi.scope("/m/ws", type="websocket", state=dict(state))
                else:
                    s = asgi.Server()
                    sc = asgi.scope("/m/", state=dict(state))
                await app(sc, s.receive, s.send)
                after = copy.deepcopy(initial)
                if op == "set":
                    after["a"] = 99
                elif op == "del":
                    del after["a"]
                elif op in ("setc", "scope"):
                    after["c"] = "new"
                elif op == "append":
                    after["l"] = [0, 1]
                for k, v in seen:
                    before = k == "mw" or (k == "first" and where in ("endpoint", "ws"))
                    x.eq(v, initial if before else after, "request.state seen by %s (%s, %s)" % (k, where, op))
                x.eq(state, initial, "the lifespan state changed by a request")
            gate.set()

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.eq([m["type"] for m in srv.sent], ["lifespan.startup.complete", "lifespan.shutdown.complete"], "lifespan messages")
    x.outcome(case)


def cases_statecls(tier):
    for ops in itertools.product(["set", "get", "del", "set2", "get2", "del2"], repeat=4 if tier == "quick" else 5):
        for start in (None, {}, {"k": 1}):
            yield (ops, start)


@C.family("state-object", cases_statecls, "State objects against a dict: set, get, delete; app.state apart from request.state")
def _(case, x):
    ops, start = case
    from starlette.datastructures import State

    src = None if start is None else dict(start)
    st = State(src) if src is not None else State()
    model = dict(start or {})
    app = Starlette()
    for i, op in enumerate(ops):
        key = "k2" if op.endswith("2") else "k"
        what = op.rstrip("2")
        if what == "set":
            setattr(st, key, i)
            model[key] = i
        elif what == "get":
            if key in model:
                x.eq(getattr(st, key), model[key], "getattr")
            else:
                try:
                    getattr(st, key)
                    x.fail("missing attribute found")
                except AttributeError:
                    pass
        else:
            if key in model:
                delattr(st, key)
                del model[key]
            else:
                try:
                    delattr(st, key)
                    x.fail("deleting a missing attribute")
                except (AttributeError, KeyError):
                    pass
        if src is not None:
            x.eq(src, model, "the mapping behind the state")
        x.step()
    req = Request(asgi.scope(state={"k": 5}))
    app.state.k = 7
    x.eq((req.state.k, app.state.k), (5, 7), "app.state and request.state")
    x.outcome((case, tuple(sorted(model.items()))))
