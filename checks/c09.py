"""C09 Middleware wraps in the declared order, once per request."""
from __future__ import annotations

import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

C = Check("C09", ["a 405 is answered by the route before its middleware runs"])

ARGS = [((), {}), ((1,), {}), ((), {"k": "v"}), ((1, "b"), {"k": 1, "z": None})]


class Teapot(Exception):
    pass


class Log(list):
    def __init__(self):
        self.made = []


def mk_pure(log):
    class Pure:
        def __init__(self, app, name, *args, **kw):
            log.made.append((name, args, kw))
            self.app, self.name, self.args, self.kw = app, name, args, kw

        async def __call__(self, scope, receive, send):
            log.append(("in", self.name, self.args, self.kw, scope["type"]))

            async def send2(m):
                if m["type"] in ("http.response.start", "websocket.accept"):
                    log.append(("start", self.name, m.get("status")))
                await send(m)

            try:
                await self.app(scope, receive, send2)
            except BaseException as exc:
                log.append(("exc", self.name, type(exc).__name__))
                raise
            log.append(("out", self.name))

    return Pure


def mk_base(log):
    class Base(BaseHTTPMiddleware):
        def __init__(self, app, name, *args, **kw):
            super().__init__(app)
            log.made.append((name, args, kw))
            self.name, self.args, self.kw = name, args, kw

        async def dispatch(self, request, call_next):
            log.append(("in", self.name, self.args, self.kw, "http"))
            try:
                r = await call_next(request)
            except Exception as exc:
                log.append(("exc", self.name, type(exc).__name__))
                raise
            log.append(("start", self.name, r.status_code))
            log.append(("out", self.name))
            return r

    return Base


def mk_func(log):
    Pure = mk_pure(log)

    def factory(app, name, *args, **kw):
        return Pure(app, name, *args, **kw)

    return factory


KINDS = {"pure": mk_pure, "base": mk_base, "func": mk_func}


class Build:
    def __init__(self, log, kinds=("pure",)):
        self.log = log
        self.n = 0
        self.kinds = [KINDS[k](log) for k in kinds]
        self.decl = {}

    def mws(self, level, n):
        return [self.mw("%s%d" % (level, i)) for i in range(n)]

    def spec(self, name):
        a, kw = ARGS[self.n % len(ARGS)]
        cls = self.kinds[self.n % len(self.kinds)]
        self.n += 1
        self.decl[name] = (a, kw)
        return cls, a, kw

    def mw(self, name):
        cls, a, kw = self.spec(name)
        return Middleware(cls, name, *a, **kw)


def cases_tree(tier):
    top = (0, 1, 2, 3) if tier != "quick" else (0, 1, 2)
    for app, add, router, mount, mount2, route in itertools.product(top, (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1), top):
        yield (app, add, router, mount, mount2, route)


def make(b, shape, kinds_router="router"):
    app, add, router, mount, mount2, route = shape
    log = b.log

    async def ep(request):
        log.append(("endpoint",))
        return PlainTextResponse("ok")

    async def tea(request):
        log.append(("endpoint",))
        raise Teapot()

    async def boom(request):
        log.append(("endpoint",))
        raise ZeroDivisionError()

    async def http(request):
        log.append(("endpoint",))
        raise HTTPException(418)

    class Cls(HTTPEndpoint):
        async def get(self, request):
            log.append(("endpoint",))
            return PlainTextResponse("ok")

    async def ws(websocket):
        log.append(("endpoint",))
        await websocket.accept()
        await websocket.close()

    class Ws(WebSocketEndpoint):
        async def on_connect(self, websocket):
            log.append(("endpoint",))
            await websocket.accept()
            await websocket.close()

    async def raw(scope, receive, send):
        log.append(("endpoint",))
        await PlainTextResponse("raw")(scope, receive, send)

    class Raw:
        async def __call__(self, scope, receive, send):
            await raw(scope, receive, send)

    inner = [
        Route("/x", ep, middleware=b.mws("route", route) or None),
        Route("/tea", tea, middleware=b.mws("tea", route)),
        Route("/boom", boom, middleware=b.mws("boom", route)),
        Route("/http", http, middleware=b.mws("http", route)),
        Route("/cls", Cls, middleware=b.mws("cls", route)),
        Route("/raw", Raw(), middleware=b.mws("raw", route)),
        Route("/dir/", ep, middleware=b.mws("dir", route)),
        WebSocketRoute("/ws", ws, middleware=b.mws("ws", route)),
        WebSocketRoute("/wscls", Ws, middleware=b.mws("wscls", route)),
    ]
    sub = Router(inner, middleware=b.mws("router", router))
    m2 = [Mount("/b", app=sub, middleware=b.mws("inner", mount2))]
    routes = [Mount("/a", routes=m2, middleware=b.mws("mount", mount)), Route("/top", ep, middleware=b.mws("top", route)),
              Mount("/file", app=raw, middleware=b.mws("file", mount))]
    a = Starlette(routes=routes, middleware=b.mws("app", app), exception_handlers={Teapot: lambda r, e: PlainTextResponse("tea", status_code=299)})
    for i in range(add):
        cls, args, kw = b.spec("add%d" % i)
        a.add_middleware(cls, "add%d" % i, *args, **kw)
    return a


def names(level, n):
    return ["%s%d" % (level, i) for i in range(n)]


def expect(shape, target):
    """(names of the middleware passed, innermost endpoint reached, ...)"""
    app, add, router, mount, mount2, route = shape
    outer = names("add", add)[::-1] + names("app", app)
    mid = names("mount", mount) + names("inner", mount2) + names("router", router)
    rmap = {"/a/b/x": "route", "/a/b/tea": "tea", "/a/b/boom": "boom", "/a/b/http": "http", "/a/b/cls": "cls", "/a/b/raw": "raw", "/a/b/dir/": "dir",
            "/a/b/ws": "ws", "/a/b/wscls": "wscls"}
    if target in rmap:
        return outer, mid + names(rmap[target], route), True
    if target == "/top":
        return outer, names("top", route), True
    if target == "/file/z":
        return outer, names("file", mount), True
    if target in ("/a/b/nope", "/a/b/x:POST", "/a/b/dir"):
        return outer, mid, False
    if target == "/a/nope":
        return outer, names("mount", mount), False
    return outer, [], False


TARGETS = {"/a/b/x": 200, "/a/b/tea": 299, "/a/b/boom": 500, "/a/b/http": 418, "/a/b/cls": 200, "/a/b/raw": 200, "/a/b/dir/": 200, "/top": 200, "/file/z": 200,
           "/a/b/nope": 404, "/a/b/x:POST": 405, "/a/b/dir": 307, "/a/nope": 404, "/nope": 404, "/": 404}
FAIL = {"/a/b/tea": "Teapot", "/a/b/boom": "ZeroDivisionError", "/a/b/http": "HTTPException"}


def check_http(x, app, b, shape, target, backend="asyncio", pure=True):
    log = b.log
    del log[:]
    path, _, method = target.partition(":")
    srv, out = asgi.call(app, asgi.scope(path, method=method or "GET"), backend=backend)
    asgi.settled(out)
    r = asgi.judge(srv.sent)
    status = TARGETS[target]
    x.eq(r.status, status, "status of " + target)
    outer, inner, reached = expect(shape, target)
    ins = [e for e in log if e[0] == "in"]
    x.eq([e[1] for e in ins], outer + inner, "order on the way in for " + target)
    for e in ins:
        x.eq((e[2], e[3]), b.decl[e[1]], "arguments of " + e[1])
    x.eq(sum(e == ("endpoint",) for e in log), int(reached), "endpoint calls")
    if reached:
        x.check(log.index(("endpoint",)) > max([i for i, e in enumerate(log) if e[0] == "in"], default=-1), "endpoint before a middleware", log)
    leave = [e for e in log if e[0] in ("out", "exc")]
    if not pure:
        # a dispatch function gets the response as soon as it starts: compare the order in which it passes
        starts = [e[1:] for e in log if e[0] == "start"]
        if status in (200, 307):
            x.eq(starts, [(n, status) for n in (outer + inner)[::-1]], "response passes every middleware once for " + target)
        x.eq(sorted(e[1] for e in leave), sorted(outer + inner), "every middleware is left once for " + target)
    if pure:
        x.eq([e[1] for e in leave], (outer + inner)[::-1], "order on the way out for " + target)
        starts = [e[1:] for e in log if e[0] == "start"]
        exc = {e[1]: e[2] for e in leave if e[0] == "exc"}
        if target == "/a/b/boom":
            # server-error handling is outside of everything: nobody sees the 500, everybody the exception
            x.eq(starts, [], "response seen by middleware although it comes from the outermost layer")
            x.eq(exc, {n: "ZeroDivisionError" for n in outer + inner}, "exceptions seen")
        elif target in FAIL:
            # the route handles it itself: its middleware already sees the response
            x.eq(exc, {}, "exceptions seen by middleware")
            x.eq(starts, [(n, status) for n in (outer + inner)[::-1]], "response seen by the middleware")
        elif status == 404 and target != "/" and target != "/nope" or status == 405:
            # raised below the mounts, handled inside the application middleware
            x.eq(starts, [(n, status) for n in outer[::-1]], "404 seen by the application middleware")
            x.eq(exc, {n: "HTTPException" for n in inner}, "exceptions seen")
        else:
            x.eq(exc, {}, "exceptions seen by middleware")
            x.eq(starts, [(n, status) for n in (outer + inner)[::-1]], "response passes every middleware once")
    x.step(len(log))
    x.outcome((shape, target, tuple(e[:2] for e in log)))


def check_made(x, b, app, want):
    made = [m[0] for m in b.log.made]
    x.eq(sorted(made), sorted(want), "middleware construction: each exactly once")


@C.family("trees", cases_tree, "application x add_middleware x router x mount x inner mount x route middleware counts; every target (endpoints, raised, 404, 405, redirect), repeated requests")
def _(case, x):
    b = Build(Log(), ("pure", "func"))
    app = make(b, case)
    for rnd in range(2):
        for t in TARGETS:
            check_http(x, app, b, case, t)
        check_made(x, b, app, b.decl)
        ws(x, app, b, case)
        lifespan(x, app, b, case)
    stack = app.middleware_stack
    try:
        app.add_middleware(KINDS["pure"](b.log), "late")
        x.fail("add_middleware accepted after the first request")
    except RuntimeError:
        pass
    check_http(x, app, b, case, "/a/b/x")
    check_made(x, b, app, b.decl)


def ws(x, app, b, shape):
    for target in ("/a/b/ws", "/a/b/wscls"):
        del b.log[:]
        srv = asgi.WSServer([{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}])

        async def main():
            await app(asgi.scope(target, type="websocket"), srv.receive, srv.send)

        out = rt.run(main)
        asgi.settled(out)
        x.check(out.exc is None, "websocket raised %r" % (out.exc,))
        outer, inner, _ = expect(shape, target)
        x.eq([e[1] for e in b.log if e[0] == "in"], outer + inner, "websocket order in")
        x.check(all(e[4] == "websocket" for e in b.log if e[0] == "in"), "scope type")
        x.eq([e[1] for e in b.log if e[0] == "out"], (outer + inner)[::-1], "websocket order out")
        x.eq([m["type"] for m in srv.sent], ["websocket.accept", "websocket.close"], "messages")
        x.outcome((shape, target))


def lifespan(x, app, b, shape):
    del b.log[:]
    srv = asgi.WSServer([{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}])

    async def main():
        await app({"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}, srv.receive, srv.send)

    out = rt.run(main)
    asgi.settled(out)
    x.check(out.exc is None, "lifespan raised %r" % (out.exc,))
    outer, _, _ = expect(shape, "/nope")
    x.eq([(e[1], e[4]) for e in b.log if e[0] == "in"], [(n, "lifespan") for n in outer], "lifespan passes the application middleware in order")
    x.eq([e[1] for e in b.log if e[0] == "out"], outer[::-1], "lifespan order out")
    x.eq([m["type"] for m in srv.sent], ["lifespan.startup.complete", "lifespan.shutdown.complete"], "messages")


def cases_base(tier):
    for shape in itertools.product((0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2)):
        for kinds in (("base",), ("base", "pure"), ("pure", "base"), ("func", "base", "pure")):
            for backend in ("asyncio", "trio"):
                if backend == "trio" and (sum(shape) > 3 or len(kinds) > 2) and tier == "quick":
                    continue
                yield (shape, kinds, backend)


@C.family("kinds", cases_base, "the same with BaseHTTPMiddleware, plain ASGI classes and factory functions mixed, on asyncio and trio")
def _(case, x):
    shape, kinds, backend = case
    b = Build(Log(), kinds)
    app = make(b, shape)
    for t in ("/a/b/x", "/a/b/cls", "/top", "/a/nope", "/nope", "/a/b/dir", "/a/b/x"):
        check_http(x, app, b, shape, t, backend, pure=False)
    check_made(x, b, app, b.decl)


def cases_add(tier):
    for decl in range(0, 3):
        for ops in itertools.product(("add", "addx", "insert"), repeat=3 if tier == "quick" else 4):
            for first in ("http", "websocket", "lifespan"):
                yield (decl, ops, first)


@C.family("add-middleware", cases_add, "add_middleware histories before and after the first request of any kind; user_middleware list")
def _(case, x):
    decl, ops, first = case
    b = Build(Log())

    async def ep(request):
        b.log.append(("endpoint",))
        return PlainTextResponse("ok")

    async def wsep(websocket):
        await websocket.accept()
        await websocket.close()

    given = b.mws("app", decl)
    app = Starlette(routes=[Route("/", ep), WebSocketRoute("/", wsep)], middleware=given)
    want = names("app", decl)
    given.append(b.mw("stray"))  # the caller's list is not the application's
    b.decl.pop("stray")
    for i, op in enumerate(ops):
        n = "op%d" % i
        if op == "insert":
            app.user_middleware.append(b.mw(n))
            want.append(n)
        else:
            cls, a, kw = b.spec(n)
            app.add_middleware(cls, n, *a, **kw)
            want.insert(0, n)
    x.eq(b.log.made, [], "application middleware built before the first request")

    def request(kind):
        del b.log[:]
        if kind == "http":
            asgi.ok(app, asgi.scope("/"))
        else:
            msgs = [{"type": "websocket.connect"}] if kind == "websocket" else [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
            srv = asgi.WSServer(msgs)

            async def main():
                await app(asgi.scope("/", type="websocket") if kind == "websocket" else {"type": "lifespan", "state": {}}, srv.receive, srv.send)

            out = rt.run(main)
            asgi.settled(out)
            x.check(out.exc is None, "%r" % (out.exc,))
        x.eq([e[1] for e in b.log if e[0] == "in"], want, "order for %s" % kind)
        for e in b.log:
            if e[0] == "in":
                x.eq((e[2], e[3]), b.decl[e[1]], "arguments")

    for kind in (first, "http", "websocket", "http", "lifespan", "http"):
        request(kind)
        try:
            app.add_middleware(KINDS["pure"](b.log), "late")
            x.fail("add_middleware accepted after the application has started")
        except RuntimeError:
            pass
        x.eq(sorted(m[0] for m in b.log.made), sorted(want), "built once")
    x.outcome(case)


def cases_layers(tier):
    for eh in ("none", "type", "status", "500", "exc"):
        for raiser in ("endpoint", "inner-mw", "outer-mw"):
            for exc in ("tea", "http", "zero"):
                yield (eh, raiser, exc)


@C.family("layers", cases_layers, "who sees what: server-error handling outside, exception handling inside the application middleware")
def _(case, x):
    eh, raiser, exc = case
    log = Log()
    Pure = mk_pure(log)
    make_exc = {"tea": Teapot, "http": lambda: HTTPException(418), "zero": ZeroDivisionError}[exc]

    class Raiser:
        def __init__(self, app, on):
            self.app, self.on = app, on

        async def __call__(self, scope, receive, send):
            if self.on:
                raise make_exc()
            await self.app(scope, receive, send)

    async def ep(request):
        if raiser == "endpoint":
            raise make_exc()
        return PlainTextResponse("ok")

    def h(request, e):
        log.append(("handler",))
        return PlainTextResponse("h", status_code=290)

    table = {"none": {}, "type": {Teapot: h}, "status": {418: h}, "500": {500: h}, "exc": {Exception: h}}[eh]
    app = Starlette(routes=[Route("/", ep)], exception_handlers=table,
                    middleware=[Middleware(Pure, "one"), Middleware(Raiser, raiser == "outer-mw"), Middleware(Pure, "two"),
                                Middleware(Raiser, raiser == "inner-mw")])
    srv, out = asgi.call(app, asgi.scope("/"))
    asgi.settled(out)
    r = asgi.judge(srv.sent)
    handled = raiser == "endpoint" and (exc == "http" or (exc == "tea" and eh == "type"))
    custom = handled and ((exc == "http" and eh == "status") or exc == "tea")
    starts = [e[1:] for e in log if e[0] == "start"]
    excs = [e[1] for e in log if e[0] == "exc"]
    if handled:
        st = 290 if custom else 418
        x.eq(starts, [("two", st), ("one", st)], "handled inside the middleware")
        x.eq(excs, [], "exceptions seen by middleware")
        x.check(out.exc is None, "%r" % (out.exc,))
        x.eq(r.status, st, "status")
    else:
        x.eq(starts, [], "the 500 is outside the middleware")
        x.eq(excs, ["one"] if raiser == "outer-mw" else ["two", "one"], "exceptions seen by middleware")
        x.eq(r.status, 290 if eh in ("500", "exc") else 500, "status")
        x.check(type(out.exc) is type(make_exc()), "%r" % (out.exc,))
    x.outcome((case, tuple(e[:2] for e in log)))
