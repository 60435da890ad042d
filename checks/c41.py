"""C41 Errors of user code surface unchanged, whatever their class."""
from __future__ import annotations

import contextlib
import functools
import os
import shutil
import sys
import tempfile

import anyio

from mc import asgi, errors, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool
from starlette.config import Config
from starlette.convertors import Convertor, register_url_convertor
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.formparsers import MultiPartException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import FileResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute
from starlette.templating import Jinja2Templates
from starlette.testclient import TestClient
from starlette.websockets import WebSocket, WebSocketDisconnect

import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

C = Check("C41", ["control-flow exceptions of Python and of the event loop (StopIteration, StopAsyncIteration, GeneratorExit, cancellation) are no errors"])


class Plain(Exception):
    pass


class BasePlain(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Equal(Exception):
    """Equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


ERRORS = errors.table()
for _c in (ClientDisconnect, AuthenticationError, Plain, BasePlain, Falsy, Equal):
    ERRORS[_c.__module__.split(".")[0] + "." + _c.__name__] = _c
ERRORS.update({
    "NoMatchFound": lambda: NoMatchFound("name", {}),
    "HTTPException": lambda: HTTPException(418, "tea"),
    "HTTPException304": lambda: HTTPException(304),
    "WebSocketException": lambda: WebSocketException(4000, "why"),
    "WebSocketDisconnect": lambda: WebSocketDisconnect(1001, "gone"),
    "MultiPartException": lambda: MultiPartException("multi"),
    "chained": lambda: _chained(),
})


def _chained():
    e = Plain("outer")
    e.__cause__ = KeyError("inner")
    return e


class Bomb:
    def __init__(self, name):
        self.name = name
        self.exc = ERRORS[name]()
        self.cause = self.exc.__cause__
        self.calls = 0

    def __call__(self, *a, **k):
        self.calls += 1
        raise self.exc

    async def later(self, *a, **k):
        await anyio.lowlevel.checkpoint()
        self()


# ------------------------------------------------------------------------- sites
# name -> (function(bomb) -> coroutine function doing the work, class of errors that are answered instead)

SITES = {}
TOP = None


def site(name, answered=(), skip=()):
    def deco(fn):
        SITES[name] = (fn, answered, skip)
        return fn
    return deco


def http(app, srv=None, expect=None, **kw):
    srv = srv or asgi.Server()

    async def main():
        await app(asgi.scope(kw.pop("path", "/"), **kw), srv.receive, srv.send)

    main.srv = srv
    main.expect = expect
    return main


def ws(app, msgs=None, **kw):
    srv = asgi.WSServer(msgs if msgs is not None else [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "t"},
                                                       {"type": "websocket.disconnect", "code": 1000}], **kw)

    async def main():
        await app(asgi.scope("/", type="websocket"), srv.receive, srv.send)

    main.srv = srv
    return main


async def ok(request):
    return PlainTextResponse("ok")


HTTP_ANSWERED = (HTTPException,)
HTTP_SKIP = (WebSocketException,)
WS_SKIP = (HTTPException,)
HTTP_WS = (HTTPException, WebSocketException)


def in_app(route, **kw):
    return http(Starlette(routes=[route], **kw), expect=500)


# endpoints
site("endpoint", HTTP_ANSWERED, HTTP_SKIP)(lambda b: in_app(Route("/", b.later)))
site("endpoint-sync", HTTP_ANSWERED, HTTP_SKIP)(lambda b: in_app(Route("/", lambda request: b())))
site("endpoint-partial", HTTP_ANSWERED, HTTP_SKIP)(lambda b: in_app(Route("/", functools.partial(b.later, 1))))


@site("endpoint-class", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    class E(HTTPEndpoint):
        async def get(self, request):
            b()
    return in_app(Route("/", E))


@site("endpoint-class-sync", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    class E(HTTPEndpoint):
        def get(self, request):
            b()
    return in_app(Route("/", E))


@site("endpoint-requires", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    @requires("a")
    async def f(request):
        b()

    class Back(AuthenticationBackend):
        async def authenticate(self, conn):
            return AuthCredentials(["a"]), SimpleUser("u")
    return in_app(Route("/", f), middleware=[Middleware(AuthenticationMiddleware, backend=Back())])


@site("endpoint-requires-sync", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    @requires("a")
    def f(request):
        b()

    class Back(AuthenticationBackend):
        async def authenticate(self, conn):
            return AuthCredentials(["a"]), SimpleUser("u")
    return in_app(Route("/", f), middleware=[Middleware(AuthenticationMiddleware, backend=Back())])


site("asgi-endpoint", HTTP_ANSWERED, HTTP_SKIP)(lambda b: in_app(Route("/", _AsgiClass(b))))


class _AsgiClass:
    def __init__(self, b):
        self.b = b

    async def __call__(self, scope, receive, send):
        self.b()


@site("mount", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    return in_app(Mount("/", app=raw(b)))


@site("host", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    return in_app(Host("testserver", app=raw(b)))


@site("sub-application", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    return in_app(Mount("/", app=Starlette(routes=[Route("/", b.later)])))


site("route-bare")(lambda b: http(Router(routes=[Route("/", b.later)])))
site("router-default")(lambda b: http(Router(default=raw(b))))


@site("route-middleware", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    def mw(app):
        return raw(b)
    return in_app(Route("/", ok, middleware=[Middleware(mw)]))


@site("convert", HTTP_ANSWERED, HTTP_SKIP)
def _(b):
    class Conv(Convertor):
        regex = "[a-z]+"
        convert = b
        to_string = str
    register_url_convertor("c41", Conv())
    return http(Starlette(routes=[Route("/{a:c41}", ok)]), path="/abc", expect=500)


@site("to-string", (), (NoMatchFound,))
def _(b):
    class Conv(Convertor):
        regex = "[a-z]+"

        def convert(self, value):
            return value

        def to_string(self, value):
            b()
    register_url_convertor("c41", Conv())
    r = Router(routes=[Mount("/m", routes=[Route("/{a:c41}", ok, name="n")], name="mm"), Route("/{a:c41}", ok, name="n")])

    async def main():
        r.url_path_for("mm:n", a="x")
    return main


# middleware: errors below a middleware pass through it

def raw(b, *messages):
    async def app(scope, receive, send):
        for m in messages:
            await send(dict(m))
        b()
    return app


START = {"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/plain")]}
PART = {"type": "http.response.body", "body": b"part", "more_body": True}
LAST = {"type": "http.response.body", "body": b"last", "more_body": False}
WHERE = {"before": (), "started": (START,), "partial": (START, PART), "complete": (START, PART, LAST)}


class NoBackend(AuthenticationBackend):
    async def authenticate(self, conn):
        return None


async def passing(request, call_next):
    return await call_next(request)


def through(app, **kw):
    return http(app, headers=[(b"origin", b"https://o.example"), (b"accept-encoding", b"gzip"), (b"cookie", b"session=x")], scheme="https", **kw)


MIDDLEWARE = {
    "gzip": lambda app: GZipMiddleware(app, minimum_size=1),
    "cors": lambda app: CORSMiddleware(app, allow_origins=["https://o.example"]),
    "session": lambda app: SessionMiddleware(app, "k"),
    "trustedhost": lambda app: TrustedHostMiddleware(app, ["testserver"]),
    "https": HTTPSRedirectMiddleware,
    "auth": lambda app: AuthenticationMiddleware(app, NoBackend()),
    "errors": ServerErrorMiddleware,
    "errors-debug": lambda app: ServerErrorMiddleware(app, debug=True),
    "base": lambda app: BaseHTTPMiddleware(app, passing),
    "base-twice": lambda app: BaseHTTPMiddleware(BaseHTTPMiddleware(app, passing), passing),
    "base-cors-gzip": lambda app: BaseHTTPMiddleware(CORSMiddleware(GZipMiddleware(app, 1)), passing),
    "exceptions": ExceptionMiddleware,
}
for _m in MIDDLEWARE:
    for _w in WHERE:
        # A response that has started cannot be answered any more, and such an error is reported as a RuntimeError.
        _handled = _m == "exceptions"
        site("below-%s-%s" % (_m, _w), HTTP_ANSWERED if _handled and _w == "before" else (),
             (HTTPException, WebSocketException) if _handled and _w != "before" else HTTP_SKIP if _handled else ())(
            lambda b, m=_m, w=_w: through(MIDDLEWARE[m](raw(b, *WHERE[w]))))

site("dispatch")(lambda b: http(BaseHTTPMiddleware(ok_app, b.later)))


async def ok_app(scope, receive, send):
    await PlainTextResponse("ok")(scope, receive, send)


@site("dispatch-after")
def _(b):
    async def dispatch(request, call_next):
        await call_next(request)
        b()
    return http(BaseHTTPMiddleware(ok_app, dispatch))


@site("dispatch-response")
def _(b):
    class Resp(Response):
        async def __call__(self, scope, receive, send):
            b()

    async def dispatch(request, call_next):
        await call_next(request)
        return Resp()
    return http(BaseHTTPMiddleware(ok_app, dispatch))


@site("dispatch-retry")
def _(b):
    """The dispatch function sees the very error too, and may raise it on."""
    async def dispatch(request, call_next):
        try:
            return await call_next(request)
        except type(b.exc) as exc:
            if exc is not b.exc:
                raise Violation("call_next raised %r" % (exc,))
            raise
    return http(BaseHTTPMiddleware(raw(b), dispatch))


@site("auth-backend", (AuthenticationError,))
def _(b):
    class Back(AuthenticationBackend):
        async def authenticate(self, conn):
            b()
    return http(AuthenticationMiddleware(ok_app, Back()))


@site("auth-on-error")
def _(b):
    class Back(AuthenticationBackend):
        async def authenticate(self, conn):
            raise AuthenticationError("no")
    return http(AuthenticationMiddleware(ok_app, Back(), on_error=b))


@site("auth-backend-ws", (AuthenticationError,))
def _(b):
    class Back(AuthenticationBackend):
        async def authenticate(self, conn):
            b()
    return ws(AuthenticationMiddleware(ok_app, Back()))


# exception handlers that fail themselves
class Asked(Exception):
    pass


def raising(exc):
    async def f(request):
        raise exc
    return f


for _kind in ("async", "sync"):
    def _h(b, kind):
        if kind == "async":
            return b.later

        def h(request, exc):
            b()
        return h
    site("handler-class-" + _kind, (), HTTP_WS)(lambda b, k=_kind: in_app(Route("/", raising(Asked())), exception_handlers={Asked: _h(b, k)}))
    site("handler-status-" + _kind, (), HTTP_WS)(lambda b, k=_kind: in_app(Route("/", raising(HTTPException(418))), exception_handlers={418: _h(b, k)}))
    site("handler-500-" + _kind)(lambda b, k=_kind: http(Starlette(routes=[Route("/", raising(Asked()))], exception_handlers={500: _h(b, k)})))
    site("handler-ws-" + _kind, (), HTTP_WS)(lambda b, k=_kind: ws(Starlette(routes=[WebSocketRoute("/", raising(Asked()))], exception_handlers={Asked: _h(b, k)})))


# streams

def agen(b, n):
    async def gen():
        for i in range(n):
            yield b"c%d" % i
        b()
        yield b"never"
    return gen()


def sgen(b, n):
    for i in range(n):
        yield b"c%d" % i
    b()
    yield b"never"


class AIter:
    def __init__(self, b, n):
        self.b, self.n = b, n

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.n:
            await self.b.later()
        self.n -= 1
        return b"c"


class SIter:
    def __init__(self, b, n):
        self.b, self.n = b, n

    def __iter__(self):
        return self

    def __next__(self):
        if not self.n:
            self.b()
        self.n -= 1
        return b"c"


class IterFails:
    def __init__(self, b):
        self.b = b

    def __iter__(self):
        self.b()


SOURCES = {"agen": agen, "sgen": sgen, "aiter": AIter, "siter": SIter, "iter": lambda b, n: IterFails(b)}
for _s in SOURCES:
    for _n in (0, 1, 2):
        for _v in ("2.0", "2.3", "2.4"):
            if _s == "iter" and _n:
                continue
            site("stream-%s-%d-%s" % (_s, _n, _v))(lambda b, s=_s, n=_n, v=_v: http(StreamingResponse(SOURCES[s](b, n)), srv=asgi.Server(disconnect=None), spec=v))

site("iterate")(lambda b: _iterate(b, sgen(b, 1)))
site("iterate-object")(lambda b: _iterate(b, SIter(b, 1)))
site("iterate-iter")(lambda b: _iterate(b, IterFails(b)))


def _iterate(b, it):
    async def main():
        async for _ in iterate_in_threadpool(it):
            pass
    return main


@site("threadpool")
def _(b):
    async def main():
        await run_in_threadpool(b, 1, k=2)
    return main


# background tasks
for _n, _make in {"task": lambda b: BackgroundTask(b.later), "task-sync": lambda b: BackgroundTask(lambda: b()), "tasks": lambda b: BackgroundTasks([BackgroundTask(b.later), BackgroundTask(never)]),
                  "tasks-sync": lambda b: BackgroundTasks([BackgroundTask(lambda: b()), BackgroundTask(never)])}.items():
    site("background-" + _n)(lambda b, make=_make: http(PlainTextResponse("x", background=make(b))))
    site("background-stream-" + _n)(lambda b, make=_make: http(StreamingResponse(iter([b"x"]), background=make(b)), spec="2.4"))
    site("background-file-" + _n)(lambda b, make=_make: http(FileResponse(os.path.join(TOP, "f"), background=make(b))))
    site("background-app-" + _n, (), (HTTPException, WebSocketException))(lambda b, make=_make: http(Starlette(routes=[Route("/", lambda request: PlainTextResponse("x", background=make(b)))])))


def never():
    raise Violation("a task ran after one that failed")


# the server's side: failures of send() and receive() at every call

def failing_send(app_of, at, oserror=None, **kw):
    def make(b):
        srv = asgi.Server()
        send = srv.send

        async def fail(m):
            if len(srv.sent) == at:
                b()
            await send(m)

        async def main():
            await app_of()(asgi.scope("/", **kw), srv.receive, fail)
        main.srv = srv
        return main
    return make


SENDERS = {"plain": lambda: PlainTextResponse("x"), "stream": lambda: StreamingResponse(iter([b"x"])), "file": lambda: FileResponse(os.path.join(TOP, "f")),
           "gzip": lambda: GZipMiddleware(PlainTextResponse("x" * 600)), "cors": lambda: CORSMiddleware(PlainTextResponse("x"), ["*"]), "base": lambda: BaseHTTPMiddleware(PlainTextResponse("x"), passing)}
for _n, _f in SENDERS.items():
    for _at in (0, 1):
        site("send-%s-%d" % (_n, _at))(failing_send(_f, _at))
for _at in (0, 1, 2):
    # A failing transport is a disconnect here (spec 2.4): C02 judges it.
    site("send-stream24-%d" % _at, (), (OSError,))(failing_send(SENDERS["stream"], _at, spec="2.4"))

MULTI = [(b"content-type", b"multipart/form-data; boundary=b")]
PARTS = b'--b\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\ndata\r\n--b--\r\n'
READERS = {
    "body": (lambda r: r.body(), [], b"0123"), "json": (lambda r: r.json(), [], b"[12]"),
    "form-multi": (lambda r: r.form(), MULTI, PARTS), "form-url": (lambda r: r.form(), [(b"content-type", b"application/x-www-form-urlencoded")], b"a=1&b=2"),
    "stream": (lambda r: drain(r.stream()), [], b"0123"),
}


async def drain(s):
    async for _ in s:
        pass


def failing_receive(reader, at):
    def make(b):
        get, headers, data = READERS[reader]
        cut = len(data) // 2
        msgs = asgi.body_messages([data[:cut], data[cut:]])

        async def receive():
            if 2 - len(msgs) == at:
                b()
            return msgs.pop(0)

        async def main():
            await get(Request(asgi.scope("/", "POST", headers), receive))
        return main
    return make


for _n in READERS:
    for _at in (0, 1):
        # The parser's own complaints are MultiPartExceptions.
        site("receive-%s-%d" % (_n, _at))(failing_receive(_n, _at))


@site("receive-stream-response")
def _(b):
    async def receive():
        await anyio.lowlevel.checkpoint()
        b()

    async def gen():
        yield b"1"
        await anyio.sleep_forever()

    async def send(m):
        pass

    async def main():
        await StreamingResponse(gen())(asgi.scope("/"), receive, send)
    return main


@site("receive-is-disconnected")
def _(b):
    async def receive():
        b()

    async def main():
        await Request(asgi.scope("/"), receive).is_disconnected()
    return main


@site("form-body")
def _(b):
    """An error in the `async with request.form()` block."""
    async def main():
        msgs = asgi.body_messages([PARTS])

        async def receive():
            return msgs.pop(0)
        async with Request(asgi.scope("/", "POST", MULTI), receive).form():
            b()
    return main


# websockets

def ws_app(endpoint, **kw):
    return ws(Starlette(routes=[WebSocketRoute("/", endpoint)], **kw))


WS_ANSWERED = (WebSocketException,)


@site("ws-endpoint", WS_ANSWERED, WS_SKIP)
def _(b):
    async def f(websocket):
        await websocket.accept()
        b()
    return ws_app(f)


@site("ws-endpoint-first", WS_ANSWERED, WS_SKIP)
def _(b):
    return ws_app(b.later)


for _hook in ("on_connect", "on_receive", "on_disconnect"):
    @site("ws-class-" + _hook, WS_ANSWERED, WS_SKIP)
    def _(b, hook=_hook):
        async def f(self, *a):
            b()
        return ws_app(type("E", (WebSocketEndpoint,), {hook: f}))


@site("ws-bare")
def _(b):
    return ws(Router(routes=[WebSocketRoute("/", b.later)]))


for _m in ("session", "trustedhost", "auth", "errors", "gzip", "cors", "base"):
    site("ws-below-" + _m)(lambda b, m=_m: ws(MIDDLEWARE[m](raw(b))))
for _at in (0, 1):
    @site("ws-receive-%d" % _at)
    def _(b, at=_at):
        msgs = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "t"}]

        async def receive():
            if 2 - len(msgs) == at:
                b()
            return msgs.pop(0)

        async def send(m):
            pass

        async def main():
            w = WebSocket(asgi.scope("/", type="websocket"), receive, send)
            await w.accept()
            await w.receive_text()
        return main

    # OSError is a disconnect (C11).
    @site("ws-send-%d" % _at, (), (OSError,))
    def _(b, at=_at):
        sent = []

        async def receive():
            return {"type": "websocket.connect"}

        async def send(m):
            if len(sent) == at:
                b()
            sent.append(m)

        async def main():
            w = WebSocket(asgi.scope("/", type="websocket"), receive, send)
            await w.accept()
            await w.send_text("x")
        return main


# lifespan

def lifespan(app, b, want):
    async def main():
        sent = []
        msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

        async def receive():
            return msgs.pop(0)

        async def send(m):
            sent.append(m["type"])
        try:
            await app({"type": "lifespan", "asgi": {}, "state": {}}, receive, send)
        finally:
            if sent != want:
                raise Violation("lifespan messages %s, expected %s" % (sent, want))
    return main


FAILED_UP = ["lifespan.startup.failed"]
FAILED_DOWN = ["lifespan.startup.complete", "lifespan.shutdown.failed"]


@site("lifespan-startup")
def _(b):
    @contextlib.asynccontextmanager
    async def life(app):
        b()
        yield
    return lifespan(Starlette(lifespan=life), b, FAILED_UP)


@site("lifespan-shutdown")
def _(b):
    @contextlib.asynccontextmanager
    async def life(app):
        yield
        b()
    return lifespan(Starlette(lifespan=life), b, FAILED_DOWN)


for _k in ("async", "sync"):
    @site("on-startup-" + _k)
    def _(b, k=_k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return lifespan(Starlette(on_startup=[b.later if k == "async" else lambda: b()]), b, FAILED_UP)

    @site("on-shutdown-" + _k)
    def _(b, k=_k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return lifespan(Starlette(on_shutdown=[b.later if k == "async" else lambda: b()]), b, FAILED_DOWN)


# WSGI

def wsgi(app):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return http(WSGIMiddleware(app))


@site("wsgi-call")
def _(b):
    def app(environ, start_response):
        b()
    return wsgi(app)


@site("wsgi-exc-info")
def _(b):
    """An error answered by the WSGI application itself (PEP 3333) is raised once the answer is sent."""
    def app(environ, start_response):
        try:
            b()
        except BaseException:
            start_response("500 Failed", [], sys.exc_info())
        return [b"failed"]
    main = wsgi(app)
    main.expect = 500
    return main


for _n in (0, 1, 2):
    @site("wsgi-iter-%d" % _n)
    def _(b, n=_n):
        def app(environ, start_response):
            start_response("200 OK", [])
            return sgen(b, n)
        return wsgi(app)


@site("wsgi-close")
def _(b):
    class It(list):
        close = lambda self: b()

    def app(environ, start_response):
        start_response("200 OK", [])
        return It([b"x"])
    return wsgi(app)


# templates

def templates(b, text="{{ f() }}", processors=()):
    import jinja2

    t = Jinja2Templates(env=jinja2.Environment(loader=jinja2.DictLoader({"t": text})), context_processors=list(processors))

    async def main():
        t.TemplateResponse(Request(asgi.scope("/")), "t", {"f": b})
    return main


site("template-value")(lambda b: templates(b))
site("template-processor")(lambda b: templates(b, "x", [b]))


# the test client: what the application raised is raised to the test (BaseExceptions end the portal)

def client(app, what):
    def main(backend):
        c = TestClient(app, backend=backend)
        if what == "request":
            c.get("/")
        elif what == "context":
            with c:
                c.get("/")
        elif what == "connect":
            with c.websocket_connect("/"):
                pass
        elif what == "receive":
            with c.websocket_connect("/") as w:
                w.receive_text()
        elif what == "leave":
            with c.websocket_connect("/"):
                pass
    main.direct = True
    return main


for _n in WHERE:
    for _w in ("request", "context"):
        site("client-%s-%s" % (_w, _n), (), BasePlain)(lambda b, w=_w, n=_n: client(raw_http(b, *WHERE[n]), w))
for _at, _w in ((0, "connect"), (1, "receive"), (1, "leave")):
    site("client-ws-%s" % _w, (), (BasePlain,) + ((WebSocketDisconnect,) if _w == "receive" else ()))(lambda b, at=_at, w=_w: client(raw_ws(b, at), w))


def raw_http(b, *messages):
    inner = raw(b, *messages)

    async def app(scope, receive, send):
        if scope["type"] == "lifespan":
            await receive()
            await send({"type": "lifespan.startup.complete"})
            await receive()
            await send({"type": "lifespan.shutdown.complete"})
        else:
            await inner(scope, receive, send)
    return app


def raw_ws(b, at):
    async def app(scope, receive, send):
        await receive()
        if at:
            await send({"type": "websocket.accept"})
        b()
    return app


@site("client-startup", (), (BasePlain,))
def _(b):
    @contextlib.asynccontextmanager
    async def life(app):
        b()
        yield
    return client(Starlette(lifespan=life), "context")


@site("client-shutdown", (), (BasePlain,))
def _(b):
    @contextlib.asynccontextmanager
    async def life(app):
        yield
        b()
    return client(Starlette(lifespan=life, routes=[Route("/", ok)]), "context")


@site("client-block", (), (BasePlain,))
def _(b):
    """An error in the test's own `with` block."""
    def main(backend):
        with TestClient(Starlette(routes=[Route("/", ok)]), backend=backend) as c:
            c.get("/")
            b()
    main.direct = True
    return main


@site("client-ws-block", (), (BasePlain,))
def _(b):
    async def app(scope, receive, send):
        await receive()
        await send({"type": "websocket.accept"})
        await receive()

    def main(backend):
        with TestClient(app, backend=backend).websocket_connect("/"):
            b()
    main.direct = True
    return main


# configuration: TypeError and ValueError of a cast become a ValueError naming the key (C32)
@site("config-cast", (), (TypeError, ValueError))
def _(b):
    async def main():
        Config(environ={"K": "v"})("K", cast=b)
    return main


def same_group(got, want):
    """trio's nurseries derive a new group from the one raised in a task."""
    return (type(got) is type(want) is ExceptionGroup and got.message == want.message and len(got.exceptions) == len(want.exceptions)
            and all(a is b for a, b in zip(got.exceptions, want.exceptions)))


class Direct:
    exc = None


def direct(main, backend):
    out = Direct()
    try:
        main(backend)
    except Violation:
        raise
    except BaseException as exc:
        out.exc = exc
    return out


def setup():
    global TOP
    TOP = tempfile.mkdtemp(prefix="mc-c41-")
    with open(os.path.join(TOP, "f"), "wb") as f:
        f.write(b"content")


def teardown():
    shutil.rmtree(TOP, ignore_errors=True)


C.setup, C.teardown = setup, teardown


def site_cases(tier):
    for s in SITES:
        for b in ("asyncio", "trio"):
            yield {"site": s, "backend": b}


@C.family("sites", site_cases, "every place where user code runs x every class of error (builtin, of anyio, asyncio and Starlette, and of its own) x backend: the very same object reaches the caller, "
          "once, and nothing is left running; classes with a documented answer get it at the places documented")
def _(case, x):
    make, answered, skip = SITES[case["site"]]
    for name in ERRORS:
        b = Bomb(name)
        if skip and isinstance(b.exc, skip):
            continue
        if isinstance(b.exc, BasePlain) and ("base" in case["site"] or "dispatch" in case["site"]):
            # anyio's task groups group what is no Exception.
            continue
        x.step()
        main = make(b)
        if getattr(main, "direct", False) and isinstance(b.exc, Falsy):
            # concurrent.futures, through which the portal reports, loses a falsy exception.
            continue
        what = "%s raised in %s on %s" % (name, case["site"], case["backend"])
        with rt.vthreads("baton") if case["site"].startswith("wsgi") else contextlib.nullcontext() if getattr(main, "direct", False) else rt.vthreads("inline"):
            out = direct(main, case["backend"]) if getattr(main, "direct", False) else rt.run(main, None, case["backend"])
        if not getattr(main, "direct", False):
            asgi.settled(out)
        x.eq(b.calls, 1, "%s: times raised" % what)
        if answered and isinstance(b.exc, answered):
            x.check(out.exc is None, "%s has a documented answer, but surfaced" % what, out.exc)
            x.check(len(main.srv.sent) >= 1, "%s: no answer" % what)
            x.outcome((case["site"], "answered"))
            continue
        if out.exc is not b.exc and not (case["backend"] == "trio" and same_group(out.exc, b.exc)):
            x.fail("%s: %s reached the caller" % (what, "nothing" if out.exc is None else repr(out.exc)))
        x.check(b.exc.__cause__ is b.cause, "%s: the cause changed" % what, b.exc.__cause__)
        srv = getattr(main, "srv", None)
        if srv is not None and isinstance(srv, asgi.Server):
            starts = [m for m in srv.sent if m["type"] == "http.response.start"]
            x.check(len(starts) <= 1, "%s: %d responses started" % (what, len(starts)))
            if getattr(main, "expect", None) and isinstance(b.exc, Exception):
                x.eq(asgi.judge(srv.sent).status, main.expect, "%s: the answer" % what)
        x.outcome((case["site"], name))
