"""C30 Authentication gates exactly the credentials required."""
from __future__ import annotations

import functools
import itertools
from urllib.parse import parse_qsl

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.authentication import (AuthCredentials, AuthenticationBackend, AuthenticationError, BaseUser, SimpleUser, UnauthenticatedUser,
                                      requires)
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import JSONResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket

C = Check("C30", [
    "scopes are strings; the decorated callable takes its connection as an argument called request or websocket",
    "an on_error callback is a plain function of the connection and the error",
])

SCOPES = ["a", "b", "ab"]


def cred_header(granted):
    return [(b"x-scopes", ",".join(granted).encode())]


class Backend(AuthenticationBackend):
    """Grants what the request's header asks for."""

    def __init__(self, env=None):
        self.calls = []
        self.env = env
        self.given = []

    async def authenticate(self, conn):
        self.calls.append(conn.scope)
        who = conn.headers.get("x-user")
        if self.env is not None:
            await rt.Gate(self.env).wait("auth-%s" % who)
        raw = conn.headers.get("x-scopes")
        if raw is None:
            return None
        if raw == "!":
            raise AuthenticationError("bad credentials of %s" % who)
        res = AuthCredentials([s for s in raw.split(",") if s]), SimpleUser(who or "someone")
        self.given.append(res)
        return res


# ------------------------------------------------------------------- requires()

class Rec:
    def __init__(self):
        self.entered = []
        self.allowed = None

    def enter(self, conn, *args, **kw):
        self.entered.append((conn, args, kw))
        return PlainTextResponse("in", headers={"x-in": "1"})


def http_kinds(rec, deco):
    """name -> function(request) returning a response (or awaitable), as an endpoint would be."""

    def sync_first(request):
        return rec.enter(request)

    async def async_first(request):
        return rec.enter(request)

    def sync_mid(one, request, two=2):
        return rec.enter(request, one, two)

    async def async_mid(one, request, two=2):
        return rec.enter(request, one, two)

    async def async_last(one, two, *, request):
        return rec.enter(request, one, two)

    def sync_last(one, two, *, request):
        return rec.enter(request, one, two)

    async def async_var(request, *args, **kw):
        return rec.enter(request, *args, **kw)

    async def async_star(*args, request, **kw):
        return rec.enter(request, *args, **kw)

    def sync_star(*args, request, **kw):
        return rec.enter(request, *args, **kw)

    class Obj:
        def s(self, request):
            return rec.enter(request)

        async def a(self, request):
            return rec.enter(request)

    class Call:
        async def __call__(self, request):
            return rec.enter(request)

    class SCall:
        def __call__(self, request):
            return rec.enter(request)

    class Decorated:
        @deco
        async def a(self, request):
            return rec.enter(request)

        @deco
        def s(self, request):
            return rec.enter(request)

        @staticmethod
        @deco
        async def st(request):
            return rec.enter(request)

        @classmethod
        @deco
        def cl(cls, request):
            return rec.enter(request)

    def before(x, request):
        return rec.enter(request, x)

    async def abefore(x, request):
        return rec.enter(request, x)

    sm, am, al, sl, av, ax, sx = map(deco, (sync_mid, async_mid, async_last, sync_last, async_var, async_star, sync_star))
    d = Decorated()
    return {
        "sync": deco(sync_first), "async": deco(async_first),
        "sync-mid": lambda request: sm(1, request), "async-mid": lambda request: am(1, request, 3),
        "sync-mid-kw": lambda request: sm(request=request, one=1), "async-mid-kw": lambda request: am(1, two=4, request=request),
        "async-kwonly": lambda request: al(1, 2, request=request), "sync-kwonly": lambda request: sl(two=1, one=2, request=request),
        "async-star": lambda request: ax(1, 2, 3, request=request, y=0), "sync-star": lambda request: sx(1, 2, 3, request=request),
        "async-var": lambda request: av(request, 1, 2, z=3),
        "bound-sync": deco(Obj().s), "bound-async": deco(Obj().a),
        "callable": deco(Call()), "sync-callable": deco(SCall()),
        "method-async": d.a, "method-sync": d.s, "static": d.st, "classmethod": d.cl,
        "method-kw": lambda request: d.a(request=request),
        "partial-sync": deco(functools.partial(before, 1)), "partial-async": deco(functools.partial(abefore, 1)),
        "double": deco(deco(async_first)), "double-sync": deco(deco(sync_first)),
    }


ARGS = {"sync-mid": ((1, 2), {}), "async-mid": ((1, 3), {}), "sync-mid-kw": ((1, 2), {}), "async-mid-kw": ((1, 4), {}), "async-kwonly": ((1, 2), {}),
        "sync-kwonly": ((2, 1), {}), "async-var": ((1, 2), {"z": 3}), "async-star": ((1, 2, 3), {"y": 0}),
        "sync-star": ((1, 2, 3), {}), "partial-sync": ((1,), {}), "partial-async": ((1,), {})}
KINDS = list(http_kinds(Rec(), lambda f: f))


def is_async(kind):
    return not ("sync" in kind.replace("async", "") or kind in ("classmethod",))


def endpoint_of(fn, kind):
    if is_async(kind) and kind in ("async-mid", "async-mid-kw", "async-kwonly", "async-var", "async-star", "method-kw"):
        async def endpoint(request):
            return await fn(request)

        return endpoint
    if kind in ("partial-sync", "partial-async", "callable", "sync-callable") or isinstance(fn, functools.partial):
        return fn
    return fn


def class_endpoint(rec, deco, sync):
    if sync:
        class E(HTTPEndpoint):
            @deco
            def get(self, request):
                return rec.enter(request)

            def post(self, request):
                return PlainTextResponse("open")
    else:
        class E(HTTPEndpoint):
            @deco
            async def get(self, request):
                return rec.enter(request)

            async def post(self, request):
                return PlainTextResponse("open")
    return E


REQUIRED = [[], "a", "ab", ""] + [list(p) for n in (1, 2) for p in itertools.product(SCOPES, repeat=n)] + [("a", "b"), ["a", "b", "ab"], [""]]
GRANTED = [None] + [list(p) for n in range(4) for p in itertools.combinations(SCOPES, n)] + [["b", "a"], ["ab", "ab"], ["abc"], ["A"], ["a:b"], ["a.b", "a/b"], ["*"], ["b:a", "a*"], [" a"]]
OPTIONS = {"plain": {}, "401": {"status_code": 401}, "redirect": {"redirect": "login"}, "both": {"status_code": 404, "redirect": "login"}}


def need_of(required):
    return [required] if isinstance(required, str) else list(required)


def gate_cases(tier):
    kinds = KINDS + ["class-sync", "class-async"]
    for k in kinds:
        for o in OPTIONS:
            yield {"kind": k, "option": o, "backend": "asyncio"}
        yield {"kind": k, "option": "plain", "backend": "trio"}


def make_app(routes, backend, handlers=None):
    return Starlette(routes=routes, middleware=[Middleware(AuthenticationMiddleware, backend=backend)], exception_handlers=handlers)


async def login(request):
    return PlainTextResponse("login")


def expect_denied(x, resp, option, url, msg, base="http://testserver"):
    opt = OPTIONS[option]
    if "redirect" in opt:
        x.eq(resp.status, 303, "%s: redirect status" % msg)
        loc = resp.get("location").decode("latin-1")
        target, _, q = loc.partition("?")
        x.eq(target, base + "/login", "%s: redirect target" % msg)
        x.eq(parse_qsl(q, keep_blank_values=True), [("next", url)], "%s: next" % msg)
    else:
        x.eq(resp.status, opt.get("status_code", 403), "%s: status" % msg)
        x.check(resp.get("location") is None, "%s: location" % msg)
    x.check(resp.get("x-in") is None, "%s: the function's response was sent" % msg, resp)


@C.family("gate", gate_cases, "requires() runs the function iff every required scope was granted: kinds x options x required lists x granted sets")
def _(case, x):
    kind, option = case["kind"], case["option"]
    required = REQUIRED if x.tier == "thorough" or option == "plain" else REQUIRED[:12]
    for req in required:
        rec = Rec()
        lst = list(req) if isinstance(req, list) else req
        deco = requires(lst, **OPTIONS[option])
        if kind.startswith("class"):
            ep = class_endpoint(rec, deco, kind == "class-sync")
        else:
            ep = endpoint_of(http_kinds(rec, deco)[kind], kind)
        if isinstance(lst, list):
            lst.append("later")  # the decorator keeps what it was given
            lst.reverse()
        backend = Backend()
        app = make_app([Route("/e", ep, name="e"), Route("/login", login, name="login")], backend)
        need = need_of(req)
        todo = []
        for granted in GRANTED:
            sc = asgi.scope("/e", headers=cred_header(granted) if granted is not None else ())
            todo.append((granted, sc, asgi.Server()))

        async def main():
            for granted, sc, srv in todo:
                n = len(rec.entered)
                await app(sc, srv.receive, srv.send)
                srv.entered = rec.entered[n:]

        asgi.result(rt.run(main, None, case["backend"]))
        for granted, sc, srv in todo:
            x.step()
            msg = "%s %s requires %r, granted %r" % (kind, option, req, granted)
            allowed = set(need) <= set(granted or [])
            r = asgi.judge(srv.sent)
            if allowed:
                x.eq((r.status, r.body), (200, b"in"), "%s: response" % msg)
                x.eq(len(srv.entered), 1, "%s: calls" % msg)
                conn, args, kw = srv.entered[0]
                x.check(isinstance(conn, Request), "%s: connection argument" % msg, conn)
                x.eq(conn.scope.get("user"), sc["user"], "%s: user of the request" % msg)
                x.eq((args, kw), ARGS.get(kind, ((), {})), "%s: other arguments" % msg)
            else:
                x.eq(srv.entered, [], "%s: function entered" % msg)
                expect_denied(x, r, option, "http://testserver/e", msg)
        x.eq(len(backend.calls), len(todo), "%s: backend calls" % kind)
        x.outcome((kind, option, str(req)))
    if kind.startswith("class"):
        app = make_app([Route("/e", ep)], Backend())
        r = asgi.ok(app, asgi.scope("/e", method="POST"))
        x.eq(r.body, b"open", "undecorated method")


# ------------------------------------------------------------- websocket gates

WS_KINDS = ["func", "kw", "star", "second", "callable", "bound", "endpoint-connect", "endpoint-receive", "double"]


def ws_endpoint(kind, rec, deco):
    async def func(websocket):
        rec.enter(websocket)
        await websocket.accept()
        await websocket.send_text("in")
        await websocket.close(1001)

    if kind == "func":
        return deco(func)
    if kind == "double":
        return deco(deco(func))
    if kind == "kw":
        async def kwonly(one, *, websocket):
            await func(websocket)

        f = deco(kwonly)

        async def outer(websocket):
            await f(1, websocket=websocket)

        return outer
    if kind == "star":
        async def star(*args, websocket):
            await func(websocket)

        st = deco(star)

        async def outer_star(websocket):
            await st(1, 2, websocket=websocket)

        return outer_star
    if kind == "second":
        async def second(one, websocket, two):
            await func(websocket)

        g = deco(second)

        async def outer2(websocket):
            await g(1, websocket, two=3)

        return outer2
    if kind == "callable":
        class Call:
            async def __call__(self, websocket):
                await func(websocket)

        c = deco(Call())

        async def outer3(websocket):
            await c(websocket)

        return outer3
    if kind == "bound":
        class O:
            @deco
            async def m(self, websocket):
                await func(websocket)

        return O().m
    if kind == "endpoint-connect":
        class E(WebSocketEndpoint):
            encoding = "text"

            @deco
            async def on_connect(self, websocket):
                rec.enter(websocket)
                await websocket.accept()
                await websocket.send_text("in")
                await websocket.close(1001)

        return E
    if kind == "endpoint-receive":
        class E2(WebSocketEndpoint):
            encoding = "text"

            @deco
            async def on_receive(self, websocket, data):
                rec.enter(websocket)
                await websocket.send_text("in")
                await websocket.close(1001)

        return E2


def ws_gate_cases(tier):
    for k in WS_KINDS:
        for b in ("asyncio", "trio"):
            yield {"kind": k, "backend": b}


@C.family("ws-gate", ws_gate_cases, "requires() on websocket callables: entered iff allowed, otherwise one close and nothing else")
def _(case, x):
    kind = case["kind"]
    for req in REQUIRED:
        rec = Rec()
        app = make_app([WebSocketRoute("/e", ws_endpoint(kind, rec, requires(req)))], Backend())
        need = need_of(req)
        todo = []
        for granted in GRANTED:
            sc = asgi.scope("/e", type="websocket", headers=cred_header(granted) if granted is not None else ())
            incoming = [{"type": "websocket.connect"}]
            if kind == "endpoint-receive":
                incoming.append({"type": "websocket.receive", "text": "hello"})
            incoming.append({"type": "websocket.disconnect", "code": 1000})
            todo.append((granted, sc, asgi.WSServer(incoming)))

        async def main():
            for granted, sc, srv in todo:
                n = len(rec.entered)
                await app(sc, srv.receive, srv.send)
                srv.entered = rec.entered[n:]

        asgi.result(rt.run(main, None, case["backend"]))
        for granted, sc, srv in todo:
            x.step()
            msg = "%s requires %r, granted %r" % (kind, req, granted)
            types = [m["type"] for m in srv.sent]
            if set(need) <= set(granted or []):
                x.eq(len(srv.entered), 1, "%s: calls" % msg)
                x.check(isinstance(srv.entered[0][0], WebSocket), "%s: connection" % msg)
                x.eq(types, ["websocket.accept", "websocket.send", "websocket.close"], "%s: messages" % msg)
            else:
                x.eq(srv.entered, [], "%s: function entered" % msg)
                want = ["websocket.accept", "websocket.close"] if kind == "endpoint-receive" else ["websocket.close"]
                x.eq(types, want, "%s: messages" % msg)
            x.outcome((kind, str(req), len(types)))


# ----------------------------------------------------------- the redirect's URL

PATHS = ["/e", "/e/", "/e/x y", "/e/\xe9", "/e/a+b", "/e/a%20b", "/e/a&b", "/e/a=b", "/e/\u20ac", "/e//x", "/e/a;b", "/e/#", "/e/?x"]
QUERIES = [b"", b"a=1", b"a=1&next=2", b"q=%26%3D%20", b"q=a+b", b"a=%E2%82%AC", b"next=http://x/?y=z", b"a=#b", b"??", b"a"]


def next_cases(tier):
    for place in ("root", "mount", "root_path", "https", "port"):
        for b in ("async", "sync", "class"):
            yield {"place": place, "kind": b}


@C.family("next", next_cases, "a redirect carries the requested URL in next: paths x query strings x hosts, mounts and schemes")
def _(case, x):
    place, kind = case["place"], case["kind"]
    rec = Rec()
    deco = requires("a", redirect="login")
    if kind == "class":
        ep = class_endpoint(rec, deco, False)
    else:
        ep = http_kinds(rec, deco)[kind]
    routes = [Route("/login", login, name="login"), Route("/e{rest:path}", ep)]
    kw, base, prefix = {}, "http://testserver", ""
    if place == "mount":
        routes = [Route("/login", login, name="login"), Mount("/m", routes=[Route("/e{rest:path}", ep)])]
        prefix = "/m"
    elif place == "root_path":
        kw = {"root_path": "/rp"}
        prefix = "/rp"
    elif place == "https":
        kw, base = {"scheme": "https", "host": b"h.example"}, "https://h.example"
    elif place == "port":
        kw, base = {"host": b"h:8000"}, "http://h:8000"
    app = make_app(routes, Backend())
    todo = []
    for p in PATHS:
        for q in QUERIES:
            todo.append((p, q, asgi.scope(prefix + p, query=q, headers=cred_header(["b"]), **kw), asgi.Server()))

    async def main():
        for p, q, sc, srv in todo:
            srv.url = str(Request(dict(sc)).url)
            await app(sc, srv.receive, srv.send)

    asgi.result(rt.run(main))
    for p, q, sc, srv in todo:
        x.step()
        msg = "%s %s %r?%r" % (place, kind, p, q)
        x.check(srv.url.startswith(base + prefix + "/e"), "%s: reference URL" % msg, srv.url)
        if q:
            x.check(srv.url.endswith("?" + q.decode()), "%s: reference query" % msg, srv.url)
        login_base = base + ("/rp" if place == "root_path" else "")
        expect_denied(x, asgi.judge(srv.sent), "redirect", srv.url, msg, login_base)
        x.outcome((place, kind, p, q))
    x.eq(rec.entered, [], "function entered")


# ------------------------------------------------------------------ middleware

class Who(BaseUser):
    is_authenticated = True
    display_name = "who"
    identity = "id"


class SubError(AuthenticationError):
    pass


class Quiet(Who):
    """A user that counts as false, like an empty profile."""

    def __len__(self):
        return 0


class QuietCredentials(AuthCredentials):
    def __bool__(self):
        return False


ME = Who()
OUTCOMES = ["none", "creds", "tuple-list", "empty", "falsy", "error", "suberror", "emptyerror", "valueerror", "httperror"]
ON_ERROR = [None, "custom", "stream", "class", "raise"]
INSIDE = ["endpoint", "sync", "class", "mount", "host", "base", "raw", "nested-app", "handler", "raise-auth", "raise-other", "nested-auth", "raw-asgi"]


class OneShot(AuthenticationBackend):
    def __init__(self, outcome):
        self.outcome = outcome
        self.conns = []
        self.auth = None

    async def authenticate(self, conn):
        self.conns.append(conn)
        o = self.outcome
        if o == "none":
            return None
        if o == "creds":
            self.auth = AuthCredentials(["a"]), ME
            return self.auth
        if o == "tuple-list":
            self.auth = [AuthCredentials(("a", "b")), ME]
            return self.auth
        if o == "empty":
            self.auth = AuthCredentials(), ME
            return self.auth
        if o == "falsy":
            self.auth = QuietCredentials(["q"]), Quiet()
            return self.auth
        if o == "error":
            raise AuthenticationError("no \xe9")
        if o == "suberror":
            raise SubError("sub")
        if o == "emptyerror":
            raise AuthenticationError()
        if o == "valueerror":
            raise ValueError("broken backend")
        if o == "httperror":
            raise HTTPException(418, "from backend")


def view_app(inside, seen, make_mw):
    """An application recording the connection's credentials at `inside`."""

    def note(conn):
        seen.append((conn.auth, conn.user, conn.scope))

    async def endpoint(request):
        note(request)
        return PlainTextResponse("ok")

    def sync(request):
        note(request)
        return PlainTextResponse("ok")

    class Cls(HTTPEndpoint):
        async def get(self, request):
            note(request)
            return PlainTextResponse("ok")

    async def ws(websocket):
        note(websocket)
        await websocket.accept()
        await websocket.close()

    async def ws_raise(websocket):
        note(websocket)
        raise AuthenticationError("inside") if inside == "raise-auth" else KeyError("inside")

    async def raise_auth(request):
        note(request)
        raise AuthenticationError("inside")

    async def raise_other(request):
        note(request)
        raise KeyError("inside")

    async def raw(scope, receive, send):
        note(HTTPConnection(scope))
        if scope["type"] == "websocket":
            await receive()
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.close"})
        else:
            await PlainTextResponse("ok")(scope, receive, send)

    plain = [Route("/e", endpoint), WebSocketRoute("/e", ws)]
    if inside == "endpoint":
        return make_mw(Router(plain))
    if inside == "sync":
        return make_mw(Router([Route("/e", sync), WebSocketRoute("/e", ws)]))
    if inside == "class":
        class WSE(WebSocketEndpoint):
            async def on_connect(self, websocket):
                note(websocket)
                await websocket.accept()
                await websocket.close()

        return make_mw(Router([Route("/e", Cls), WebSocketRoute("/e", WSE)]))
    if inside == "mount":
        return make_mw(Router([Mount("/", routes=[Mount("", routes=plain)])]))
    if inside == "host":
        return make_mw(Router([Host("{sub}", Router(plain))]))
    if inside == "nested-app":
        return make_mw(Starlette(routes=[Mount("/", Starlette(routes=plain))]))
    if inside == "raw":
        return make_mw(raw)
    if inside == "raw-asgi":
        class Thru:
            def __init__(self, app):
                self.app = app

            async def __call__(self, scope, receive, send):
                await self.app(dict(scope), receive, send)

        return make_mw(Thru(Router(plain)))
    if inside == "base":
        async def dispatch(request, call_next):
            note(request)
            r = await call_next(request)
            note(request)
            return r

        return make_mw(BaseHTTPMiddleware(Router(plain), dispatch=dispatch))
    if inside == "handler":
        async def handler(request, exc):
            note(request)
            return PlainTextResponse("ok")

        async def boom(request):
            raise KeyError("x")

        return make_mw(Starlette(routes=[Route("/e", boom), WebSocketRoute("/e", ws)], exception_handlers={KeyError: handler}))
    if inside == "raise-auth":
        return make_mw(Router([Route("/e", raise_auth), WebSocketRoute("/e", ws_raise)]))
    if inside == "raise-other":
        return make_mw(Router([Route("/e", raise_other), WebSocketRoute("/e", ws_raise)]))
    if inside == "nested-auth":
        outer = AuthenticationMiddleware(make_mw(Router(plain)), backend=Fixed())
        return outer


class Fixed(AuthenticationBackend):
    async def authenticate(self, conn):
        return AuthCredentials(["outer"]), SimpleUser("outer")


def mw_cases(tier):
    for inside in INSIDE:
        for b in ("asyncio", "trio"):
            yield {"inside": inside, "backend": b}


@C.family("middleware", mw_cases, "backend outcomes x on_error x connection type x position of the observer")
def _(case, x):
    inside = case["inside"]
    for outcome, onerr, typ in itertools.product(OUTCOMES, ON_ERROR, ("http", "websocket", "lifespan")):
        x.step()
        backend = OneShot(outcome)
        errs = []

        def custom(conn, exc):
            errs.append((conn, exc))
            if onerr == "raise":
                raise LookupError("on_error failed")
            if onerr == "stream":
                return StreamingResponse(iter([b"st", b"ream"]), status_code=499)
            if onerr == "class":
                return JSONResponse({"e": str(exc)}, status_code=401, headers={"www-authenticate": "Basic"})
            return Response("custom " + str(exc), status_code=402)

        def make_mw(app):
            return AuthenticationMiddleware(app, backend=backend, **({} if onerr is None else {"on_error": custom}))

        seen = []
        msg = "%s/%s/%s/%s" % (inside, outcome, onerr, typ)
        if typ == "lifespan":
            got = []

            async def inner(scope, receive, send):
                got.append((scope, receive, send, dict(scope)))

            if onerr not in (None, "custom"):
                continue
            mw = make_mw(inner)
            sc = {"type": "lifespan", "asgi": {}, "state": {}}
            before = dict(sc)

            async def recv():
                return {}

            async def snd(m):
                pass

            async def main_l():
                await mw(sc, recv, snd)

            asgi.result(rt.run(main_l, None, case["backend"]))
            x.eq(len(got), 1, "%s: lifespan calls" % msg)
            x.check(got[0][1] is recv and got[0][2] is snd and dict(got[0][0]) == before, "%s: lifespan changed" % msg, got)
            x.eq(backend.conns, [], "%s: backend called for lifespan" % msg)
            continue
        app = view_app(inside, seen, make_mw)
        sc = asgi.scope("/e", type=typ)
        if typ == "http":
            srv = asgi.Server()
        else:
            srv = asgi.WSServer([{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}])

        async def main():
            await app(sc, srv.receive, srv.send)

        out = rt.run(main, None, case["backend"])
        asgi.settled(out)
        x.eq(len(backend.conns), 1, "%s: backend calls" % msg)
        bconn = backend.conns[0]
        x.check(isinstance(bconn, HTTPConnection) and bconn.scope["path"] == "/e" and bconn.scope["type"] == typ, "%s: backend's connection" % msg)
        x.outcome((inside, outcome, onerr, typ, len(srv.sent)))
        if outcome in ("error", "suberror", "emptyerror"):
            text = {"error": "no \xe9", "suberror": "sub", "emptyerror": ""}[outcome]
            x.eq(seen, [], "%s: application reached" % msg)
            if onerr == "raise" and errs:
                x.check(isinstance(out.exc, LookupError), "%s: on_error's exception" % msg, out.exc)
                x.eq(srv.sent, [], "%s: messages" % msg)
                continue
            x.check(out.exc is None, "%s: raised" % msg, out.exc)
            if typ == "websocket":
                x.eq([m["type"] for m in srv.sent], ["websocket.close"], "%s: messages" % msg)
                continue
            r = asgi.judge(srv.sent)
            if onerr is None:
                x.eq((r.status, r.body), (400, text.encode()), "%s: default response" % msg)
                x.check((r.get("content-type") or b"").startswith(b"text/plain"), "%s: type" % msg)
            else:
                x.eq(len(errs), 1, "%s: on_error calls" % msg)
                x.check(isinstance(errs[0][0], HTTPConnection) and errs[0][0].scope["path"] == "/e" and isinstance(errs[0][1], AuthenticationError)
                        and str(errs[0][1]) == text, "%s: on_error arguments" % msg, errs)
                want = {"custom": (402, ("custom " + text).encode()), "stream": (499, b"stream"), "class": (401, JSONResponse({"e": text}).body)}[onerr]
                x.eq((r.status, r.body), want, "%s: on_error's response" % msg)
                if onerr == "class":
                    x.eq(r.get("www-authenticate"), b"Basic", "%s: headers" % msg)
            continue
        x.eq(errs, [], "%s: on_error called" % msg)
        if outcome in ("valueerror", "httperror"):
            x.check(isinstance(out.exc, ValueError if outcome == "valueerror" else HTTPException), "%s: backend's exception" % msg, out.exc)
            x.eq((seen, srv.sent), ([], []), "%s: effects" % msg)
            continue
        x.check(len(seen) >= 1, "%s: application not reached" % msg)
        for auth, user, scope in seen:
            if outcome == "none":
                x.check(isinstance(auth, AuthCredentials) and list(auth.scopes) == [], "%s: auth" % msg, auth.scopes)
                x.check(isinstance(user, UnauthenticatedUser) and not user.is_authenticated and user.display_name == "", "%s: user" % msg, user)
            else:
                x.check(auth is backend.auth[0] and user is backend.auth[1], "%s: auth or user is not the backend's" % msg, (auth, user))
                x.eq(list(auth.scopes), {"creds": ["a"], "tuple-list": ["a", "b"], "empty": [], "falsy": ["q"]}[outcome], "%s: scopes" % msg)
        if inside in ("raise-auth", "raise-other"):
            x.check(type(out.exc) is (AuthenticationError if inside == "raise-auth" else KeyError), "%s: application's exception" % msg, out.exc)
            x.eq(srv.sent, [], "%s: messages" % msg)
        else:
            x.check(out.exc is None, "%s: raised" % msg, out.exc)
            if typ == "http":
                r = asgi.judge(srv.sent)
                x.eq((r.status, r.body), (200, b"ok"), "%s: response" % msg)
            else:
                x.eq([m["type"] for m in srv.sent], ["websocket.accept", "websocket.close"], "%s: messages" % msg)


# ---------------------------------------------------------------------- pairs

WHO = {"anon": None, "ua": ["a"], "ub": ["b"], "uab": ["a", "b"], "bad": ["!"], "drop": ["a"]}


def pair_app(backend, env):
    deco_a, deco_b = requires("a"), requires(["b"], status_code=401)

    async def show(request, word):
        first = (request.user, request.auth)
        if env is not None:
            await rt.Gate(env).wait("work-%s" % request.headers["x-user"])
        again = (request.user, request.auth)
        if first[0] is not again[0] or first[1] is not again[1]:
            raise Violation("credentials changed during the request")
        return PlainTextResponse("%s %s %s" % (word, request.user.display_name, ",".join(request.auth.scopes)))

    @deco_a
    async def fa(request):
        return await show(request, "a")

    @deco_b
    async def fb(request):
        return await show(request, "b")

    @deco_a
    def sa(one, request):
        return PlainTextResponse("s %s %s" % (request.user.display_name, ",".join(request.auth.scopes)))

    def s_route(request):
        return sa(1, request)

    @deco_a
    async def ws(websocket):
        await websocket.accept()
        if env is not None:
            await rt.Gate(env).wait("ws-%s" % websocket.headers["x-user"])
        await websocket.send_text("%s %s" % (websocket.user.display_name, ",".join(websocket.auth.scopes)))
        await websocket.close()

    async def free(request):
        return await show(request, "free")

    return make_app([Route("/a", fa), Route("/b", fb), Route("/s", s_route), Route("/free", free), WebSocketRoute("/ws", ws)], backend)


def pair_expect(who, path):
    g = WHO[who]
    if g == ["!"]:
        return ("ws", ["websocket.close"]) if path == "/ws" else (400, b"bad credentials of bad")
    need = {"/a": "a", "/b": "b", "/s": "a", "/ws": "a", "/free": None}[path]
    name = who if g is not None else ""
    if need is not None and need not in (g or []):
        return ("ws", ["websocket.close"]) if path == "/ws" else ((401 if path == "/b" else 403), None)
    text = "%s %s" % (name, ",".join(g or []))
    if path == "/ws":
        return ("ws", ["websocket.accept", "websocket.send", "websocket.close"], text)
    return 200, ({"/a": "a ", "/b": "b ", "/s": "s ", "/free": "free "}[path] + text).encode()


def connect(who, path, env=None):
    hs = [(b"x-user", who.encode())]
    if WHO[who] is not None:
        hs.append((b"x-scopes", ",".join(WHO[who]).encode()))
    if path == "/ws":
        return asgi.scope(path, type="websocket", headers=hs), asgi.WSServer([{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}])
    return asgi.scope(path, headers=hs), asgi.Server()


def pair_check(x, who, path, srv, msg):
    want = pair_expect(who, path)
    if path == "/ws":
        x.eq([m["type"] for m in srv.sent], want[1], "%s: messages" % msg)
        if len(want) > 2:
            x.eq(srv.sent[1].get("text"), want[2], "%s: text" % msg)
        return
    r = asgi.judge(srv.sent)
    x.eq(r.status, want[0], "%s: status" % msg)
    if want[1] is not None:
        x.eq(r.body, want[1], "%s: body" % msg)


def pair_cases(tier):
    paths = ["/a", "/b", "/s", "/free", "/ws"]
    conns = [(w, p) for w in ("anon", "ua", "ub", "uab", "bad") for p in paths]
    for i, c1 in enumerate(conns):
        for b in ("asyncio", "trio") if tier == "thorough" else ("asyncio",):
            yield {"first": list(c1), "backend": b}
    if tier != "thorough":
        yield {"first": ["ua", "/a"], "backend": "trio"}
        yield {"first": ["anon", "/ws"], "backend": "trio"}


@C.family("pairs", pair_cases, "two connections in flight through one application with different credentials, at every interleaving of their suspension points")
def _(case, x):
    import anyio

    w1, p1 = case["first"]
    for w2 in WHO:
        for p2 in ["/a", "/b", "/s", "/free", "/ws"]:
            if w2 == "drop":
                continue
            msg = "%s %s with %s %s" % (w1, p1, w2, p2)

            def run(ch):
                env = rt.Env(ch, early=1)
                app = pair_app(Backend(env), env)
                a, b = connect(w1, p1), connect(w2, p2)

                async def main():
                    async with anyio.create_task_group() as tg:
                        tg.start_soon(app, a[0], a[1].receive, a[1].send)
                        tg.start_soon(app, b[0], b[1].receive, b[1].send)

                with rt.vthreads("env"):
                    asgi.result(rt.run(main, env, case["backend"]))
                pair_check(x, w1, p1, a[1], msg + ": first")
                pair_check(x, w2, p2, b[1], msg + ": second")
                x.outcome((msg, tuple(env.fired)))

            x.explore(run, bound=2 if x.tier == "thorough" else 1)


def history_cases(tier):
    yield {"backend": "asyncio"}
    yield {"backend": "trio"}


@C.family("history", history_cases, "all sequences of three connections through one application")
def _(case, x):
    conns = [(w, p) for w in ("anon", "ua", "ub", "bad") for p in ("/a", "/b", "/ws")]
    depth = 3 if x.tier == "thorough" or case["backend"] == "asyncio" else 2
    app = pair_app(Backend(), None)
    for first in conns:
        for second in conns:
            todo = []

            async def main():
                for seq in itertools.product([first], [second], *([conns] * (depth - 2))):
                    for w, p in seq:
                        sc, srv = connect(w, p)
                        await app(sc, srv.receive, srv.send)
                        todo.append((seq, w, p, srv))

            asgi.result(rt.run(main, None, case["backend"]))
            for seq, w, p, srv in todo:
                x.step()
                pair_check(x, w, p, srv, "%r: %s %s" % (seq, w, p))
            x.outcome((first, second))


def misc_cases(tier):
    yield {"k": "refused"}
    yield {"k": "inputs"}
    yield {"k": "outcome"}


@C.family("misc", misc_cases, "functions without a connection are refused, credentials keep the given scopes, wrapped results and exceptions pass through")
def _(case, x):
    if case["k"] == "refused":
        async def nothing(conn):
            pass

        def none():
            pass

        for f in (nothing, none, lambda req, ws: None):
            x.step()
            try:
                requires("a")(f)
            except Exception:
                pass
            else:
                x.fail("requires() accepted a function without a connection argument")
        return
    if case["k"] == "inputs":
        for given in (None, [], ["a"], ("a", "b"), iter(["a", "c"]), {"k": 1}):
            want = [] if given is None else ["a", "c"] if not isinstance(given, (list, tuple, dict)) else list(given)
            x.eq(AuthCredentials(given).scopes, want, "scopes given %r" % (given,))
            x.step()
        src = ["a"]
        c = AuthCredentials(src)
        d = AuthCredentials()
        src.append("b")
        c.scopes.append("c")
        x.eq((c.scopes, d.scopes, AuthCredentials().scopes, src), (["a", "c"], [], [], ["a", "b"]), "scopes are shared")
        u = SimpleUser("n\xe9")
        x.eq((u.is_authenticated, u.display_name), (True, "n\xe9"), "simple user")
        return
    marker = object()

    @requires("a")
    def sync(request):
        return marker

    @requires("a")
    async def asyn(request):
        return marker

    @requires("a")
    def sync_raise(request):
        raise KeyError(marker)

    @requires("a")
    async def asyn_raise(request):
        raise KeyError(marker)

    @requires("a")
    async def ws_raise(websocket):
        raise KeyError(marker)

    sc = asgi.scope("/")
    sc["auth"] = AuthCredentials(["a"])
    req = Request(sc)
    wsc = asgi.scope("/", type="websocket")
    wsc["auth"] = AuthCredentials(["a"])
    ws = WebSocket(wsc, None, None)
    x.check(sync(req) is marker and sync(request=req) is marker, "sync result")
    x.eq((sync.__name__, asyn.__name__), ("sync", "asyn"), "names")

    async def main():
        x.check(await asyn(req) is marker and await asyn(request=req) is marker, "async result")
        for f, a in ((asyn_raise, req), (ws_raise, ws)):
            try:
                await f(a)
            except KeyError as e:
                x.check(e.args[0] is marker, "exception")
            else:
                x.fail("exception lost")

    asgi.result(rt.run(main))
    try:
        sync_raise(req)
    except KeyError as e:
        x.check(e.args[0] is marker, "exception")
    else:
        x.fail("exception lost")
    x.step(5)
