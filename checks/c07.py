"""C07 Exceptions reach exactly the most specific handler."""
from __future__ import annotations

import functools
import http
import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket

C = Check("C07", ["handlers registered on an application for 500 or Exception belong to the error middleware (C08)",
                  "an HTTPException after a websocket was accepted is not specified"])


class A(Exception):
    pass


class Mixin:
    pass


class MixinExc(Exception):
    pass


class B(A):
    pass


class Cc(B):
    pass


class M(A, MixinExc):
    pass


class M2(MixinExc, A):
    pass


class H(HTTPException):
    pass


class HM(H, A):
    def __init__(self, code):
        H.__init__(self, code)


class W(WebSocketException):
    pass


KEYS = {"A": A, "B": B, "X": MixinExc, "HTTP": HTTPException, "H": H, "404": 404, "418": 418, "WS": WebSocketException}
RAISE = {
    "A": A, "B": B, "C": Cc, "M": M, "M2": M2, "X": MixinExc,
    "404": lambda: HTTPException(404), "418": lambda: HTTPException(418, "tea", {"x-t": "1"}), "400": lambda: HTTPException(400, detail="bad"),
    "H404": lambda: H(404), "H409": lambda: H(409), "HM404": lambda: HM(404), "HM409": lambda: HM(409),
    "Key": lambda: KeyError("k"), "Value": lambda: ValueError("v"), "204": lambda: HTTPException(204, headers={"x-t": "2"}),
    "304": lambda: HTTPException(304), "500": lambda: HTTPException(500),
}
SITES = ["endpoint", "sync-endpoint", "class", "started", "stream", "raw-route", "mount", "mount-raw", "sub-router", "asgi-mw", "base-mw", "route-mw",
         "nested-app", "default"]


def select(keys, exc):
    """Independent reading of the statement."""
    if isinstance(exc, HTTPException):
        for k in keys:
            if KEYS[k] == exc.status_code:
                return k
    for cls in type(exc).__mro__:
        for k in keys:
            if KEYS[k] is cls:
                return k
        if cls is HTTPException:
            return "default-http"
        if cls is WebSocketException:
            return "default-ws"
    return None


class Rec:
    def __init__(self):
        self.calls = []
        self.exc = None


def handler_for(rec, key, kind):
    def run(conn, exc):
        rec.calls.append((key, conn, exc, rt.VT.in_worker > 0))
        return PlainTextResponse("handled " + key, status_code=290, headers={"x-k": key})

    async def arun(conn, exc):
        return run(conn, exc)

    class Obj:
        async def __call__(self, conn, exc):
            return run(conn, exc)

    class Meth:
        async def meth(self, conn, exc):
            return run(conn, exc)

        def smeth(self, conn, exc):
            return run(conn, exc)

    def extra(n, conn, exc):
        assert n == 1
        return run(conn, exc)

    async def aextra(n, conn, exc):
        assert n == 1
        return run(conn, exc)

    return {"sync": run, "async": arun, "obj": Obj(), "meth": Meth().meth, "smeth": Meth().smeth, "partial": functools.partial(extra, 1),
            "apartial": functools.partial(aextra, 1)}[kind]


SYNC = ("sync", "smeth", "partial")


class Pass:
    def __init__(self, app, before=None, after=None):
        self.app, self.before = app, before

    async def __call__(self, scope, receive, send):
        if self.before:
            self.before()
        await self.app(scope, receive, send)


def build(rec, keys, hkind, site, raised, how="init"):
    def boom():
        rec.exc = RAISE[raised]()
        raise rec.exc

    async def endpoint(request):
        boom()

    def sync_endpoint(request):
        boom()

    class Cls(HTTPEndpoint):
        async def get(self, request):
            boom()

    async def ok(request):
        return PlainTextResponse("ok")

    async def stream_ep(request):
        async def gen():
            yield b"a"
            boom()
        return StreamingResponse(gen())

    async def raw(scope, receive, send):
        boom()

    async def started(scope, receive, send):
        await send({"type": "http.response.start", "status": 200, "headers": []})
        await send({"type": "http.response.body", "body": b"a", "more_body": True})
        boom()

    class Raw:
        async def __call__(self, scope, receive, send):
            await raw(scope, receive, send)

    class Started:
        async def __call__(self, scope, receive, send):
            await started(scope, receive, send)

    async def base(request, call_next):
        boom()

    mws, routes = [], []
    if site == "endpoint":
        routes = [Route("/x", endpoint)]
    elif site == "sync-endpoint":
        routes = [Route("/x", sync_endpoint)]
    elif site == "class":
        routes = [Route("/x", Cls)]
    elif site == "started":
        routes = [Route("/x", Started())]
    elif site == "stream":
        routes = [Route("/x", stream_ep)]
    elif site == "raw-route":
        routes = [Route("/x", Raw())]
    elif site == "mount":
        routes = [Mount("/", routes=[Route("/x", endpoint)])]
    elif site == "mount-raw":
        routes = [Mount("/", app=raw)]
    elif site == "sub-router":
        routes = [Mount("/", app=Router([Route("/x", endpoint)]))]
    elif site == "asgi-mw":
        mws, routes = [Middleware(Pass, before=boom)], [Route("/x", ok)]
    elif site == "base-mw":
        mws, routes = [Middleware(BaseHTTPMiddleware, dispatch=base)], [Route("/x", ok)]
    elif site == "route-mw":
        routes = [Route("/x", ok, middleware=[Middleware(Pass, before=boom)])]
    elif site == "nested-app":
        routes = [Mount("/", app=Starlette(routes=[Route("/x", endpoint)]))]
    handlers = {KEYS[k]: handler_for(rec, k, hkind) for k in keys}
    if how == "init":
        app = Starlette(routes=routes, middleware=mws, exception_handlers=handlers)
    elif how == "add":
        app = Starlette(routes=routes, middleware=mws)
        for k, h in handlers.items():
            app.add_exception_handler(k, h)
    elif how == "bare":
        app = ExceptionMiddleware(Router(routes), handlers)
    return app


def expect_default(exc):
    hs = [(k.lower().encode(), v.encode()) for k, v in (exc.headers or {}).items()]
    if exc.status_code in (204, 304):
        body = b""
        if exc.status_code == 204:
            return exc.status_code, hs, body
        return exc.status_code, None, body
    body = exc.detail.encode()
    return exc.status_code, hs + [(b"content-length", str(len(body)).encode()), (b"content-type", b"text/plain; charset=utf-8")], body


def judge(x, rec, keys, hkind, site, srv, out, how):
    exc = rec.exc
    key = select(keys, exc)
    started = site in ("started", "stream")
    if site in ("asgi-mw", "base-mw") and how != "bare":
        # application middleware is outside the exception handling
        x.check(not rec.calls, "a handler ran for an exception of an application middleware outside of it", rec.calls)
        x.check(out.exc is exc, "exception %r" % (out.exc,))
        x.eq(asgi.judge(srv.sent).status, 500, "status")
        return
    if site == "nested-app":
        # the inner application has no handlers of its own: defaults there, otherwise its 500, which is the one response
        if isinstance(exc, HTTPException):
            x.check(not rec.calls, "outer handler ran although the inner application answered", rec.calls)
            x.check(out.exc is None, "exception %r" % (out.exc,))
            x.eq(asgi.judge(srv.sent).status, exc.status_code, "status")
        else:
            x.check(not rec.calls, "second handler for one exception", rec.calls)
            x.eq(asgi.judge(srv.sent).status, 500, "status")
            x.check(out.exc is exc or (key and isinstance(out.exc, RuntimeError) and out.exc.__cause__ is exc), "exception %r" % (out.exc,))
        return
    if started:
        x.check(not rec.calls, "handler called although the response had started", rec.calls)
        x.check(not srv.complete, "the broken response was completed", srv.sent)
        r = asgi.judge(srv.sent, need_complete=False)
        x.eq((r.status, r.body), (200, b"a"), "partial response")
        x.check(out.exc is not None, "the server did not see an error")
        chain = [out.exc, out.exc.__cause__]
        x.check(exc in chain, "the original exception is not in %r" % (chain,))
        if key is None:
            x.check(out.exc is exc, "exception %r" % (out.exc,))
        return
    if key is None:
        x.check(not rec.calls, "a handler ran", rec.calls)
        x.check(out.exc is exc, "unhandled exception surfaced as %r" % (out.exc,))
        if how == "bare":
            x.check(not srv.sent, "something was sent", srv.sent)
        else:
            x.eq(asgi.judge(srv.sent).status, 500, "status")
        return
    x.check(out.exc is None, "handled exception still surfaced: %r" % (out.exc,))
    r = asgi.judge(srv.sent)
    if key == "default-http":
        st, hs, body = expect_default(exc)
        x.check(not rec.calls, "a handler ran", rec.calls)
        x.eq((r.status, r.body), (st, body), "default response")
        if hs is not None:
            x.eq(sorted(r.headers), sorted(hs), "default headers")
        return
    x.eq([c[0] for c in rec.calls], [key], "handlers called for %r with table %s" % (exc, keys))
    _, conn, e, inworker = rec.calls[0]
    x.check(e is exc, "handler got another exception")
    x.check(isinstance(conn, Request) and conn.scope["type"] == "http" and conn.url.path == "/x", "handler got %r" % (conn,))
    x.check(inworker == (hkind in SYNC), "handler ran in the wrong place (worker thread: %s)" % inworker)
    x.eq((r.status, r.body, r.get("x-k")), (290, b"handled " + key.encode(), key.encode()), "handler's response")


def subsets(keys, maxn=None):
    for n in range(len(keys) + 1):
        if maxn is not None and n > maxn and n != len(keys):
            continue
        yield from itertools.combinations(keys, n)


def cases_tables(tier):
    for keys in subsets([k for k in KEYS if k != "WS"], None if tier != "quick" else None):
        for raised in RAISE:
            yield (keys, raised)


def one(x, keys, raised, site, hkind, how, backend="asyncio", app=None, rec=None):
    if site == "default":
        return
    rec = rec or Rec()
    app = app or build(rec, keys, hkind, site, raised, how)
    del rec.calls[:]
    rec.exc = None
    srv, out = asgi.call(app, asgi.scope("/x"), backend=backend)
    asgi.settled(out)
    judge(x, rec, keys, hkind, site, srv, out, how)
    x.step(len(srv.sent) + len(rec.calls))
    x.outcome((keys, raised, site, [c[0] for c in rec.calls].__repr__(), srv.sent and srv.sent[0].get("status"), type(out.exc).__name__))


@C.family("tables", cases_tables, "every subset of 7 handler keys x 18 raised exceptions x raise sites")
def _(case, x):
    keys, raised = case
    for i, site in enumerate(SITES):
        kinds = ["sync", "async", "obj", "meth", "smeth", "partial", "apartial"]
        if x.tier != "quick" or len(keys) <= 1:
            for hk in kinds:
                one(x, keys, raised, site, hk, "init")
        else:
            one(x, keys, raised, site, kinds[(i + len(keys)) % len(kinds)], "init")
        if site in ("endpoint", "raw-route", "started", "sync-endpoint", "class"):
            one(x, keys, raised, site, "async", "add")
            one(x, keys, raised, site, "sync", "bare")
    # registration order is irrelevant
    one(x, keys[::-1], raised, "endpoint", "async", "init")


def cases_trio(tier):
    for keys in subsets(["A", "B", "404", "HTTP"]):
        for raised in ("A", "B", "404", "Key"):
            yield (keys, raised)


@C.family("trio", cases_trio, "a subset on trio")
def _(case, x):
    keys, raised = case
    for site in ("endpoint", "started", "sync-endpoint", "mount"):
        for hk in ("sync", "async"):
            one(x, keys, raised, site, hk, "init", backend="trio")


def cases_hist(tier):
    for site in ("endpoint", "raw-route", "started", "mount"):
        for keys in ((), ("A",), ("404", "HTTP"), ("A", "B", "X")):
            for hist in itertools.product(["A", "B", "M", "404", "Key"], repeat=2 if tier == "quick" else 3):
                yield (site, keys, hist)


@C.family("histories", cases_hist, "several requests to the same application: the tables do not change and nothing leaks")
def _(case, x):
    site, keys, hist = case
    rec = Rec()
    cur = [hist[0]]

    class Lookup(dict):
        def __getitem__(self, k):
            return dict.__getitem__(self, cur[0])

    global RAISE
    old = RAISE
    try:
        RAISE = Lookup(old)
        app = build(rec, keys, "async", site, hist[0])
        for raised in hist:
            cur[0] = raised
            one(x, keys, raised, site, "async", "init", app=app, rec=rec)
    finally:
        RAISE = old


def cases_default(tier):
    for st in http.HTTPStatus:
        if st.value >= 300 or st.value in (200, 204):
            for detail in (None, "", "d\xe9tail", "<b>&", "a\nb"):
                for headers in (None, {}, {"X-A": "1", "x-b": "2"}, {"content-type": "text/x"}, {"WWW-Authenticate": "Basic"}):
                    yield (st.value, detail, headers)


@C.family("default-http", cases_default, "default answer of HTTPException: all statuses x details x headers")
def _(case, x):
    code, detail, headers = case

    async def ep(request):
        raise HTTPException(code, detail=detail, headers=headers)

    app = Starlette(routes=[Route("/x", ep)])
    r = asgi.ok(app, asgi.scope("/x"), framing=False)
    want = http.HTTPStatus(code).phrase if detail is None else detail
    x.eq(r.status, code, "status")
    if code in (204, 304):
        x.eq(r.body, b"", "body")
    else:
        x.eq(r.body, want.encode(), "body")
        x.eq(r.all("content-length"), [str(len(r.body)).encode()], "content-length")
        ct = (headers or {}).get("content-type", "text/plain; charset=utf-8")
        x.eq(r.all("content-type"), [ct.encode()], "content-type")
    for k, v in (headers or {}).items():
        x.eq(r.all(k.lower()), [v.encode()], "header " + k)
    x.outcome((case[0], case[1], r.key()))


def cases_ws(tier):
    for keys in subsets(["A", "B", "X", "HTTP", "404", "WS"]):
        for raised in ("A", "B", "M", "404", "400", "ws", "ws-reason", "ws-sub", "Key"):
            for site in ("before", "after", "raw", "mount", "mw", "endpoint-class"):
                for hk in ("async", "sync"):
                    if hk == "sync" and (len(keys) != 1):
                        continue
                    yield (keys, raised, site, hk)


@C.family("websocket", cases_ws, "the same for websocket routes: default close code and reason, custom handlers, denial response before accept")
def _(case, x):
    keys, raised, site, hk = case
    rec = Rec()
    excs = dict(RAISE, **{"ws": lambda: WebSocketException(1011), "ws-reason": lambda: WebSocketException(4001, "why"),
                          "ws-sub": lambda: W(4002, reason="sub")})

    def boom():
        rec.exc = excs[raised]()
        raise rec.exc

    async def before(ws):
        boom()

    async def after(ws):
        await ws.accept()
        boom()

    class Raw:
        async def __call__(self, scope, receive, send):
            boom()

    from starlette.endpoints import WebSocketEndpoint

    class Ep(WebSocketEndpoint):
        encoding = "text"

        async def on_connect(self, ws):
            boom()

    async def noop(ws):
        await ws.accept()
        await ws.close()

    routes = {
        "before": [WebSocketRoute("/x", before)], "after": [WebSocketRoute("/x", after)], "raw": [WebSocketRoute("/x", Raw())],
        "mount": [Mount("/", routes=[WebSocketRoute("/x", before)])],
        "mw": [WebSocketRoute("/x", noop, middleware=[Middleware(Pass, before=boom)])],
        "endpoint-class": [WebSocketRoute("/x", Ep)],
    }[site]

    def mk(key):
        def run(ws, exc):
            rec.calls.append((key, ws, exc))

        async def arun(ws, exc):
            run(ws, exc)
            await ws.close(code=4444, reason=key)

        return arun if hk == "async" else run

    app = Starlette(routes=routes, exception_handlers={KEYS[k]: mk(k) for k in keys})
    srv = asgi.WSServer([{"type": "websocket.connect"}])

    async def main():
        await app(asgi.scope("/x", type="websocket"), srv.receive, srv.send)

    key_exc = excs[raised]()
    if site == "after" and isinstance(key_exc, HTTPException) and select(keys, key_exc) == "default-http":
        return
    out = rt.run(main)
    asgi.settled(out)
    exc = rec.exc
    key = select(keys, exc)
    sent = list(srv.sent)
    if site == "after":
        x.eq(sent.pop(0)["type"], "websocket.accept", "accept")
    if key is None:
        x.check(out.exc is exc, "unhandled exception surfaced as %r" % (out.exc,))
        x.check(not sent and not rec.calls, "something happened", sent, rec.calls)
    elif key == "default-ws":
        x.check(out.exc is None, "exception %r" % (out.exc,))
        x.eq([(m["type"], m.get("code"), m.get("reason")) for m in sent], [("websocket.close", exc.code, exc.reason or "")], "close")
    elif key == "default-http":
        x.check(out.exc is None, "exception %r" % (out.exc,))
        r = asgi.judge(sent, prefix="websocket.http.response")
        x.eq((r.status, r.body), (exc.status_code, exc.detail.encode()), "denial response")
    else:
        x.check(out.exc is None, "exception %r" % (out.exc,))
        x.eq([c[0] for c in rec.calls], [key], "handlers called")
        x.check(rec.calls[0][2] is exc and isinstance(rec.calls[0][1], WebSocket), "handler arguments", rec.calls)
        if hk == "async":
            x.eq([(m["type"], m.get("code"), m.get("reason")) for m in sent], [("websocket.close", 4444, key)], "close by the handler")
        else:
            x.eq(sent, [], "sent")
    x.outcome((case, repr(sent), type(out.exc).__name__))


def cases_chain(tier):
    for first in ("A", "404"):
        for second in ("B", "418", "X", "Key", "same"):
            for hk in ("sync", "async"):
                for site in ("endpoint", "raw-route", "mount"):
                    yield (first, second, hk, site)


@C.family("handler-raises", cases_chain, "a handler that raises: its exception is a new one, handled (at most once) or propagated as itself; the first handler never runs twice")
def _(case, x):
    first, second, hk, site = case
    rec = Rec()
    second_exc = []

    def boom():
        rec.exc = RAISE[first]()
        raise rec.exc

    def h1(request, exc):
        rec.calls.append(("first", exc))
        if len(rec.calls) > 5:
            x.fail("handler called again and again")
        if second == "same":
            raise exc
        second_exc.append(RAISE[second]())
        raise second_exc[-1]

    async def ah1(request, exc):
        h1(request, exc)

    def h2(request, exc):
        rec.calls.append(("second", exc))
        return PlainTextResponse("second", status_code=291)

    async def ep(request):
        boom()

    class Raw:
        async def __call__(self, scope, receive, send):
            boom()

    routes = {"endpoint": [Route("/x", ep)], "raw-route": [Route("/x", Raw())], "mount": [Mount("/", routes=[Route("/x", ep)])]}[site]
    table = {KEYS[first]: ah1 if hk == "async" else h1, MixinExc: h2}
    app = Starlette(routes=routes, exception_handlers=table)
    srv, out = asgi.call(app, asgi.scope("/x"))
    asgi.settled(out)
    r = asgi.judge(srv.sent)
    firsts = [e for k, e in rec.calls if k == "first"]
    x.check(firsts and firsts[0] is rec.exc, "the first handler did not get the exception")
    for e in rec.calls:
        pass
    if out.exc is None:
        last = second_exc[-1] if second_exc else rec.exc
        ok = (r.status == 291 and second == "X") or (second == "418" and r.status == 418)
        x.check(ok, "unexpected answer %r" % r)
    else:
        x.check(out.exc in second_exc + [rec.exc], "exception surfaced as %r" % (out.exc,))
        x.eq(r.status, 500, "status")
    x.outcome((case, r.status, tuple(k for k, _ in rec.calls)))


def cases_reg(tier):
    for keys in itertools.product(["A", "B", "404"], repeat=2):
        for first in ("init", "add"):
            yield (keys, first)


@C.family("registration", cases_reg, "re-registering a key: the last one wins, before the first request")
def _(case, x):
    keys, first = case
    calls = []

    def h(n):
        async def run(request, exc):
            calls.append(n)
            return PlainTextResponse(n)
        return run

    async def ep(request):
        raise RAISE[request.path_params["e"]]()

    routes = [Route("/x/{e}", ep)]
    if first == "init":
        app = Starlette(routes=routes, exception_handlers={KEYS[keys[0]]: h("one")})
    else:
        app = Starlette(routes=routes)
        app.add_exception_handler(KEYS[keys[0]], h("one"))
    app.add_exception_handler(KEYS[keys[1]], h("two"))
    table = {keys[0]: "one"}
    table[keys[1]] = "two"
    for raised in ("A", "B", "404"):
        del calls[:]
        srv, out = asgi.call(app, asgi.scope("/x/" + raised))
        k = select(tuple(table), RAISE[raised]())
        want = [table[k]] if k in table else []
        x.eq(calls, want, "handlers for %s" % raised)
        x.outcome((case, raised))
