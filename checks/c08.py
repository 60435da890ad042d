"""C08 Every unhandled error ends in one 500 and reaches the server."""
from __future__ import annotations

import functools
import html
import re
import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute

C = Check("C08", ["the error handler itself does not raise"])


class Boom(Exception):
    pass


class Teapot(Exception):
    pass


SECRET = "s3cr<e>t&'\""
SITES = ["mw-outer", "mw-inner", "mw-after", "base-mw", "route-mw", "endpoint", "sync", "class", "mount", "sub-app", "raw", "raw-started", "raw-partial",
         "raw-complete", "stream-first", "stream-mid", "background", "handler", "bad-start", "gzip-endpoint", "cors-endpoint", "no-response", "raw-push", "raw-debug", "raw-hint"]
# messages of extensions that may precede the start of a response: they do not start it
EARLY = {"raw-push": {"type": "http.response.push", "path": "/p", "headers": []}, "raw-debug": {"type": "http.response.debug", "info": {"a": 1}},
         "raw-hint": {"type": "http.response.early_hint", "links": [b"</x>"]}}
# number of body chunks already sent / has the response started / complete when the error is raised
STARTED = {"raw-started": (b"", False), "raw-partial": (b"part", False), "raw-complete": (b"whole", True), "stream-first": (b"", False),
           "stream-mid": (b"one", False), "background": (b"done", True), "mw-after": (b"fine", True)}
HANDLERS = ["none", "500-async", "500-sync", "exc-async", "exc-sync", "partial", "object", "stream", "json", "both", "both-rev"]
EXC = {
    "boom": lambda: Boom(SECRET), "empty": lambda: Boom(), "key": lambda: KeyError(SECRET), "value": lambda: ValueError(SECRET), "os": lambda: OSError(5, SECRET),
    "runtime": lambda: RuntimeError(SECRET), "chained": lambda: chained(), "group": lambda: ExceptionGroup(SECRET, [Boom(SECRET), KeyError(1)]),
    "named": lambda: type("<Evil&>", (Exception,), {})(SECRET), "multi": lambda: Boom("line<1>\nline<2>"), "assert": lambda: AssertionError(SECRET),
    "badstr": lambda: BadStr(), "uni": lambda: Boom("\xe9\u20ac"), "sur": lambda: Boom("\udc80"), "args": lambda: Boom(1, [SECRET]),
    "format": lambda: Boom("{styles} {0} %s"),
}


def chained():
    e = Boom(SECRET)
    e.__cause__ = KeyError("<cause>")
    return e


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no str")

    __repr__ = __str__


class MW:
    def __init__(self, app, before=None, after=None):
        self.app, self.before, self.after = app, before, after

    async def __call__(self, scope, receive, send):
        if self.before:
            self.before()
        await self.app(scope, receive, send)
        if self.after:
            self.after()


class Box:
    exc = None
    calls = 0


def build(box, site, handler, debug, exckind, srv_fail=None):
    def boom(*a):
        box.exc = EXC[exckind]()
        raise box.exc

    async def ok(request):
        return PlainTextResponse("fine")

    async def endpoint(request):
        boom()

    def sync(request):
        boom()

    class Cls(HTTPEndpoint):
        async def get(self, request):
            boom()

    class Raw:
        def __init__(self, *ms):
            self.ms = ms

        async def __call__(self, scope, receive, send):
            for m in self.ms:
                await send(dict(m))
            boom()

    async def stream_first(request):
        async def gen():
            boom()
            yield b"x"
        return StreamingResponse(gen())

    async def stream_mid(request):
        async def gen():
            yield b"one"
            boom()
        return StreamingResponse(gen())

    async def background(request):
        return PlainTextResponse("done", background=BackgroundTask(boom))

    async def teapot(request):
        raise Teapot()

    async def base(request, call_next):
        boom()

    async def noresp(request):
        return None

    S = {"type": "http.response.start", "status": 200, "headers": []}
    mws, routes, eh = [], [Route("/x", endpoint)], {}
    if site == "mw-outer":
        mws, routes = [Middleware(MW, before=boom), Middleware(MW)], [Route("/x", ok)]
    elif site == "mw-inner":
        mws, routes = [Middleware(MW), Middleware(MW, before=boom)], [Route("/x", ok)]
    elif site == "mw-after":
        mws, routes = [Middleware(MW, after=boom)], [Route("/x", ok)]
    elif site == "base-mw":
        mws, routes = [Middleware(BaseHTTPMiddleware, dispatch=base)], [Route("/x", ok)]
    elif site == "route-mw":
        routes = [Route("/x", ok, middleware=[Middleware(MW, before=boom)])]
    elif site == "sync":
        routes = [Route("/x", sync)]
    elif site == "class":
        routes = [Route("/x", Cls)]
    elif site == "mount":
        routes = [Mount("/", routes=[Route("/x", endpoint)])]
    elif site == "sub-app":
        routes = [Mount("/", app=Starlette(debug=debug, routes=[Route("/x", endpoint)]))]
    elif site == "raw":
        routes = [Route("/x", Raw())]
    elif site in EARLY:
        routes = [Route("/x", Raw(EARLY[site]))]
    elif site == "raw-started":
        routes = [Route("/x", Raw(S))]
    elif site == "raw-partial":
        routes = [Route("/x", Raw(S, {"type": "http.response.body", "body": b"part", "more_body": True}))]
    elif site == "raw-complete":
        routes = [Route("/x", Raw(S, {"type": "http.response.body", "body": b"whole"}))]
    elif site == "stream-first":
        routes = [Route("/x", stream_first)]
    elif site == "stream-mid":
        routes = [Route("/x", stream_mid)]
    elif site == "background":
        routes = [Route("/x", background)]
    elif site == "handler":
        routes, eh = [Route("/x", teapot)], {Teapot: boom}
    elif site == "bad-start":
        async def bad(request):
            return Response(5)
        routes = [Route("/x", bad)]
    elif site == "gzip-endpoint":
        mws = [Middleware(GZipMiddleware, minimum_size=1)]
    elif site == "cors-endpoint":
        mws = [Middleware(CORSMiddleware, allow_origins=["*"])]
    elif site == "no-response":
        routes = [Route("/x", noresp)]

    def result():
        box.calls += 1
        if handler == "stream":
            return StreamingResponse([b"err", b"or!"], status_code=500)
        if handler == "json":
            return JSONResponse({"error": True}, status_code=503, headers={"x-h": "1"})
        return PlainTextResponse("handler", status_code=500, headers={"x-h": "1"})

    def h(request, exc):
        box.args = (request, exc)
        return result()

    async def ah(request, exc):
        return h(request, exc)

    class Obj:
        async def __call__(self, request, exc):
            return h(request, exc)

    def ph(n, request, exc):
        return h(request, exc)

    if handler in ("500-async", "stream", "json"):
        eh[500] = ah
    elif handler == "500-sync":
        eh[500] = h
    elif handler == "exc-async":
        eh[Exception] = ah
    elif handler == "exc-sync":
        eh[Exception] = h
    elif handler == "partial":
        eh[Exception] = functools.partial(ph, 1)
    elif handler == "object":
        eh[500] = Obj()
    elif handler == "both":
        eh[500], eh[Exception] = h, ah
    elif handler == "both-rev":
        eh[Exception], eh[500] = ah, h
    return Starlette(debug=debug, routes=routes, middleware=mws, exception_handlers=eh)


PLAIN500 = (500, [(b"content-length", b"21"), (b"content-type", b"text/plain; charset=utf-8")], b"Internal Server Error")


def judge_default(x, r):
    x.eq((r.status, sorted(r.headers), r.body), PLAIN500, "default 500 response")


def judge_handler(x, r, handler):
    if handler == "stream":
        x.eq((r.status, r.headers, r.body), (500, [], b"error!"), "handler's response")
    elif handler == "json":
        x.eq((r.status, r.get("x-h"), r.body), (503, b"1", b'{"error":true}'), "handler's response")
    else:
        x.eq((r.status, r.get("x-h"), r.body), (500, b"1", b"handler"), "handler's response")


RAWMARKS = ["<e>", "<Evil", "<cause>", "line<1>", "<3"]


def judge_debug(x, r, accept, exc):
    x.eq(r.status, 500, "status")
    body = r.body.decode("utf-8")
    name = type(exc).__name__
    if accept is not None and "text/html" in accept:
        x.eq(r.get("content-type"), b"text/html; charset=utf-8", "content-type")
        for mark in RAWMARKS:
            x.check(mark not in body, "unescaped %r in the debug page" % mark)
        x.check(html.escape(name) in body, "exception class %s not in the debug page" % name)
        text = None
        try:
            text = str(exc)
        except Exception:
            pass
        if text and "\udc80" not in text:
            x.check(html.escape(text) in body, "exception text not in the debug page", text)
        # every tag of the page belongs to the template
        import re

        tags = {t.lower() for t in re.findall(r"<\s*/?\s*([a-zA-Z!][\w-]*)", re.sub(r"(?s)<(style|script)[^>]*>.*?</\1>", "", body))}
        x.check(tags <= {"html", "head", "style", "title", "body", "h1", "h2", "div", "p", "span", "b", "i", "script", "center", "a", "br", "ol", "li", "table",
                         "tr", "td", "pre", "code", "!doctype", "meta"}, "foreign tags in the debug page", sorted(tags))
    else:
        x.eq(r.get("content-type"), b"text/plain; charset=utf-8", "content-type")
        x.check("Traceback" in body, "no traceback", body[:200])
        x.check(name in body, "exception class not in the traceback", body[-300:])


ACCEPTS = [None, "", "*/*", "text/html", "text/plain", "application/json", "text/plain;q=0.9, text/html;q=0.5"]


def run_one(x, site, handler, debug, exckind, accept, backend="asyncio", app=None, box=None, fail_at=None, yields=False, method="GET"):
    box = box or Box()
    app = app or build(box, site, handler, debug, exckind)
    box.exc, box.calls, box.args = None, 0, None
    headers = [(b"accept", accept.encode())] if accept is not None else []
    if site == "gzip-endpoint":
        headers.append((b"accept-encoding", b"gzip"))
    if site == "cors-endpoint":
        headers.append((b"origin", b"http://o"))
    srv, out = asgi.call(app, asgi.scope("/x", headers=headers, method=method), backend=backend, fail_at=fail_at, yields=yields)
    asgi.settled(out)
    exc = box.exc
    x.step(len(srv.sent) + 1)
    if site in ("bad-start", "no-response"):
        x.check(out.exc is not None, "an error was swallowed")
        exc = out.exc
    if fail_at is not None and srv.sends > fail_at:
        if site in EARLY:
            return
        x.check(out.exc is not None, "a failed send was swallowed")
        if fail_at == 0:
            # nothing reached the client; nothing may follow a failed start
            starts = [e for e in srv.log if e[0] == "sendfail" and e[1] == "http.response.start"]
            x.check(len(starts) <= 1, "a second start after a failed send", srv.log)
        return
    same = out.exc is exc
    if isinstance(exc, ExceptionGroup) and backend == "trio":  # trio's nurseries rebuild exception groups
        same = isinstance(out.exc, ExceptionGroup) and out.exc.exceptions == exc.exceptions
    x.check(same, "the server sees a %s instead of the exception" % type(out.exc).__name__)
    if site in EARLY:
        x.eq(srv.sent[:1], [EARLY[site]], "extension message")
        del srv.sent[:1]
    if site in STARTED:
        body, complete = STARTED[site]
        r = asgi.judge(srv.sent, need_complete=False)
        x.eq((r.status, r.body, r.complete), (200, body, complete), "what was sent before the error")
    elif site == "sub-app":
        # the inner application answers with its own (default or debug) 500
        r = asgi.judge(srv.sent)
        if debug:
            judge_debug(x, r, accept, exc)
        else:
            judge_default(x, r)
    else:
        r = asgi.judge(srv.sent)
        if debug:
            judge_debug(x, r, accept, exc)
        elif handler == "none":
            judge_default(x, r)
        else:
            judge_handler(x, r, handler)
            x.eq(box.calls, 1, "handler calls")
            req, e = box.args
            x.check(e is out.exc and isinstance(req, Request) and req.url.path == "/x", "handler arguments", box.args)
    if not debug:
        blob = repr(srv.sent)
        for word in ("s3cr", "Boom", "Traceback", "Evil", "line<"):
            x.check(word not in blob, "%r leaks into the response outside debug mode" % word, blob)
    x.outcome((site, handler, debug, exckind, accept, r.status, r.complete))


def cases_main(tier):
    for site in SITES:
        for exckind in EXC:
            yield (site, exckind)


@C.family("errors", cases_main, "raise site x exception kind x error handler x debug x Accept header; all failing-send positions")
def _(case, x):
    site, exckind = case
    for debug in (False, True):
        for handler in HANDLERS:
            for accept in ACCEPTS if debug and handler == "none" else [None, "text/html"]:
                run_one(x, site, handler, debug, exckind, accept)
    for fail in range(3):
        run_one(x, site, "none", False, exckind, None, fail_at=fail)
        run_one(x, site, "stream", False, exckind, None, fail_at=fail, yields=True)
    for method in ("HEAD", "POST", "OPTIONS"):
        if site in ("mw-outer", "base-mw", "raw", "mw-inner", "raw-partial"):
            run_one(x, site, "none", False, exckind, None, method=method)
            run_one(x, site, "500-async", False, exckind, None, method=method)


def cases_trio(tier):
    for site in SITES:
        for exckind in ("boom", "group", "os"):
            yield (site, exckind)


@C.family("trio", cases_trio, "the same on trio")
def _(case, x):
    site, exckind = case
    for debug in (False, True):
        for handler in ("none", "500-async", "exc-sync", "stream"):
            run_one(x, site, handler, debug, exckind, "text/html", backend="trio")


def cases_hist(tier):
    for handler in ("none", "500-async", "exc-sync"):
        for debug in (False, True):
            for hist in itertools.product(["endpoint", "raw-partial", "background", "fine", "http"], repeat=3 if tier == "quick" else 4):
                yield (handler, debug, hist)


@C.family("histories", cases_hist, "sequences of failing and succeeding requests to one application")
def _(case, x):
    handler, debug, hist = case
    box = Box()
    routes = []
    apps = {s: build(box, s, handler, debug, "boom") for s in ("endpoint", "raw-partial", "background")}

    async def fine(request):
        return PlainTextResponse("fine")

    async def http(request):
        raise HTTPException(418)

    eh = apps["endpoint"].exception_handlers
    for s, a in apps.items():
        routes.append(Route("/" + s, a.routes[0].endpoint))
    routes += [Route("/fine", fine), Route("/http", http)]
    app = Starlette(debug=debug, routes=routes, exception_handlers=eh)
    for s in hist:
        box.exc, box.calls = None, 0
        srv, out = asgi.call(app, asgi.scope("/" + s))
        asgi.settled(out)
        r = asgi.judge(srv.sent, need_complete=False)
        if s in ("fine", "http"):
            x.check(out.exc is None, "exception %r" % (out.exc,))
            x.eq((r.status, r.complete), (200 if s == "fine" else 418, True), "response")
        else:
            x.check(out.exc is box.exc and box.exc is not None, "exception %r" % (out.exc,))
            if s == "endpoint":
                if debug:
                    judge_debug(x, r, None, box.exc)
                elif handler == "none":
                    judge_default(x, r)
                else:
                    judge_handler(x, r, handler)
            else:
                x.eq((r.status, r.body, r.complete), (200,) + STARTED[s], "response")
        x.outcome((case, s))


SOURCES = {
    "tag": "def f():\n    x = '<script>alert(1)</script>'\n    raise Boom('<3' + x)\n",
    "amp": "def f():\n    a = 1 if 1 < 2 and 3 > 2 else '&amp;'\n    raise KeyError('<e>', \"'\")\n",
    "name": "def f():\n    g = lambda: 1 / 0\n    g.__name__ = '<Evil>'\n    g.__code__ = g.__code__.replace(co_name='<Evil>')\n    g()\n",
    "brace": "def f():\n    s = {'a': '{}', 'b': '{0} {styles}'}\n    raise Boom('{error}')\n",
    "long": "def f():\n" + "".join("    v%d = '<e>'\n" % i for i in range(20)) + "    raise Boom('x' * 5000)\n",
    "first": "raise Boom('first<3')\n",
    "rec": "def g(n):\n    if n: return g(n - 1)\n    raise Boom('<e>')\ndef f():\n    g(30)\n",
    "nofile": None,
}


def ns_line(exc, filename):
    """The line of the innermost frame, if it is one of that file."""
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_lineno if tb.tb_frame.f_code.co_filename == filename else None


def cases_source(tier):
    for name in SOURCES:
        for filename in ("/tmp/a.py", "<string>", "/tmp/<e>&\"'.py"):
            for accept in ACCEPTS:
                yield (name, filename, accept)


@C.family("debug-source", cases_source, "debug page for source text, file, function names and locals containing markup")
def _(case, x):
    name, filename, accept = case
    import linecache

    src = SOURCES[name]
    text = src or "def f():\n    raise Boom('<e>')\n"
    if src is not None:
        linecache.cache[filename] = (len(text), None, text.splitlines(True), filename)
    else:
        linecache.cache.pop(filename, None)
    try:
        ns = {"Boom": Boom}
        code = compile(text, filename, "exec")
        err = []

        async def ep(request):
            try:
                exec(code, ns)
                ns["f"]()
            except Exception as exc:
                err.append(exc)
                raise

        app = Starlette(debug=True, routes=[Route("/x", ep)])
        headers = [(b"accept", accept.encode())] if accept is not None else []
        srv, out = asgi.call(app, asgi.scope("/x", headers=headers))
        asgi.settled(out)
        x.check(out.exc is err[0], "exception %r" % (out.exc,))
        r = asgi.judge(srv.sent)
        judge_debug(x, r, accept, err[0])
        if accept is not None and "text/html" in accept:
            body = r.body.decode()
            x.check("<script>alert" not in body, "unescaped source")
            if "<e>" in filename:
                x.check(html.escape(filename) in body, "file name missing")
            shown = html.unescape(re.sub("<[^>]*>", "", body).replace("&nbsp", " "))
            line = ns_line(err[0], filename)
            if src is not None and line is not None:
                lines = text.splitlines()
                for n in range(max(1, line - 2), min(len(lines), line + 2) + 1):
                    x.check(re.search(r"(?<!\d)%d\W{1,3}%s" % (n, re.escape(lines[n - 1])), shown), "line %d of the source is not shown under its number" % n, shown[-1500:])
            if name == "tag":
                x.check("&lt;script&gt;alert" in body, "source line missing")
        x.outcome(case)
    finally:
        linecache.cache.pop(filename, None)


def cases_other(tier):
    for typ in ("websocket", "lifespan"):
        for debug in (False, True):
            for handler in (False, True):
                for fails in (False, True):
                    for backend in ("asyncio", "trio"):
                        yield (typ, debug, handler, fails, backend)


@C.family("other-scopes", cases_other, "websocket and lifespan traffic is passed through untouched")
def _(case, x):
    typ, debug, handler, fails, backend = case
    exc = Boom(SECRET)
    seen = []

    async def app(scope, receive, send):
        seen.append((scope, receive, send))
        m = await receive()
        await send({"type": typ + ".x", "got": m["type"]})
        if fails:
            raise exc

    def h(request, exc):
        x.fail("handler called for " + typ)

    top = ServerErrorMiddleware(app, handler=h if handler else None, debug=debug)
    srv = asgi.WSServer([{"type": typ + ".connect"}])
    sc = {"type": typ, "path": "/"}
    r, s = srv.receive, srv.send

    async def main():
        await top(sc, r, s)

    out = rt.run(main, None, backend)
    asgi.settled(out)
    x.check(seen == [(sc, r, s)] and seen[0][0] is sc, "scope, receive or send replaced")
    x.check(out.exc is (exc if fails else None), "exception %r" % (out.exc,))
    x.eq(srv.sent, [{"type": typ + ".x", "got": typ + ".connect"}], "messages")
    x.outcome(case)
