"""C06 Request/response middleware is transparent on every schedule."""
from __future__ import annotations

import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect
from starlette.responses import PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route

C = Check("C06", ["an application that stops without a final message is completed by the middleware",
                  "the first message of the inner application is a response start (or a debug message)"])


class Boom(Exception):
    pass


class Other(Exception):
    pass


HEADERS = {
    "none": [],
    "dup": [(b"set-cookie", b"a=1"), (b"x-a", b"1"), (b"set-cookie", b"b=2"), (b"x-a", b"1"), (b"x-a", b"0")],
    "len": [(b"content-length", b"3"), (b"content-type", b"text/plain")],
    "odd": [(b"x-e", b""), (b"x-u", b"\xe9\xff"), (b"x-h", b"inner")],
    None: None,
}
EXCS = {"Boom": Boom, "HTTP": lambda: HTTPException(418), "OSError": OSError, "Runtime": RuntimeError, "Gone": ClientDisconnect,
        "Key": KeyError}


def scripts(tier):
    """Lists of operations the innermost application performs."""
    bodies = []
    for n in range(0, 4 if tier != "quick" else 3):
        bodies += list(itertools.product([b"", b"a", b"bc"], repeat=n))
    starts = [("start", 200, "dup"), ("start", 404, "none"), ("start", 204, "odd"), ("start", 200, None)]
    for st in starts if tier != "quick" else starts[:2]:
        for chunks in bodies:
            for end in ("final", "last", "keyless", "missing"):
                ops = [st] + [("body", c, True) for c in chunks]
                if end == "final":
                    ops.append(("body", b"", False))
                elif end == "keyless":
                    ops.append(("body", None, None))
                elif end == "last":
                    if not chunks:
                        continue
                    ops[-1] = ("body", chunks[-1], False)
                yield tuple(ops)
    yield (("start", 200, "len"), ("body", b"abc", False))
    yield (("debug",), ("start", 200, "dup"), ("body", b"x", False))
    yield (("start", 200, None), ("body", b"abc", False))
    yield (("start", 204, "odd"), ("body", b"", False))
    yield ()


def with_raise(tier):
    for ops in scripts(tier):
        yield ops
        for i in range(len(ops) + 1):
            kinds = EXCS if (len(ops) <= 2 or tier != "quick") else ["Boom"]
            for k in kinds:
                yield ops[:i] + (("raise", k),)


def make_app(ops, log, reads=True):
    async def app(scope, receive, send):
        log.append("begin")
        if reads:
            while True:
                m = await receive()
                if m["type"] != "http.request" or not m.get("more_body", False):
                    break
        for op in ops:
            if op[0] == "start":
                m = {"type": "http.response.start", "status": op[1]}
                if op[2] is not None:
                    m["headers"] = list(HEADERS[op[2]])
                await send(m)
            elif op[0] == "body":
                m = {"type": "http.response.body"}
                if op[1] is not None:
                    m["body"] = op[1]
                if op[2] is not None:
                    m["more_body"] = op[2]
                await send(m)
            elif op[0] == "debug":
                await send({"type": "http.response.debug", "info": {"k": 1}})
            elif op[0] == "recv":
                m = await receive()
                log.append(("recv", m["type"]))
            elif op[0] == "raise":
                exc = EXCS[op[1]]()
                log.append(exc)
                raise exc
        log.append("end")

    return app


class O:
    """Abstract outcome of an application."""

    def __init__(self, started=False, status=None, headers=None, body=b"", complete=False, exc=None, debug=False):
        self.started, self.status, self.headers, self.body, self.complete, self.exc, self.debug = (
            started, status, headers, body, complete, exc, debug)

    def copy(self, **kw):
        o = O(self.started, self.status, self.headers, self.body, self.complete, self.exc, self.debug)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def key(self):
        return (self.started, self.status, tuple(self.headers or ()), self.body, self.complete, self.exc, self.debug)


def model_app(ops):
    o = O(headers=[])
    for op in ops:
        if op[0] == "start":
            o.started, o.status, o.headers = True, op[1], list(HEADERS[op[2]] or [])
        elif op[0] == "body":
            o.body += op[1] or b""
            o.complete = not op[2]
        elif op[0] == "debug":
            o.debug = True
        elif op[0] == "raise":
            o.exc = "app"
    return o


FIXED = [(b"content-length", b"8"), (b"content-type", b"text/plain; charset=utf-8")]


def model_layer(kind, o):
    if kind == "short":
        return O(True, 202, list(FIXED), b"replaced", True, None)
    if kind == "raise-before":
        return O(exc="dispatch", headers=[])
    if not o.started:
        exc = o.exc or "noresponse"
        if kind == "catch":
            return O(True, 202, list(FIXED), b"replaced", True, None)
        return O(exc=exc, headers=[])
    p = o.copy(complete=o.complete or o.exc is None)
    if kind == "raise-after":
        return O(exc="dispatch", headers=[])
    if kind == "header":
        hs = [h for h in p.headers]
        if any(k == b"x-h" for k, _ in hs):
            hs = [(k, b"set" if k == b"x-h" else v) for k, v in hs]
        else:
            hs.append((b"x-h", b"set"))
        p.headers = hs
    elif kind == "status":
        p.status = 299
    elif kind == "delete":
        p.headers = [h for h in p.headers if h[0] != b"set-cookie"]
    elif kind in ("replace", "replace-stream"):
        if kind == "replace":
            return O(True, 202, list(FIXED), b"replaced", True, o.exc)
        return O(True, 202, [], b"replaced", True, o.exc)
    elif kind == "wrap":
        p.body = p.body.upper()
        p.debug = False
    return p


def make_dispatch(kind, log, yields=False):
    async def dispatch(request, call_next):
        import anyio

        if kind == "short":
            return PlainTextResponse("replaced", status_code=202)
        if kind == "raise-before":
            raise log.setdefault("dexc", Other())
        if yields:
            await anyio.lowlevel.checkpoint()
        try:
            response = await call_next(request)
        except Exception:
            if kind == "catch":
                return PlainTextResponse("replaced", status_code=202)
            raise
        if yields:
            await anyio.lowlevel.checkpoint()
        if kind == "raise-after":
            raise log.setdefault("dexc", Other())
        if kind == "header":
            response.headers["x-h"] = "set"
        elif kind == "status":
            response.status_code = 299
        elif kind == "delete":
            del response.headers["set-cookie"]
        elif kind == "replace":
            return PlainTextResponse("replaced", status_code=202)
        elif kind == "replace-stream":
            async def gen():
                yield b"repl"
                await anyio.lowlevel.checkpoint()
                yield b"aced"
            return StreamingResponse(gen(), status_code=202)
        elif kind == "wrap":
            async def up(it):
                async for c in it:
                    yield c.upper()
            new = StreamingResponse(up(response.body_iterator), status_code=response.status_code)
            new.raw_headers = response.raw_headers
            return new
        elif kind == "bg":
            async def task():
                log["bg"] = log.get("bg", 0) + 1
            response.background = BackgroundTask(task)
        return response

    return dispatch


class Sub(BaseHTTPMiddleware):
    def __init__(self, app, fn):
        super().__init__(app)
        self.fn = fn

    async def dispatch(self, request, call_next):
        return await self.fn(request, call_next)


def wrap_all(app, kinds, log, yields=False):
    for i, k in reversed(list(enumerate(kinds))):
        d = make_dispatch(k, log, yields)
        app = BaseHTTPMiddleware(app, d) if i % 2 == 0 else Sub(app, d)
    return app


def observe(srv, out, applog, log):
    start = next((m for m in srv.sent if m["type"] == "http.response.start"), None)
    body = b"".join(m.get("body", b"") for m in srv.sent if m["type"] == "http.response.body")
    exc = out.exc
    if exc is None:
        e = None
    elif applog and exc is applog[-1]:
        e = "app"
    elif exc is log.get("dexc"):
        e = "dispatch"
    elif isinstance(exc, RuntimeError) and "No response" in str(exc):
        e = "noresponse"
    else:
        e = "%s: %s" % (type(exc).__name__, exc)
    return O(start is not None, start and start["status"], start.get("headers", []) if start else [], body, srv.complete, e,
             any(m["type"] == "http.response.debug" for m in srv.sent))


def run_one(x, ops, kinds, backend="asyncio", fail_at=None, yields=False, spec="2.3", app=None):
    applog, log = [], {}
    top = app or wrap_all(make_app(ops, applog), kinds, log, yields)
    if app is not None:
        applog, log = app.applog, app.log
        del applog[:]
        log.clear()
    srv = asgi.Server(fail_at=fail_at, yields=yields)

    async def main():
        await top(asgi.scope(spec=spec), srv.receive, srv.send)

    out = rt.run(main, None, backend)
    asgi.settled(out)
    want = model_app(ops)
    for k in reversed(kinds):
        want = model_layer(k, want)
    if srv.sent:
        asgi.judge(srv.sent, need_complete=False, framing=False, allow_empty=True)
    got = observe(srv, out, applog, log)
    x.step(len(ops) + len(srv.sent))
    if fail_at is not None and srv.sends > fail_at:
        x.check(isinstance(out.exc, asgi.TransportError) or (spec == "2.4" and isinstance(out.exc, ClientDisconnect)),
                "failed send surfaced as %r" % (out.exc,), srv.sent)
        x.check(want.body.startswith(got.body), "body sent before the failure", got.body, want.body)
        x.check(not srv.complete, "complete although a send failed", srv.sent)
        if got.started:
            x.eq((got.status, got.headers), (want.status, want.headers), "start")
        x.check(srv.sends == fail_at + 1, "sends continue after a failed send", srv.log)
    else:
        x.eq(got.key(), want.key(), "outcome behind %s" % (kinds,))
        if "bg" in kinds and want.complete and want.started and "raise-after" not in kinds:
            i = kinds.index("bg")
            if "short" not in kinds[:i] and "raise-before" not in kinds[:i]:
                inner = model_app(ops)
                for k in reversed(kinds[i:]):
                    inner = model_layer(k, inner)
                if inner.started and not any(k.startswith("replace") for k in kinds[:i]) and inner.complete and "wrap" not in kinds[:i]:
                    x.eq(log.get("bg"), 1 * kinds.count("bg"), "background of the response returned by dispatch")
    x.outcome((got.key(), len(srv.sent)))


KINDS = ["pass", "header", "status", "delete", "replace", "replace-stream", "wrap", "bg", "catch", "short", "raise-before", "raise-after"]


def cases_seq(tier):
    for ops in with_raise(tier):
        yield ops


@C.family("scripts", cases_seq, "application scripts (starts, header sets, chunk lists, ends, a raise at every position) x dispatch kinds, one and two middlewares, equal to the outcome model")
def _(case, x):
    ops = case
    for k in KINDS:
        run_one(x, ops, [k])
        run_one(x, ops, [k], yields=True)
        run_one(x, ops, [k], spec="2.4")
    two = KINDS if x.tier != "quick" or len(ops) <= 2 else ["pass", "header", "catch", "wrap"]
    for a in two:
        for b in two:
            run_one(x, ops, [a, b])
    n = sum(1 for o in ops if o[0] != "raise")
    for f in range(n + 1):
        for k in ("pass", "header", "wrap", "bg"):
            run_one(x, ops, [k], fail_at=f, yields=True)
        run_one(x, ops, ["pass", "pass"], fail_at=f)
        run_one(x, ops, ["pass", "header"], fail_at=f, yields=True)


def cases_trio(tier):
    for ops in with_raise("quick"):
        if len(ops) <= 3:
            yield ops


@C.family("trio", cases_trio, "the same on trio")
def _(case, x):
    for k in ("pass", "header", "replace", "wrap", "catch", "raise-after"):
        run_one(x, case, [k], backend="trio")
    run_one(x, case, ["pass", "pass"], backend="trio")
    for f in (0, 1):
        run_one(x, case, ["pass"], backend="trio", fail_at=f)


# ----------------------------------------------------------------- schedules


def cases_sched(tier):
    A = ("start", 200, "dup")
    scs = [
        (A, ("body", b"ab", False)),
        (A, ("body", b"a", True), ("body", b"b", False)),
        (A, ("body", b"a", True), ("body", b"", True), ("body", b"b", False)),
        (A, ("body", b"a", True), ("raise", "Boom")),
        (A, ("raise", "Boom")),
        (("raise", "Boom"),),
        (),
        (A, ("body", b"a", False), ("raise", "Boom")),
        (A, ("body", b"a", False), ("recv",), ("recv",)),
        (A, ("body", b"a", True), ("body", b"b", False), ("recv",), ("raise", "Boom")),
        (A, ("body", b"a", True)),
    ]
    for ops in scs:
        for kinds in (("pass",), ("header",), ("replace",), ("replace-stream",), ("wrap",), ("catch",), ("raise-after",), ("bg",),
                      ("pass", "pass"), ("header", "wrap"), ("replace", "pass"), ("catch", "pass")):
            for mode in ("s", "rsd", "rsdF"):
                for backend in ("asyncio", "trio"):
                    if backend == "trio" and (len(kinds) > 1 or mode == "rsd"):
                        continue
                    yield (ops, kinds, mode, backend)


@C.family("schedules", cases_sched, "gated sends/receives, client disconnect (with sends failing afterwards or not) at every point")
def _(case, x):
    ops, kinds, mode, backend = case

    def run(ch):
        env = rt.Env(ch, early=1)
        applog, log = [], {}
        top = wrap_all(make_app(ops, applog), list(kinds), log)
        srv = asgi.Server(env=env, gate=mode)
        srv.disconnect_fails = "F" in mode

        async def main():
            await top(asgi.scope(), srv.receive, srv.send)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        want = model_app(ops)
        for k in reversed(kinds):
            want = model_layer(k, want)
        if srv.sent:
            asgi.judge(srv.sent, need_complete=False, framing=False, allow_empty=True)
        got = observe(srv, out, applog, log)
        failed = any(e[0] == "sendfail" for e in srv.log)
        if failed:
            x.check(isinstance(out.exc, asgi.TransportError), "failed send surfaced as %r" % (out.exc,), srv.log)
            x.check(want.body.startswith(got.body), "body before the failure", got.body)
            x.check(len([e for e in srv.log if e[0] == "sendfail"]) == 1, "sends continue after a failed send", srv.log)
        elif srv.disconnected and ("wrap" in kinds or "replace-stream" in kinds):
            # a StreamingResponse stops when the client goes away
            x.check(want.body.startswith(got.body), "body is not a prefix", got.body)
            # a StreamingResponse that stops before its start leaves the outer middleware without a response
            x.check(got.exc in (None, want.exc) or (got.exc == "noresponse" and not got.started and len(kinds) > 1),
                    "exception %r" % (got.exc,), srv.log)
        else:
            x.eq(got.key(), want.key(), "outcome behind %s" % (kinds,))
        for e in applog:
            if isinstance(e, tuple) and e[0] == "recv":
                x.eq(e[1], "http.disconnect", "receive after the response")
        x.state(tuple(env.fired))
        x.outcome((got.key(), tuple(srv.log)))

    bound = 1 if backend == "asyncio" else 0
    if x.tier == "quick" and len(kinds) > 1 and mode != "s":
        bound = 0
    x.explore(run, bound + (x.tier != "quick"))


# ----------------------------------------------------------------- histories


def cases_hist(tier):
    A = ("start", 200, "dup")
    scs = [
        (A, ("body", b"ab", False)),
        (A, ("body", b"a", True), ("raise", "Boom")),
        (("raise", "Boom"),),
        (),
        (A, ("body", b"a", False), ("raise", "Boom")),
        (("debug",), A, ("body", b"z", False)),
    ]
    for kinds in (("pass",), ("header",), ("catch",), ("wrap",), ("bg",), ("pass", "header")):
        for hist in itertools.product(range(len(scs)), repeat=2 if tier == "quick" else 3):
            yield (kinds, tuple(scs[i] for i in hist))


@C.family("histories", cases_hist, "sequences of requests through the same middleware objects: each equals its solo outcome")
def _(case, x):
    kinds, hist = case
    applog, log = [], {}
    cur = [None]

    async def app(scope, receive, send):
        await make_app(cur[0], applog)(scope, receive, send)

    top = wrap_all(app, list(kinds), log)

    async def entry(scope, receive, send):
        await top(scope, receive, send)

    entry.applog, entry.log = applog, log
    for ops in hist:
        cur[0] = ops
        run_one(x, ops, list(kinds), app=entry)


# ------------------------------------------------------------ other scopes


def cases_other(tier):
    for typ in ("websocket", "lifespan", "custom"):
        for n in (1, 2):
            for backend in ("asyncio", "trio"):
                for fails in (False, True):
                    yield (typ, n, backend, fails)


@C.family("other-scopes", cases_other, "websocket, lifespan and unknown scopes pass through untouched")
def _(case, x):
    typ, n, backend, fails = case
    seen = []
    exc = Boom()

    async def app(scope, receive, send):
        seen.append((scope, receive, send))
        if fails:
            raise exc

    log = {}
    top = wrap_all(app, ["raise-before"] * n, log)
    sc = {"type": typ, "path": "/"}
    srv = asgi.WSServer([])
    r, s = srv.receive, srv.send

    async def main():
        await top(sc, r, s)

    out = rt.run(main, None, backend)
    asgi.settled(out)
    x.check(len(seen) == 1 and seen[0][0] is sc and seen[0][1] is r and seen[0][2] is s, "scope/receive/send replaced")
    x.check(out.exc is (exc if fails else None), "exception %r" % (out.exc,))
    x.eq(sc, {"type": typ, "path": "/"}, "scope")
    x.outcome(case)


# ------------------------------------------------ inside a whole application


def cases_app(tier):
    for where in ("app", "route", "mount", "app+mount", "two"):
        for ep in ("plain", "stream", "http", "boom", "stream-boom", "missing"):
            for kind in ("pass", "header", "catch"):
                for debug in (False, True):
                    yield (where, ep, kind, debug)


@C.family("applications", cases_app, "inside Starlette applications: same answer and exception as the application without the middleware")
def _(case, x):
    where, ep, kind, debug = case

    def build(kinds):
        log = {}

        async def endpoint(request):
            if ep == "plain":
                r = PlainTextResponse("hi", headers={"x-a": "1"})
                r.set_cookie("a", "1")
                r.set_cookie("b", "2")
                return r
            if ep == "http":
                raise HTTPException(418, "tea", headers={"x-t": "1"})
            if ep == "boom":
                raise Boom("b")

            async def gen():
                yield b"a"
                if ep == "stream-boom":
                    raise Boom("s")
                yield b"b"

            return StreamingResponse(gen())

        def mws(on):
            return [Middleware(BaseHTTPMiddleware, dispatch=make_dispatch(k, log)) for k in kinds] if on else []

        w = where.split("+")
        routes = [Route("/x", endpoint, middleware=mws("route" in w))]
        app = Starlette(debug=debug, routes=[Mount("/m", routes=routes, middleware=mws("mount" in w))],
                        middleware=mws("app" in w) if where != "two" else mws(True) + mws(True))
        return app

    res = []
    for kinds in ([], [kind]):
        app = build(kinds)
        srv, out = asgi.call(app, asgi.scope("/m/nope" if ep == "missing" else "/m/x"))
        asgi.settled(out)
        r = asgi.judge(srv.sent, need_complete=ep != "stream-boom")
        res.append((r, out.exc))
    (r0, e0), (r1, e1) = res
    hs = list(r0.headers)
    # the 404 of a mounted router is an exception while it passes the mount's middleware
    caught = kind == "catch" and (ep == "boom" or (ep == "missing" and "mount" in where))
    if caught:
        x.eq((r1.status, r1.body), (202, b"replaced"), "caught")
        x.check(e1 is None, "exception %r although dispatch handled it" % (e1,))
        return
    outer500 = ep == "boom"
    # a 404 of the mounted router never passes the route's middleware
    if kind == "header" and not outer500 and not (ep == "missing" and where in ("route", "mount")):
        hs.append((b"x-h", b"set"))
    if not (debug and ep == "boom"):  # the debug page shows the traceback, which names the middleware
        x.eq((r1.status, r1.headers, r1.body, r1.complete), (r0.status, hs, r0.body, r0.complete), "response")
    x.check(type(e0) is type(e1), "exception %r instead of %r" % (e1, e0))
    x.outcome((case, r1.key()))


# ------------------------------------------------- errors of receive() itself

RECV_ERRORS = {
    "413": lambda: HTTPException(413, "too large"),
    "key": lambda: KeyError("handled"),
    "boom": lambda: Boom("recv"),
    "os": lambda: OSError("lost"),
    "runtime": lambda: RuntimeError("recv"),
}


def cases_recv(tier):
    for err in RECV_ERRORS:
        for n in (1, 2, 3):
            for at in range(n + 1):
                for reader in ("raw", "body", "stream", "form", "background"):
                    for catch in ("no", "yes", "again"):
                        for where in ("app", "mount", "route", "app+mount", "app+app+route"):
                            for backend in ("asyncio", "trio"):
                                if backend == "trio" and (tier == "quick" and (n > 1 or where != "app+app+route")):
                                    continue
                                yield (err, n, at, reader, catch, where, backend)


@C.family("receive-errors", cases_recv, "receive() fails at every call (as a limiting middleware outside makes it) x error class x reader x what the endpoint does about it x 1-3 middlewares "
          "in every place: endpoint, handlers and server see the very error they see without the middleware")
def _(case, x):
    err, n, at, reader, catch, where, backend = case
    form = b"a=1&b=22&c=3"
    cut = -(-len(form) // n)

    def once(on):
        exc = RECV_ERRORS[err]()
        seen = []
        msgs = asgi.body_messages([form[i * cut:(i + 1) * cut] for i in range(n)])
        count = [0]

        async def receive():
            count[0] += 1
            if count[0] == at + 1:
                raise exc
            if count[0] > n + 1:
                raise AssertionError("receive() called %d times" % count[0])
            return msgs.pop(0) if msgs else {"type": "http.disconnect"}

        async def read(request):
            if reader == "body":
                return await request.body()
            if reader == "stream":
                return [c async for c in request.stream()]
            if reader == "form":
                return sorted((await request.form()).items())
            got = b""
            while True:
                m = await request.receive()
                if m["type"] == "http.disconnect":
                    return got
                got += m.get("body", b"")
                if reader == "background" and not m.get("more_body", False):
                    return got

        async def endpoint(request):
            if catch == "no":
                return PlainTextResponse(repr(await read(request)))
            try:
                got = await read(request)
            except Exception as e:
                seen.append(e)
                if catch == "again":
                    raise
                return PlainTextResponse("caught", status_code=202)
            return PlainTextResponse(repr(got))

        async def handler(request, e):
            seen.append(e)
            return PlainTextResponse("handled", status_code=409)

        async def plain(request, call_next):
            return await call_next(request)

        def mws(name):
            return [Middleware(BaseHTTPMiddleware, dispatch=plain) for w in where.split("+") if w == name and on]

        app = Starlette(routes=[Mount("/m", routes=[Route("/x", endpoint, methods=["POST"], middleware=mws("route"))], middleware=mws("mount"))],
                        middleware=mws("app"), exception_handlers={KeyError: handler})
        srv = asgi.Server()

        async def main():
            await app(asgi.scope("/m/x", "POST", [(b"content-type", b"application/x-www-form-urlencoded")]), receive, srv.send)

        out = rt.run(main, None, backend)
        asgi.settled(out)
        r = asgi.judge(srv.sent)
        return (r.status, r.headers, r.body), ["same" if e is exc else repr(e) for e in seen], "same" if out.exc is exc else repr(out.exc)

    want, got = once(False), once(True)
    x.eq(got[0], want[0], "response")
    x.eq(got[1], want[1], "errors seen by the endpoint and the handlers")
    x.eq(got[2], want[2], "error seen by the server")
    x.outcome((want[1], want[2], want[0][0]))
