"""C43 Built-in middleware compose: each does its part, in every order and place."""
from __future__ import annotations

import itertools
import json
import os
import tempfile
import warnings
import zlib
from base64 import b64decode, b64encode

import itsdangerous
from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute

C = Check("C43", ["what each middleware does alone is judged by C06, C07, C26 to C30; here only what one makes of the other's work"])

SIGNER = itsdangerous.TimestampSigner("secret")
ORIGIN = b"https://o.example"


class Mine(Exception):
    pass


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        value = conn.headers.get("authorization")
        if value is None:
            return None
        if value == "bad":
            raise AuthenticationError("bad credentials")
        return AuthCredentials(["authenticated"]), SimpleUser(value)


class Pure:
    def __init__(self, app, n):
        self.app, self.n = app, n

    async def __call__(self, scope, receive, send):
        async def wrapped(message):
            if message["type"] == "http.response.start":
                message = {**message, "headers": [*message.get("headers", []), (b"x-asgi", b"%d" % self.n)]}
            await send(message)
        await self.app(scope, receive, wrapped)


def dispatcher(n):
    async def dispatch(request, call_next):
        if request.headers.get("x-short"):
            return PlainTextResponse("short", 203)
        response = await call_next(request)
        response.headers.append("x-base-%d" % n, "1")
        return response
    return dispatch


async def mine_handler(request, exc):
    return PlainTextResponse("mine", 418)


class WithMine(ExceptionMiddleware):
    def __init__(self, app):
        super().__init__(app, handlers={Mine: mine_handler})


def layer(kind, n):
    return {
        "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=dispatcher(n)),
        "asgi": lambda: Middleware(Pure, n),
        "gzip": lambda: Middleware(GZipMiddleware, minimum_size=10),
        "cors": lambda: Middleware(CORSMiddleware, allow_origins=["*"], allow_headers=["x-a"]),
        "session": lambda: Middleware(SessionMiddleware, secret_key="secret"),
        "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
        "trusted": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["testserver"]),
        "https": lambda: Middleware(HTTPSRedirectMiddleware),
        "exc": lambda: Middleware(WithMine),
    }[kind]()


KINDS = ["base", "asgi", "gzip", "cors", "session", "auth", "trusted", "https", "exc"]

# -------------------------------------------------------------------- endpoints

SCRATCH = {}


def setup():
    SCRATCH["dir"] = tempfile.mkdtemp()
    SCRATCH["file"] = os.path.join(SCRATCH["dir"], "f.txt")
    with open(SCRATCH["file"], "wb") as f:
        f.write(bytes(97 + i % 26 for i in range(700)))
    os.utime(SCRATCH["file"], (1e9, 1e9))


def teardown():
    os.unlink(SCRATCH["file"])
    os.rmdir(SCRATCH["dir"])


def note(request):
    if "session" in request.scope:
        request.session["n"] = request.session.get("n", 0) + 1
    return {"x-user": (request.user.display_name or "anon") if "user" in request.scope else "-"}


async def chunks(*parts, fail=False):
    for p in parts:
        yield p
    if fail:
        raise RuntimeError("late")


def routes(log, middleware=None):
    async def text(r):
        return PlainTextResponse("text " * 100, headers=note(r))

    def sync(r):
        return PlainTextResponse("small", 201, headers=note(r))

    async def empty(r):
        return Response(status_code=204, headers=note(r))

    async def cookies(r):
        res = JSONResponse({"a": [1, 2, {"b": None}]}, headers={**note(r), "vary": "X-Mine"})
        res.set_cookie("one", "1")
        res.set_cookie("two", "2")
        return res

    async def stream(r):
        return StreamingResponse(chunks(b"ab", b"", "cd" * 50), headers=note(r), media_type="text/plain")

    async def none(r):
        return StreamingResponse(chunks(), headers=note(r))

    async def sse(r):
        return StreamingResponse(chunks("data: 1\n\n", "data: 2\n\n"), headers=note(r), media_type="text/event-stream")

    async def file(r):
        return FileResponse(SCRATCH["file"], headers=note(r))

    async def encoded(r):
        return Response(b"q" * 300, headers={**note(r), "content-encoding": "br"})

    async def redirect(r):
        return RedirectResponse("/text", headers=note(r))

    async def refused(r):
        raise HTTPException(403, "no entry", headers={**note(r), "x-why": "because"})

    async def broken(r):
        note(r)
        raise RuntimeError("broken")

    async def mine(r):
        note(r)
        raise Mine("mine")

    async def late(r):
        return StreamingResponse(chunks(b"begin ", b"middle " * 20, fail=True), headers=note(r))

    async def body(r):
        return PlainTextResponse(b"got " + await r.body(), headers=note(r))

    async def parts(r):
        got = [c async for c in r.stream()]
        return PlainTextResponse(b"got " + b"".join(got), headers=note(r))

    async def form(r):
        async with r.form() as f:
            return PlainTextResponse(repr(f.multi_items()), headers=note(r))

    async def background(r):
        async def task():
            log.append(("task", r.scope["_server"].complete))
        return PlainTextResponse("with a task " * 10, headers=note(r), background=BackgroundTask(task))

    async def push(r):
        for path in ("/style.css", "/a.js", "/b.js"):
            await r.send_push_promise(path)
        return PlainTextResponse("pushed", headers=note(r))

    async def pushes(r):
        async def gen():
            yield b"first " * 5
            await r.send_push_promise("/a.js")
            await r.send_push_promise("/b.js")
            yield b"second"
        await r.send_push_promise("/style.css")
        return StreamingResponse(gen(), headers=note(r))

    class View(HTTPEndpoint):
        async def get(self, request):
            return PlainTextResponse("view", headers=note(request))

    class Raw:
        async def __call__(self, scope, receive, send):
            headers = [(b"x-user", note(asgi_request(scope))["x-user"].encode()), (b"x-dup", b"1"), (b"x-dup", b"2")]
            await send({"type": "http.response.start", "status": 299, "headers": tuple(headers)})
            await send({"type": "http.response.body", "body": b"raw " * 10, "more_body": True})
            await send({"type": "http.response.body"})

    async def state(r):
        return PlainTextResponse(repr(sorted(r.state._state.items())), headers=note(r))

    one = PlainTextResponse("one object for all requests")
    own = [(b"x-own", b"1")]

    async def shared(r):
        return one

    class Own:
        async def __call__(self, scope, receive, send):
            await send({"type": "http.response.start", "status": 200, "headers": own})
            await send({"type": "http.response.body", "body": b"own headers " * 3})

    table = {"/" + f.__name__: f for f in (text, sync, empty, cookies, stream, none, sse, file, encoded, redirect, refused, broken, mine, late, background, state, push, pushes, shared)}
    out = [Route(p, f, middleware=middleware) for p, f in table.items()]
    out += [Route("/" + f.__name__, f, methods=["POST"], middleware=middleware) for f in (body, parts, form)]
    out += [Route("/view", View, middleware=middleware), Route("/raw", Raw(), middleware=middleware), Route("/own", Own(), middleware=middleware)]

    async def ws(w):
        who = note(w)["x-user"]
        await w.accept(subprotocol="p", headers=[(b"x-s", b"%d" % w.scope.get("session", {}).get("n", 0))])
        async for t in w.iter_text():
            await w.send_text("%s %s" % (who, t))
    out.append(WebSocketRoute("/ws", ws, middleware=middleware))
    return out


def asgi_request(scope):
    from starlette.requests import Request
    return Request(scope)


ENDS = [("GET", "/" + n) for n in "text sync empty cookies stream none sse file encoded redirect refused broken mine late background state view raw push pushes shared own missing".split()] + [
    ("HEAD", "/text"), ("HEAD", "/file"), ("POST", "/body"), ("POST", "/parts"), ("POST", "/form"), ("POST", "/text"), ("DELETE", "/view"), ("RANGE", "/file"), ("GET", "/text/")]
PLACES = ["app", "wrap", "mount", "route", "router"]


def build(stack, place, log):
    mws = [layer(k, n) for n, k in enumerate(stack)]
    if place == "app":
        return Starlette(routes=routes(log), middleware=mws)
    if place == "wrap":
        app = Starlette(routes=routes(log))
        for cls, args, kwargs in reversed(mws):
            app = cls(app, *args, **kwargs)
        return app
    if place == "mount":
        return Starlette(routes=[Mount("/", routes=routes(log), middleware=mws)])
    if place == "router":
        return Starlette(routes=[Mount("/", app=Router(routes=routes(log), middleware=mws))])
    return Starlette(routes=routes(log, mws))


# ------------------------------------------------------------------------ model

def trigger(kind, req):
    """Does this layer answer by itself?"""
    if kind == "trusted":
        return req["host"] != b"testserver"
    if kind == "https":
        return req["scheme"] == "http"
    if kind == "cors":
        return req["preflight"]
    if kind == "auth":
        return req["auth"] == b"bad"
    if kind == "base":
        return req["short"]
    return False


REQ = dict(host=b"testserver", scheme="https", preflight=False, auth=None, short=False, gzip=False, origin=False, cookie=None, chunks=1)


def scope_of(method, path, req):
    h = []
    if req["gzip"]:
        h.append((b"accept-encoding", b"gzip, br"))
    if req["origin"] or req["preflight"]:
        h.append((b"origin", ORIGIN))
    if req["preflight"]:
        method = "OPTIONS"
        h += [(b"access-control-request-method", b"GET"), (b"access-control-request-headers", b"x-a")]
    if req["auth"]:
        h.append((b"authorization", req["auth"]))
    if req["short"]:
        h.append((b"x-short", b"1"))
    if req["cookie"] == "other":
        h.append((b"cookie", b"a=b"))
    elif req["cookie"] == "session":
        h.append((b"cookie", b"session=" + SIGNER.sign(b64encode(json.dumps({"n": 3}).encode()))))
    if method == "RANGE":
        method = "GET"
        h.append((b"range", b"bytes=5-99"))
    incoming = None
    if method == "POST":
        data = b"a=1&b=%20x&a=2"
        h += [(b"content-type", b"application/x-www-form-urlencoded"), (b"content-length", b"%d" % len(data))]
        n = req["chunks"]
        cut = [data[i * len(data) // n:(i + 1) * len(data) // n] for i in range(n)]
        incoming = asgi.body_messages(cut)
    return asgi.scope(path, method, h, scheme=req["scheme"], host=req["host"], extensions={"http.response.push": {}}, state={"k": 1}), incoming


def plain_vary(r):
    return sorted({t.strip().lower() for v in r.all("vary") for t in v.split(b",")})


class Got:
    def __init__(self, srv, exc):
        self.exc = exc
        self.resp = asgi.judge(srv.sent, need_complete=exc is None, allow_empty=exc is not None, framing=exc is None)
        self.order = [m["type"] for m in srv.sent]


async def exchange(app, method, path, req):
    sc, incoming = scope_of(method, path, req)
    srv = asgi.Server(incoming)
    sc["_server"] = srv
    exc = None
    try:
        await app(sc, srv.receive, srv.send)
    except Exception as e:
        exc = e
    return Got(srv, exc)


BUMP = {p: True for _, p in ENDS if p not in ("/missing", "/text/", "/shared", "/own")}


def reaches(method, path):
    """Is the endpoint's code run?"""
    if (method, path) in (("POST", "/text"), ("DELETE", "/view")):
        return False
    return path in BUMP


def origin_of(stack, place, method, path):
    """Layers outside this index see the response."""
    n = len(stack)
    exc = stack.index("exc") if "exc" in stack else None
    if path == "/broken":
        return n if place == "wrap" else 0
    if path == "/mine":
        if place == "wrap":
            return n
        if exc is None:
            return 0
        return n if place in ("mount", "route", "router") else exc
    if (method, path) == ("DELETE", "/view") and place not in ("app", "wrap"):
        return 0 if exc is None else exc  # a class is not wrapped in exception handling
    if path in ("/missing", "/text/") or (method, path) == ("POST", "/text"):
        if place in ("app", "wrap"):
            return n
        if path == "/text/":  # the redirect is the work of the router that has the route
            return {"mount": n, "router": n, "route": 0}[place]
        return 0 if place == "route" or exc is None else exc
    return n


def expected(stack, upto, ref, req, method, path, ran):
    """Headers added by the layers outside `upto`."""
    add = []
    vary = set(plain_vary(ref))
    for j in range(upto):
        k = stack[j]
        if k == "base":
            add.append((b"x-base-%d" % j, b"1"))
        elif k == "asgi":
            add.append((b"x-asgi", b"%d" % j))
        elif k == "cors" and (req["origin"] or req["preflight"]):
            cookie = req["cookie"] is not None
            add.append((b"access-control-allow-origin", ORIGIN if cookie else b"*"))
            if cookie:
                vary.add(b"origin")
    return add, vary


def session_of(r):
    """Session cookies among the headers, decoded; and the other headers."""
    got, rest = [], []
    for k, v in r.headers:
        if k == b"set-cookie" and v.startswith(b"session="):
            got.append(json.loads(b64decode(SIGNER.unsign(v.split(b";")[0][8:]))))
        else:
            rest.append((k, v))
    return got, rest


def unzip(r, complete):
    if r.all("content-encoding") != [b"gzip"]:
        return r.body, False
    d = zlib.decompressobj(31)
    body = d.decompress(r.body)
    if complete and not d.eof:
        raise Violation("the compressed body is cut off: %s" % short(r))
    return body, True


def judge(x, stack, place, method, path, req, got, ref, log, what):
    answer = next((j for j, k in enumerate(stack) if trigger(k, req)), None)
    if place in ("route", "mount", "router") and answer is not None and path != "/text":
        return
    ran = reaches(method, path) and answer is None
    upto = origin_of(stack, place, method, path) if answer is None else answer
    r = got.resp
    # how it ended
    if answer is not None or path not in ("/broken", "/late", "/mine"):
        x.check(got.exc is None, "%s: raised %r" % (what, got.exc))
    elif path == "/mine" and "exc" in stack:
        if place == "wrap":
            x.check(isinstance(got.exc, RuntimeError) and isinstance(got.exc.__cause__, Mine), "%s: raised %r" % (what, got.exc))
        else:
            x.check(got.exc is None, "%s: raised %r" % (what, got.exc))
    else:
        want = Mine if path == "/mine" else RuntimeError
        x.check(type(got.exc) is want and got.exc.args[0] in ("mine", "broken", "late"), "%s: raised %r" % (what, got.exc))
    x.check(r is not None, "%s: no response, raised %r" % (what, got.exc))
    status, rbody, rheaders = ref.resp.status, ref.resp.body, ref.resp.headers
    if path == "/mine" and "exc" in stack and place != "wrap":
        status, rbody, rheaders = 418, b"mine", [(b"content-length", b"4"), (b"content-type", b"text/plain; charset=utf-8")]
    x.eq(r.status, status, "%s: status" % what)
    x.eq(r.complete, ref.resp.complete, "%s: complete" % what)
    body, zipped = unzip(r, r.complete)
    if r.complete:
        x.eq(body, rbody, "%s: body" % what)
    else:
        x.check(rbody.startswith(body), "%s: body %s" % (what, short(body)))
    gz = "gzip" in stack[:upto] and req["gzip"]
    x.check(gz or not zipped, "%s: compressed" % what)
    if gz and len(rbody) >= 10 and r.complete and path not in ("/sse", "/encoded"):
        x.check(zipped, "%s: not compressed" % what)
    # headers
    add, vary = expected(stack, upto, ref.resp, req, method, path, ran)
    if path == "/mine" and status == 418:
        vary -= set(plain_vary(ref.resp))
    sessions, rest = session_of(r)
    want_session = []
    if "session" in stack[:upto]:
        n = (3 if req["cookie"] == "session" else 0) + (1 if ran else 0)
        if n:
            want_session = [{"n": n}]
    x.eq(sessions, want_session, "%s: session" % what)
    user = b"-"
    if "auth" in stack:
        user = req["auth"] or b"anon"
    drop = {b"vary"} | ({b"content-length", b"content-encoding"} if zipped else set())
    want = sorted([(k, user if k == b"x-user" else v) for k, v in rheaders if k not in drop] + add)
    have = sorted((k, v) for k, v in rest if k not in drop)
    if b"content-length" not in [k for k, _ in have]:
        want = [p for p in want if p[0] != b"content-length" or not stack]
    x.eq(have, want, "%s: headers" % what)
    gv = set(plain_vary(r))
    if zipped:
        x.check(b"accept-encoding" in gv, "%s: vary %s" % (what, gv))
    if "gzip" in stack[:upto]:
        gv.discard(b"accept-encoding")
        vary.discard(b"accept-encoding")
    x.eq(gv, vary, "%s: vary" % what)
    # the rest
    x.eq([(m["type"], m.get("path")) for m in r.other], [(m["type"], m.get("path")) for m in ref.resp.other], "%s: other messages" % what)
    if r.other:
        x.eq(got.order[0], "http.response.push", "%s: order of messages" % what)
    # behind BaseHTTPMiddleware the task may start while the last message is on its way
    x.eq([e if "base" not in stack else ("task", True) for e in log], [("task", True)] if path == "/background" and ran else [], "%s: background" % what)
    x.step()


REFS = {}


async def reference(stack, method, path, req):
    answer = next((k for k in stack if trigger(k, req)), None)
    key = (answer, method, path, tuple(sorted((k, v) for k, v in req.items() if v is not None)) if answer else (req["chunks"],))
    if key not in REFS:
        if answer is None:
            REFS[key] = await exchange(Starlette(routes=routes([])), method, path, {**REQ, "chunks": req["chunks"]})
        else:
            REFS[key] = await exchange(build((answer,), "app", []), method, path, req)
    return REFS[key]


PROFILES = [REQ, {**REQ, "gzip": True, "origin": True, "cookie": "session", "auth": b"joe", "chunks": 3}, {**REQ, "gzip": True, "chunks": 2}, {**REQ, "origin": True, "cookie": "other"},
            {**REQ, "origin": True, "gzip": True, "auth": b"ann"}, {**REQ, "cookie": "session", "auth": b"joe"}]


def stacks(n, tier):
    for s in itertools.product(KINDS, repeat=n):
        if all(s.count(k) == 1 or k in ("base", "asgi") for k in s):
            yield s


def compose_cases(tier):
    for place in PLACES:
        for backend in ("asyncio", "trio"):
            for n in (0, 1, 2):
                for s in stacks(n, tier):
                    yield (place, backend, s, 6 if backend == "asyncio" else 2)
    for s in stacks(3, tier):
        for place in PLACES if tier != "quick" else ["app", PLACES[1 + sum(map(KINDS.index, s)) % 4]]:
            yield (place, "asyncio", s, 2 if tier == "quick" else 6)
    if tier != "quick":
        for s in stacks(4, tier):
            yield ("app", "asyncio", s, 2)


@C.family("compose", compose_cases, "all stacks of up to 3 (thorough 4) of nine built-in and plain layers, in five places x endpoints of every kind (streams, files, ranges, HEAD, cookies, forms, errors before and after the start, tasks, pushes, 404, 405, redirects) "
          "x request profiles: the answer is that of the bare application plus exactly what each layer adds")
def _(case, x):
    place, backend, stack, n = case
    log = []
    app = build(stack, place, log)

    async def main():
        for method, path in ENDS:
            for i, req in enumerate(PROFILES[:n]):
                what = "%s %s, profile %d, %s in %s on %s" % (method, path, i, stack, place, backend)
                ref = await reference(stack, method, path, req)
                del log[:]
                got = await exchange(app, method, path, req)
                judge(x, stack, place, method, path, req, got, ref, log, what)

    with rt.vthreads("inline"):
        out = rt.run(main, None, backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(case)


TRIGGERS = [("host", b"evil.example"), ("scheme", "http"), ("preflight", True), ("auth", b"bad"), ("short", True)]


def answer_cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in stacks(n, tier):
            if any(k in ("trusted", "https", "cors", "auth", "base") for k in s):
                for place in PLACES if n < 3 else ["app"]:
                    yield (place, s)


@C.family("answers", answer_cases, "all stacks of up to 3 (thorough 4) layers x all 32 combinations of bad host, insecure scheme, preflight, bad credentials and a short-circuiting dispatch: the outermost layer concerned answers, the layers outside it do their part, those inside see nothing")
def _(case, x):
    place, stack = case
    log = []
    app = build(stack, place, log)

    async def main():
        for on in itertools.product((False, True), repeat=len(TRIGGERS)):
            for base in (REQ, PROFILES[1]):
                req = {**base, **{k: v for (k, v), o in zip(TRIGGERS, on) if o}}
                if req["preflight"] and not any(trigger(k, req) for k in stack):
                    continue  # OPTIONS for a GET route
                if req["preflight"] and place == "route":
                    continue  # refused before the route's middleware
                what = "triggers %s, %s in %s" % ([k for (k, v), o in zip(TRIGGERS, on) if o], stack, place)
                ref = await reference(stack, "GET", "/text", req)
                del log[:]
                got = await exchange(app, "GET", "/text", req)
                judge(x, stack, place, "GET", "/text", req, got, ref, log, what)

    with rt.vthreads("inline"):
        out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(case)


# -------------------------------------------------------- websockets and lifespan

def other_cases(tier):
    for n in (0, 1, 2, 3):
        for s in stacks(n, tier):
            for place in PLACES if n < 3 else ["app"]:
                yield (place, s)


@C.family("other-scopes", other_cases, "all stacks of up to 3 layers in five places: websocket conversations and the lifespan go through as without them, with session, user and the handshake answers of the layers that have one")
def _(case, x):
    place, stack = case
    log = []

    async def main():
        import contextlib

        @contextlib.asynccontextmanager
        async def lifespan(app):
            log.append("up")
            yield {"db": 1}
            log.append("down")

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            app = build(stack, place, log)
        inner = app
        while not isinstance(inner, Starlette):
            inner = inner.app
        inner.router.lifespan_context = lifespan
        for auth, cookie in ((None, None), (b"joe", "session")):
            sc, _ = scope_of("GET", "/ws", {**REQ, "auth": auth, "cookie": cookie, "scheme": "wss", "origin": True, "gzip": True})
            sc["type"] = "websocket"
            del sc["method"]
            sc["subprotocols"] = ["p"]
            srv = asgi.WSServer([{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "hi"}, {"type": "websocket.receive", "text": "ho"}, {"type": "websocket.disconnect", "code": 1000, "reason": ""}])
            await app(sc, srv.receive, srv.send)
            user = ((auth or b"anon") if "auth" in stack else b"-").decode()
            n = (4 if cookie else 1) if "session" in stack else 0
            x.eq(srv.sent, [{"type": "websocket.accept", "subprotocol": "p", "headers": [(b"x-s", b"%d" % n)]}, {"type": "websocket.send", "text": user + " hi"}, {"type": "websocket.send", "text": user + " ho"}], "conversation through %s in %s" % (stack, place))
            x.step()
        msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
        sent = []

        async def receive():
            return msgs.pop(0)

        async def send(m):
            sent.append(m)
        sc = {"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}
        await app(sc, receive, send)
        x.eq((sent, log, sc["state"]), ([{"type": "lifespan.startup.complete"}, {"type": "lifespan.shutdown.complete"}], ["up", "down"], {"db": 1}), "lifespan through %s in %s" % (stack, place))

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(case)


# -------------------------------------------------------------------- disconnects

def gone_cases(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for s in stacks(n, tier):
            for path in ("/stream", "/text", "/late", "/background", "/file"):
                for fails in (False, True):
                    yield (s, path, fails)


@C.family("disconnects", gone_cases, "all stacks of up to 2 (thorough 3) layers x streamed, buffered, failing and file responses x the client going away at every point (told, or with failing sends): what arrived is the beginning of the full answer, nothing hangs or is left over, only the application's own error or the lost connection surfaces")
def _(case, x):
    stack, path, fails = case
    log = []
    app = build(stack, "app", log)
    full = {}

    def one(ch):
        env = rt.Env(ch, early=1)
        srv = asgi.Server(None, env=env, gate="sd")
        srv.disconnect_fails = fails
        sc, _ = scope_of("GET", path, REQ)
        sc["asgi"]["spec_version"] = "2.4" if fails else "2.3"
        sc["_server"] = srv

        async def main():
            await app(sc, srv.receive, srv.send)

        with rt.vthreads("inline"):
            out = rt.run(main, env)
        asgi.settled(out)
        if out.exc is not None:
            from starlette.requests import ClientDisconnect
            lost = isinstance(out.exc, (OSError, ClientDisconnect)) and srv.disconnected
            own = path == "/late" and type(out.exc) is RuntimeError and out.exc.args == ("late",)
            x.check(lost or own, "raised %r with %s" % (out.exc, stack))
        r = asgi.judge(srv.sent, need_complete=False, allow_empty=True, framing=False)
        key = (r.status, r.headers) if r else None
        body = r.body if r else b""
        if not srv.disconnected:
            full["r"] = (key, body, r.complete)
            x.check(r.complete or path == "/late", "cut off without a disconnect: %s" % short(r))
        elif "r" in full:
            k, b, _ = full["r"]
            x.check(key is None or strip(key) == strip(k), "the response changed on a disconnect: %s, %s" % (key, k))
            x.check(b.startswith(body), "not the beginning of the body: %s of %s" % (short(body), short(b)))
        x.check(len([e for e in log if e[0] == "task"]) <= 1, "task run more than once")
        del log[:]
        x.step(len(srv.sent))

    x.explore(one, 1)
    x.outcome(case)


def strip(key):
    return key[0], [(k, v) for k, v in key[1] if k != b"set-cookie" or not v.startswith(b"session=")]
