"""C35 Concurrent requests through one application never mix."""
from __future__ import annotations

import contextvars
import functools
import itertools
import json
import os
import pickle
import shutil
import signal
import tempfile
import types
import warnings
import zlib

from mc import asgi, rt
from mc.core import Check, Violation, short

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, StreamingResponse
from starlette.routing import Host, Mount, Route, WebSocketRoute
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.websockets import WebSocket

C = Check("C35", [
    "each request is its own task with its own scope, as servers run them; the application's own code keeps nothing between requests",
    "the signing clock stands still; multipart boundaries (random) are not part of the requests made",
    "a response cut short by its own client's disconnect or a failed send is compared as a prefix",
])

DIR = None
CV = contextvars.ContextVar("c35", default="unset")
NOW = 1_700_000_000


class _Time:
    @staticmethod
    def time():
        return NOW


def setup():
    global DIR
    import itsdangerous.timed

    itsdangerous.timed.time = _Time
    DIR = tempfile.mkdtemp(prefix="mc-c35-")
    os.mkdir(os.path.join(DIR, "static"))
    os.mkdir(os.path.join(DIR, "static", "sub"))
    os.mkdir(os.path.join(DIR, "templates"))
    for me in "abcd":
        with open(os.path.join(DIR, "static", me + ".txt"), "w") as f:
            f.write(("file of %s " % me) * 6)
        os.utime(os.path.join(DIR, "static", me + ".txt"), (NOW, NOW + ord(me)))
        with open(os.path.join(DIR, "templates", me + ".html"), "w") as f:
            f.write(("<p>ME {{ who }} {{ extra }} {{ request.path_params.p }} {{ url_for('echo', p=who, n=1) }}</p>{% set who = 'X' %}{{ who }}").replace("ME", me))
    with open(os.path.join(DIR, "static", "404.html"), "w") as f:
        f.write("nothing here " * 4)
    with open(os.path.join(DIR, "static", "sub", "index.html"), "w") as f:
        f.write("index page " * 4)
    for p in ("404.html", "sub/index.html"):
        os.utime(os.path.join(DIR, "static", p), (NOW, NOW))


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


class Boom(Exception):
    pass


class Custom(Exception):
    pass


class Rec:
    """What the application did for each request, besides answering."""

    def __init__(self, env):
        self.env = env
        self.logs = {}

    def log(self, me, *what):
        self.logs.setdefault(me, []).append(what)

    async def step(self, me, label="ep"):
        await rt.Gate(self.env).wait(label + "-" + me)


def describe(conn):
    d = {
        "path": conn.scope["path"], "root": conn.scope["root_path"], "params": dict(conn.path_params), "q": conn.query_params.multi_items(),
        "me": conn.headers["x-me"], "cookies": dict(conn.cookies), "scribble": conn.scope.get("scribble"), "state": [getattr(conn.state, a, None) for a in ("life", "mine", "mw", "tenant")], "url": str(conn.url), "base": str(conn.base_url),
        "cv": CV.get(), "client": list(conn.client),
    }
    if "session" in conn.scope:
        d["session"] = dict(conn.session)
    if "user" in conn.scope:
        d["user"] = [conn.user.display_name, conn.user.is_authenticated, list(conn.auth.scopes)]
    return d


def scribble(conn):
    """The application may write on everything that belongs to its request."""
    me = conn.headers["x-me"]
    conn.state.mine = me
    conn.cookies["scribble-" + me] = me
    conn.path_params["scribble-" + me] = me
    conn.scope["scribble"] = me
    conn.scope["headers"].append((b"x-scribble", me.encode()))
    if "auth" in conn.scope:
        conn.auth.scopes.append("scribble-" + me)
    CV.set("cv-" + me)


class Backend(AuthenticationBackend):
    def __init__(self, rec):
        self.rec = rec

    async def authenticate(self, conn):
        me = conn.headers["x-me"]
        who = conn.headers.get("x-user")
        await self.rec.step(me, "auth")
        if who is None:
            return None
        if who == "bad":
            raise AuthenticationError("bad credentials of %s" % me)
        return AuthCredentials(["scope-" + who, "ok"]), SimpleUser(who)


def make_app(stack, rec):
    def me_of(conn):
        return conn.headers["x-me"]

    async def echo(request):
        me = me_of(request)
        d1 = describe(request)
        scribble(request)
        if "session" in request.scope:
            request.session["seen"] = request.session.get("seen", "") + me
        await rec.step(me)
        r = JSONResponse([d1, describe(request)], headers={"x-r": me})
        r.set_cookie("c-" + me, me)
        return r

    def secho(request):
        me = me_of(request)
        d1 = describe(request)
        scribble(request)
        if "session" in request.scope:
            request.session.clear()
        return JSONResponse([d1, describe(request), rt.VT.in_worker], status_code=201, headers={"x-r": me})

    async def body(request):
        got = []
        async for c in request.stream():
            got.append(c.decode())
        rec.log(me_of(request), "body", "".join(got))
        return PlainTextResponse("/".join(c for c in got if c) + " for " + me_of(request))

    async def form(request):
        me = me_of(request)
        async with request.form() as f:
            await rec.step(me)
            up = f["file"]
            data = await up.read()
            return PlainTextResponse("%s %s %s %s" % (f["name"], up.filename, len(data), data[:3]))

    async def stream(request):
        me = me_of(request)

        async def gen():
            for i in range(2):
                yield ("%s%d " % (me, i)) * 8
                if not i:
                    await rec.step(me)

        return StreamingResponse(gen(), media_type="text/plain", headers={"x-r": me})

    def syncgen(request):
        me = me_of(request)
        CV.set("sg-" + me)

        def gen():
            for i in range(2):
                yield "%s%d%s" % (me, i, CV.get())

        return StreamingResponse(gen(), media_type="text/plain")

    @functools.cache
    def templates():
        return Jinja2Templates(directory=os.path.join(DIR, "templates"), context_processors=[lambda request: {"extra": request.headers["x-me"]}])

    async def template(request):
        me = me_of(request)
        await rec.step(me)
        return templates().TemplateResponse(request, me + ".html", {"who": "w-" + me}, headers={"x-r": me})

    async def bg(request):
        me = me_of(request)

        async def task(arg):
            rec.log(me, "bg", arg)
            await rec.step(me, "bg")
            rec.log(me, "bg done", arg)

        return PlainTextResponse("bg " + me, background=BackgroundTasks([BackgroundTask(task, me), BackgroundTask(rec.log, me, "sync bg")]))

    async def boom(request):
        await rec.step(me_of(request))
        raise Boom(me_of(request))

    async def http(request):
        await rec.step(me_of(request))
        raise HTTPException(418, detail="teapot " + me_of(request), headers={"x-e": me_of(request)})

    async def gone(request):
        raise HTTPException(410, detail="gone " + me_of(request), headers={"x-e": me_of(request)})

    def custom(request):
        raise Custom(me_of(request))

    class Cls(HTTPEndpoint):
        async def get(self, request):
            self.who = me_of(request)
            await rec.step(self.who)
            return PlainTextResponse("class for %s %s %s" % (self.who, request.path_params["p"], self.scope["path"]))

        def post(self, request):
            return PlainTextResponse("post for %s" % me_of(request))

    @requires("ok", redirect="echo2")
    async def member(request):
        await rec.step(me_of(request))
        return PlainTextResponse("hello " + request.user.display_name)

    async def urls(request):
        me = me_of(request)
        await rec.step(me)
        return PlainTextResponse("%s %s" % (request.url_for("echo", p=me, n=7), request.url_for("tenant:inner", tenant=me, q="x")))

    async def inner(request):
        me = me_of(request)
        d1 = describe(request)
        scribble(request)
        await rec.step(me)
        return JSONResponse([d1, describe(request)])

    def wsgi(environ, start_response):
        me = environ["HTTP_X_ME"]
        start_response("200 OK", [("X-W", me)])
        yield ("wsgi %s %s %s" % (me, environ["PATH_INFO"], environ["SCRIPT_NAME"])).encode()
        yield environ["wsgi.input"].read()

    async def ws(websocket):
        me = me_of(websocket)
        await websocket.accept()
        d = describe(websocket)
        scribble(websocket)
        async for t in websocket.iter_text():
            await rec.step(me)
            await websocket.send_json([t, d, describe(websocket)])
        rec.log(me, "ws end")

    class WS(WebSocketEndpoint):
        encoding = "json"

        async def on_connect(self, websocket):
            self.who = me_of(websocket)
            await websocket.accept(headers=[(b"x-r", self.who.encode())])

        async def on_receive(self, websocket, data):
            await rec.step(self.who)
            await websocket.send_json([self.who, data, websocket.path_params])

        async def on_disconnect(self, websocket, code):
            rec.log(self.who, "disconnect", code)

    async def on_418(request, exc):
        await rec.step(me_of(request), "handler")
        return PlainTextResponse("%s for %s" % (exc.detail, me_of(request)), status_code=418, headers=exc.headers)

    def on_custom(request, exc):
        return PlainTextResponse("custom %s for %s" % (exc, me_of(request)), status_code=409)

    async def dispatch(request, call_next):
        me = me_of(request)
        request.state.mw = "mw-" + me
        response = await call_next(request)
        response.headers["x-mw"] = request.state.mw
        return response

    class ReadBody(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            b = await request.body()
            response = await call_next(request)
            response.headers["x-len"] = "%d %s" % (len(b), me_of(request))
            return response

    async def inner_dispatch(request, call_next):
        request.state.tenant = request.path_params.get("tenant")
        response = await call_next(request)
        response.headers["x-tenant"] = str(request.state.tenant)
        return response

    routes = [
        Route("/e/{p}/{n:int}", echo, name="echo"),
        Route("/echo2", echo, name="echo2"),
        Route("/s/{p:path}", secho),
        Route("/b", body, methods=["POST"]),
        Route("/form", form, methods=["POST"]),
        Route("/st", stream),
        Route("/sg", syncgen),
        Route("/t/{p}", template),
        Route("/bg", bg),
        Route("/boom", boom),
        Route("/http", http),
        Route("/gone", gone),
        Route("/custom", custom),
        Route("/c/{p}", Cls),
        Route("/member", member),
        Route("/urls", urls),
        Mount("/m/{tenant}", routes=[Route("/i/{q}", inner, name="inner", middleware=[Middleware(BaseHTTPMiddleware, dispatch=inner_dispatch)])], name="tenant"),
        Mount("/sub", app=Starlette(routes=[Route("/i/{q}", inner)], exception_handlers={Custom: on_custom})),
        Host("{tenant}.host.org", app=Starlette(routes=[Route("/x", inner)])),
        Mount("/static", StaticFiles(directory=os.path.join(DIR, "static"), html=True)),
        Mount("/w", WSGIMiddleware(wsgi)),
        WebSocketRoute("/ws/{p}", ws),
        WebSocketRoute("/wse/{p}", WS),
    ]
    mws = {
        "gzip": Middleware(GZipMiddleware, minimum_size=20),
        "session": Middleware(SessionMiddleware, secret_key="k"),
        "cors": Middleware(CORSMiddleware, allow_origins=["https://a.org", "https://b.org"], allow_credentials=True, expose_headers=["x-r"]),
        "cors*": Middleware(CORSMiddleware, allow_origins=["*"], allow_headers=["*"], allow_methods=["*"]),
        "auth": Middleware(AuthenticationMiddleware, backend=Backend(rec)),
        "hosts": Middleware(TrustedHostMiddleware, allowed_hosts=["testserver", "*.host.org"]),
        "https": Middleware(HTTPSRedirectMiddleware),
        "base": Middleware(BaseHTTPMiddleware, dispatch=dispatch),
        "read": Middleware(ReadBody),
    }
    handlers = {418: on_418, Custom: on_custom}
    if stack == "handler500":
        async def on_500(request, exc):
            await rec.step(me_of(request), "500")
            return PlainTextResponse("sorry %s: %s" % (me_of(request), exc), status_code=500)

        handlers[Exception] = on_500
    return Starlette(debug=stack == "debug", routes=routes, middleware=[mws[n] for n in STACKS[stack]], exception_handlers=handlers)


STACKS = {
    "none": [],
    "debug": [],
    "handler500": [],
    "gzip": ["gzip"],
    "session": ["session"],
    "cors": ["cors"],
    "cors*": ["cors*"],
    "auth": ["auth"],
    "hosts": ["hosts"],
    "https": ["https"],
    "base": ["base"],
    "read": ["read"],
    "base-read": ["base", "read"],
    "gzip-base": ["gzip", "base"],
    "base-gzip-session": ["base", "gzip", "session"],
    "session-auth": ["session", "auth"],
    "all": ["hosts", "https", "gzip", "cors", "session", "auth", "base"],
    "all2": ["base", "cors*", "session", "read", "auth", "gzip"],
}


def session_cookie(me):
    import itsdangerous
    from base64 import b64encode

    s = itsdangerous.TimestampSigner("k")
    return s.sign(b64encode(json.dumps({"seen": "old-" + me}).encode())).decode()


MP = (b'--b\r\nContent-Disposition: form-data; name="name"\r\n\r\nname of %s\r\n--b\r\n'
      b'Content-Disposition: form-data; name="file"; filename="%s.bin"\r\nContent-Type: a/b\r\n\r\n%s\r\n--b--\r\n')


def form_body(me):
    b = MP % (me.encode(), me.encode(), me.encode() * (5 + ord(me)))
    return [b[:70], b[70:]]


KINDS = {
    # name: (path, method, extra headers, body chunks, gates, websocket frames)
    "echo": lambda me: ("/e/p-%s/%d" % (me, ord(me)), "GET", [(b"cookie", b"x=" + me.encode())], None, "s"),
    "sync": lambda me: ("/s/%s/y" % me, "GET", [], None, ""),
    "body": lambda me: ("/b", "POST", [], [b"one-" + me.encode(), b"two-" + me.encode() * 2], "r"),
    "form": lambda me: ("/form", "POST", [(b"content-type", b"multipart/form-data; boundary=b")], form_body(me), "r"),
    "stream": lambda me: ("/st", "GET", [], None, "s"),
    "syncgen": lambda me: ("/sg", "GET", [], None, ""),
    "template": lambda me: ("/t/%s" % me, "GET", [], None, "s"),
    "bg": lambda me: ("/bg", "GET", [], None, "s"),
    "boom": lambda me: ("/boom", "GET", [(b"accept", b"text/html" if me == "a" else b"*/*")], None, "s"),
    "http": lambda me: ("/http", "GET", [], None, ""),
    "gone": lambda me: ("/gone", "GET", [], None, "s"),
    "custom": lambda me: ("/custom", "GET", [], None, "s"),
    "class": lambda me: ("/c/%s" % me, "GET", [], None, "s"),
    "class-405": lambda me: ("/c/%s" % me, "PUT", [], None, "s"),
    "405": lambda me: ("/b", "GET" if me == "a" else "DELETE", [], None, "s"),
    "404": lambda me: ("/nothing/%s" % me, "GET", [], None, "s"),
    "slash": lambda me: ("/st/", "GET", [], None, "s"),
    "member": lambda me: ("/member", "GET", [(b"x-user", me.encode())] if me == "a" else [], None, ""),
    "badauth": lambda me: ("/member", "GET", [(b"x-user", b"bad")], None, "s"),
    "urls": lambda me: ("/urls", "GET", [], None, ""),
    "mount": lambda me: ("/m/t-%s/i/q-%s" % (me, me), "GET", [], None, ""),
    "sub": lambda me: ("/sub/i/q-%s" % me, "GET", [], None, ""),
    "host": lambda me: ("/x", "GET", [(b"host", me.encode() + b".host.org")], None, ""),
    "file": lambda me: ("/static/%s.txt" % me, "GET", [], None, "s"),
    "range": lambda me: ("/static/%s.txt" % me, "GET", [(b"range", b"bytes=%d-9" % (ord(me) - 96))], None, ""),
    "file-404": lambda me: ("/static/no-%s" % me, "GET", [], None, ""),
    "index": lambda me: ("/static/sub" + ("/" if me == "b" else ""), "GET", [], None, ""),
    "304": lambda me: ("/static/%s.txt" % me, "GET", [(b"if-modified-since", b"Fri, 01 Jan 2100 00:00:00 GMT")], None, "s"),
    "preflight": lambda me: ("/echo2", "OPTIONS", [(b"access-control-request-method", b"GET" if me == "a" else b"PUT"), (b"access-control-request-headers", b"x-" + me.encode())], None, "s"),
    "wsgi": lambda me: ("/w/p-%s" % me, "POST", [], [b"body of " + me.encode()], ""),
    "badhost": lambda me: ("/echo2", "GET", [(b"host", b"evil-%s.org" % me.encode())], None, "s"),
    "ws": lambda me: ("/ws/%s" % me, "WS", [], ["t1" + me, "t2"], ""),
    "wse": lambda me: ("/wse/%s" % me, "WS", [], ['{"j": "%s"}' % me, "[]"], "s"),
    "wse-bad": lambda me: ("/wse/%s" % me, "WS", [], ["not json " + me], "s"),
    "ws-404": lambda me: ("/wsx/%s" % me, "WS", [], [], "s"),
}


def file_op(func):
    """A plain system or file operation (the library's own calls run inside the worker are not)."""
    while isinstance(func, functools.partial):
        func = func.func
    return isinstance(func, types.BuiltinFunctionType) or (getattr(func, "__module__", None) or "").split(".")[0] in ("os", "io", "_io", "posix", "tempfile")


def threads(gates=True):
    return rt.vthreads("baton", plain=file_op if gates in ("coarse", "app") else None)


class Req:
    """One client: its scope, its server side, its outcome."""

    def __init__(self, kind, me, stack, env, fault=None, gates=True, pos=0):
        self.kind, self.me, self.fault = kind, me, fault
        path, method, headers, body, gate = KINDS[kind](me)
        if gates == "coarse":  # one pause of the server, between response start and body
            gate = gate.replace("s", "1")
        if gates == "app":  # only the application's own pauses
            gate = ""
        hs = [(b"x-me", me.encode()), (b"origin", b"https://%s.org" % me.encode())]
        if me in "ac":
            hs.append((b"accept-encoding", b"gzip"))
        if not any(k == b"host" for k, _ in headers):
            hs.append((b"host", b"testserver:%d" % ord(me)))
        cookies = [v for k, v in headers if k == b"cookie"]
        if me in "bd":
            cookies.append(b"session=" + session_cookie(me).encode())
        hs += [h for h in headers if h[0] != b"cookie"]
        if cookies:
            hs.append((b"cookie", b"; ".join(cookies)))
        secure = "https" in STACKS[stack] and me != "c"
        kw = {"headers": hs, "query": b"q=" + me.encode(), "client": ("client-" + me, ord(me))}
        if me != "c":
            kw["state"] = {"life": "span"}
        name = "%s%d" % (me, pos)
        if method == "WS":
            self.scope = asgi.scope(path, type="websocket", scheme="wss" if secure else "ws", **kw)
            self.srv = asgi.WSServer([{"type": "websocket.connect"}] + [{"type": "websocket.receive", "text": t} for t in body] + [{"type": "websocket.disconnect", "code": 1000 + ord(me)}],
                                     env=env, gate=gate, fail_at=fault[1] if fault and fault[0] == "sendfail" else None, name=name)
        else:
            self.scope = asgi.scope(path, method=method, scheme="https" if secure else "http", **kw)
            ms = asgi.body_messages(body or [b""])
            if fault and fault[0] == "cut":
                ms = ms[:fault[1]]
            self.srv = asgi.Server(ms, env=env, gate=gate + ("d" if fault and fault[0] == "disc" else ""),
                                   fail_at=fault[1] if fault and fault[0] == "sendfail" else None, name=name)
            if fault and fault[0] == "cut":
                self.srv.disconnected = True
                self.srv._drop_on_disconnect = lambda: False
        self.exc = None

    async def run(self, app):
        try:
            await app(self.scope, self.srv.receive, self.srv.send)
        except Exception as exc:
            self.exc = exc

    def sig(self):
        """What this client got and what became of its call."""
        e = self.exc
        exc = None if e is None else (type(e).__name__, str(e)) if not isinstance(e, BaseExceptionGroup) else "group"
        if self.scope["type"] == "websocket":
            return tuple(repr(m) for m in self.srv.sent), exc
        r = asgi.judge(self.srv.sent, need_complete=False, allow_empty=True, framing=False)
        if r is None:
            return None, exc
        body = r.body
        if (b"content-encoding", b"gzip") in r.headers:  # its header holds the time
            body = b"gzip:" + zlib.decompressobj(31).decompress(body)
        return (r.status, tuple(r.headers), body, r.complete), exc


_alone = {}
_pristine = (None, None, None)


def pristine():
    """Fork, before this process has run anything, one that will answer for it what a
    request gets in a process that has served no other request."""
    global _pristine
    if _pristine[0] == os.getpid():
        return
    ar, aw = os.pipe()
    br, bw = os.pipe()
    if os.fork() == 0:
        try:
            os.close(aw)
            os.close(br)
            with os.fdopen(ar, "rb") as asked:
                while True:
                    try:
                        key = pickle.load(asked)
                    except EOFError:
                        break
                    pid = os.fork()
                    if pid == 0:
                        signal.alarm(50)
                        try:
                            out = pickle.dumps(compute(*key))
                        except BaseException as exc:
                            out = pickle.dumps(("failed", "%s: %s" % (type(exc).__name__, exc), ()))
                        os.write(bw, len(out).to_bytes(8, "big"))
                        while out:
                            out = out[os.write(bw, out):]
                        os._exit(0)
                    if os.waitpid(pid, 0)[1]:
                        os.write(bw, b"\0" * 8)
        finally:
            os._exit(0)
    os.close(ar)
    os.close(bw)
    _pristine = os.getpid(), os.fdopen(aw, "wb"), os.fdopen(br, "rb")


def compute(stack, kind, me, backend):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    env = rt.Env(None)
    rec = Rec(env)
    app = make_app(stack, rec)
    r = Req(kind, me, stack, env)

    async def main():
        with rt.vthreads("baton"):
            await r.run(app)

    out = rt.run(main, env, backend)
    asgi.settled(out)
    if kind not in ("boom", "wse-bad", "badauth", "member", "body", "form", "404", "ws-404", "wsgi") and r.exc is not None:
        if not (kind in ("ws", "wse") and "https" in STACKS[stack]):
            raise r.exc
    return r.sig(), tuple(rec.logs.get(me, ())), set(rec.logs) - {me}


def alone(x, stack, kind, me, backend="asyncio"):
    """The same request through a fresh application, with nothing else going on (in a process of its own)."""
    key = (stack, kind, me, backend)
    if key not in _alone:
        _, ask, answer = _pristine
        pickle.dump(key, ask)
        ask.flush()
        n = int.from_bytes(answer.read(8), "big")
        _alone[key] = pickle.loads(answer.read(n)) if n else ("failed", "no answer", ())
    sig, log, others = _alone[key]
    if sig == "failed":
        raise Violation("alone, %s fails on %s: %s" % (kind, stack, log))
    x.check(not others, "logged for others", others)
    return sig, log


def usable(kind, stack):
    if kind in ("member", "badauth"):
        return "auth" in STACKS[stack]
    if kind == "preflight":
        return "cors" in stack or "all" in stack
    if kind == "badhost":
        return "hosts" in STACKS[stack]
    return True


def compare(x, r, stack, rec, what, prefix=False, backend="asyncio"):
    sig, log = alone(x, stack, r.kind, r.me, backend)
    got = r.sig()
    glog = tuple(rec.logs.get(r.me, ()))
    if not prefix:
        x.check(got == sig, "the response differs from the one the client gets alone", "got  %s" % short(got, 1500), "alone %s" % short(sig, 1500), what)
        x.eq(glog, log, "what was done for the request: %s" % (what,))
        return
    # cut short by its own client: nothing but its own bytes
    if r.scope["type"] != "websocket":  # (a close code tells of the failure)
        x.check(glog == log[: len(glog)] or r.kind in ("body", "form"), "what was done for the request", glog, log, what)
    if got[0] is None or r.scope["type"] == "websocket":
        if r.scope["type"] == "websocket":
            x.check(got[0] == sig[0][: len(got[0])], "frames", got, sig, what)
        return
    if sig[0] is None or got[0][0] != sig[0][0]:
        x.check(got[0][0] in (400, 500) or sig[0] is None, "status", got, sig, what)
        return
    # (a gzip middleware that saw an incomplete body end early may have left it as it is)
    plain = lambda h: sorted(p for p in h if p[0] not in (b"content-encoding", b"vary", b"content-length"))
    x.eq(plain(got[0][1]), plain(sig[0][1]), "headers of a cut response: %s" % (what,))
    x.check(sig[0][2].replace(b"gzip:", b"").startswith(got[0][2].replace(b"gzip:", b"")), "a cut response is not a prefix", got, sig, what)


def run_set(x, stack, specs, bound, early=None, cap=4000, backend="asyncio", gates=True, then=()):
    """Requests at once through one application (then others, one by one): every schedule."""
    def one(ch):
        env = rt.Env(ch, early=early)
        rec = Rec(env)
        app = make_app(stack, rec)
        reqs = [Req(k, me, stack, env, fault, gates=gates, pos=i) for i, (k, me, fault) in enumerate(specs)]

        async def main():
            import anyio

            with threads(gates):
                async with anyio.create_task_group() as tg:
                    for r in reqs:
                        tg.start_soon(r.run, app)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        left = [a[0] for a in env.actions.values() if a[0].startswith("thread:")]
        x.check(not left, "worker threads left behind", left, specs)
        for r in reqs:
            compare(x, r, stack, rec, (stack, specs, env.fired), prefix=bool(r.fault), backend=backend)
        x.step(sum(len(r.srv.sent) for r in reqs))
        x.outcome((stack, specs, tuple(env.fired)))
        for i in range(1, len(env.fired)):
            x.state((stack, specs, tuple(env.fired[:i])))
        for k, me in then:
            after(x, app, stack, k, me, rec, (stack, specs, env.fired), backend)

    return x.explore(one, bound, cap=cap)


def after(x, app, stack, kind, me, rec, what, backend="asyncio"):
    """A later request through the same application."""
    env = rt.Env(None)
    old = rec.env, rec.logs
    rec.env, rec.logs = env, {}
    r = Req(kind, me, stack, env)

    async def main():
        with rt.vthreads("baton"):
            await r.run(app)

    out = rt.run(main, env, backend)
    asgi.settled(out)
    compare(x, r, stack, rec, ("afterwards", kind, me) + tuple(what), backend=backend)
    rec.env, rec.logs = old


FULL = ["none"]  # the stacks tried with every pair in quick; the others: each kind with itself, echo and stream


def pair_cases(tier):
    for stack in STACKS:
        kinds = [k for k in KINDS if usable(k, stack)]
        for i, a in enumerate(kinds):
            for b in kinds[i:]:
                if tier == "quick" and stack not in FULL and not (a == b or "echo" in (a, b) or ("stream" in (a, b) and len(STACKS[stack]) < 4)):
                    continue
                yield stack, a, b


@C.family("pairs", pair_cases, "middleware stacks x pairs of request kinds in flight together, every order of their suspension points: each client gets what it gets alone, and so does a third one later")
def _(case, x):
    pristine()
    stack, a, b = case
    both = [("a", "b")]  # two clients with gzip, two without; b and d have a session, a lifespan state comes with a, b and d
    if x.tier != "quick" or a == b or "stream" in (a, b):
        both += [("d", "b"), ("a", "c")]
    if x.tier != "quick" and a != b:
        both += [("b", "a")]
    for ma, mb in both:
        run_set(x, stack, ((a, ma, None), (b, mb, None)), 0, cap=4000 if x.tier == "quick" else 20000, then=[("echo", "c")], gates=x.tier != "quick" or "coarse")
    if x.tier != "quick":
        run_set(x, stack, ((a, "a", None), (b, "b", None)), 1, early=1, cap=3000)


def trio_cases(tier):
    for stack in ("none", "gzip-base", "all") if tier == "quick" else STACKS:
        kinds = [k for k in KINDS if usable(k, stack)]
        for k in kinds:
            for b in (k, "echo") if tier == "quick" else (k, "echo", "stream", "sync"):
                yield stack, k, b


@C.family("trio", trio_cases, "the same on trio: every kind with itself and with three partners")
def _(case, x):
    pristine()
    stack, a, b = case
    run_set(x, stack, ((a, "a", None), (b, "b", None)), 0, cap=4000, backend="trio", gates=x.tier != "quick" or "coarse")


def triple_cases(tier):
    core = ["echo", "sync", "stream", "template", "boom", "http", "class", "mount", "file", "bg", "body", "ws"]
    for stack in ("none", "all", "all2", "session", "base-gzip-session"):
        for t in itertools.combinations_with_replacement(core, 3):
            if tier == "quick" and (len(set(t)) != 1 and (hash_(t) % 4 or stack not in ("all", "none"))):
                continue
            yield (stack,) + t


def hash_(t):
    return sum((i + 1) * ord(c) for i, c in enumerate("/".join(t)))


@C.family("triples", triple_cases, "three requests in flight together (with the pauses of the application and its threads; thorough: of the server too)")
def _(case, x):
    pristine()
    stack, a, b, c = case
    run_set(x, stack, ((a, "a", None), (b, "b", None), (c, "c", None)), 0, cap=2000 if x.tier == "quick" else 8000, gates="app" if x.tier == "quick" else "coarse")


def faults_of(kind):
    fs = [("sendfail", 0)]
    if kind not in ("ws-404",):
        fs.append(("sendfail", 1))
    if kind == "stream":
        fs.append(("sendfail", 2))
    if not kind.startswith("ws"):
        fs.append(("disc",))
        if kind in ("body", "form"):
            fs += [("cut", 0), ("cut", 1)]
    if kind == "wsgi":
        fs = [f for f in fs if f[0] != "sendfail"] + [("sendfail", 0), ("cut", 0)]
    return fs


def fault_cases(tier):
    for stack in ("none", "handler500", "gzip", "session", "base", "read", "all") if tier == "quick" else STACKS:
        for kind in KINDS:
            if usable(kind, stack):
                for f in faults_of(kind):
                    yield stack, kind, f


@C.family("faults", fault_cases, "every stack x kind, its client leaving at every moment, its send() failing at each message or its body cut short, while another request is in flight: the other one and every later one get what they get alone")
def _(case, x):
    pristine()
    stack, kind, f = case
    others = ["echo"] if x.tier == "quick" else ["echo", "stream", "body", kind]
    for o in others:
        then = [("echo", "c"), (kind, "b")]
        run_set(x, stack, ((kind, "a", f), (o, "b", None)), 0, cap=4000, then=then, gates=x.tier != "quick" or "coarse")


def history_cases(tier):
    stacks = ["none", "all", "all2", "session-auth", "base-read", "handler500"] if tier == "quick" else list(STACKS)
    for stack in stacks:
        for kind in KINDS:
            if usable(kind, stack):
                yield stack, kind


@C.family("histories", history_cases, "one after the other through one application: every kind (whole, its client gone, its send failing) followed by every kind (thorough: two of them first)")
def _(case, x):
    pristine()
    stack, first = case
    kinds = [k for k in KINDS if usable(k, stack)]
    env = rt.Env(None)
    for fault in [None] + [f for f in faults_of(first)]:
        firsts = [[(first, "a", fault)]]
        if x.tier != "quick":
            firsts += [[(first, "a", fault), (k, "b", None)] for k in kinds]
        for hist in firsts:
            rec = Rec(env)
            app = make_app(stack, rec)
            for k, me, fl in hist:
                env0 = rt.Env(None)
                rec.env, rec.logs = env0, {}
                r = Req(k, me, stack, env0, fl)

                async def main():
                    with rt.vthreads("baton"):
                        await r.run(app)

                out = rt.run(main, env0)
                asgi.settled(out)
                compare(x, r, stack, rec, (stack, hist), prefix=bool(fl))
            for k in kinds:
                for me in ("b", "a") if k == first else ("b",):
                    after(x, app, stack, k, me, rec, (stack, hist))
                    x.outcome((stack, tuple(map(repr, hist)), k, me))
