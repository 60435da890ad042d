"""C05 Request/response middleware hands the body downstream intact."""
from __future__ import annotations

import itertools
import json

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Mount, Route

C = Check("C05", ["form() in a dispatch function consumes the stream (it does not cache the body)",
                  "message boundaries may change on the way down, bytes and their order may not"])

BODY = b"12"  # valid JSON and a valid urlencoded form
CT = b"application/x-www-form-urlencoded"
PRE = ["body", "json", "form", "stream", "stream1", "isdc"]


class Gone(Exception):
    pass


class Block(Exception):
    pass


class Source:
    def __init__(self, chunks, dc):
        self.chunks = list(chunks)
        self.left = list(chunks) if dc is None else list(chunks)[:dc]
        self.n = 0
        self.dc = dc

    def next(self):
        if self.left:
            self.n += 1
            return self.left.pop(0), self.n < len(self.chunks)
        if self.dc is not None:
            raise Gone
        raise Block


class Layer:
    """Reference automaton of one Request and what it hands down."""

    def __init__(self, src):
        self.src = src
        self.consumed = False
        self.cbody = None
        self.cform = False
        self.done = False
        self.disc = False

    def chunk(self):
        data, more = self.src.next()
        if not more:
            self.consumed = True
        return data

    def stream(self, limit=None):
        if self.cbody is not None:
            return [self.cbody, b""][:limit], None
        if self.consumed:
            return [], "RuntimeError"
        out = []
        while not self.consumed:
            try:
                c = self.chunk()
            except Gone:
                return out, "ClientDisconnect"
            if c:
                out.append(c)
                if limit is not None and len(out) >= limit:
                    return out, None
        return out + [b""], None

    def do(self, call):
        if call in ("body", "json"):
            if self.cbody is None:
                got, err = self.stream()
                if err:
                    return err
                self.cbody = b"".join(got)
            if call == "json":
                try:
                    return ("json", json.loads(self.cbody))
                except ValueError as exc:
                    return type(exc).__name__
            return ("body", self.cbody)
        if call == "stream":
            got, err = self.stream()
            return ("stream", b"".join(got), err)
        if call == "stream1":
            got, err = self.stream(1)
            return ("stream", b"".join(got), err)
        if call == "form":
            if not self.cform:
                got, err = self.stream()
                if err:
                    return err
                self.cform = True
                self.form = b"".join(got)
            return ("form", [(self.form.decode(), "")] if self.form else [])
        if call == "isdc":
            return ("isdc", None)

    # what the next layer receives
    def next(self):
        if self.disc:
            raise Gone
        if self.done:
            try:
                self.src.next()
            except Gone:
                self.disc = True
                raise
            raise AssertionError
        if self.cbody is not None:
            self.done = True
            return self.cbody, False
        if self.consumed:
            self.done = True
            return b"", False
        try:
            while True:
                c = self.chunk()
                if self.consumed:
                    self.done = True
                    return c, False
                if c:
                    return c, True
        except Gone:
            self.disc = True
            raise


async def do(req, call):
    try:
        if call == "body":
            return ("body", await req.body())
        if call == "json":
            return ("json", await req.json())
        if call in ("stream", "stream1"):
            out = []
            gen = req.stream()
            try:
                async for c in gen:
                    out.append(c)
                    if call == "stream1" and c:
                        break
            except Exception as exc:
                return ("stream", b"".join(out), type(exc).__name__)
            finally:
                await gen.aclose()
            return ("stream", b"".join(out), None)
        if call == "form":
            return ("form", (await req.form()).multi_items())
        if call == "isdc":
            await req.is_disconnected()
            return ("isdc", None)
    except Exception as exc:
        return type(exc).__name__


INNER = ["body", "raw", "stream", "json", "form", "none", "isdc+body", "isdc+isdc+isdc+body+isdc", "stream1+body"]


async def inner_reads(script, scope, receive, log):
    req = None
    for call in script.split("+"):
        if call == "none":
            continue
        if call == "raw":
            out = []
            while True:
                m = await receive()
                if m["type"] == "http.disconnect":
                    log.append(("raw", b"".join(out), "ClientDisconnect"))
                    break
                out.append(m.get("body", b""))
                if not m.get("more_body", False):
                    log.append(("raw", b"".join(out), None))
                    break
        else:
            if req is None:
                req = Request(scope, receive)
            log.append(await do(req, call))


def model_inner(script, src):
    log = []
    layer = Layer(src)
    for call in script.split("+"):
        if call == "none":
            continue
        if call == "raw":
            out = []
            while True:
                try:
                    data, more = src.next()
                except Gone:
                    log.append(("raw", b"".join(out), "ClientDisconnect"))
                    break
                out.append(data)
                if not more:
                    log.append(("raw", b"".join(out), None))
                    break
        else:
            log.append(layer.do(call))
    return log


def build(pres, posts, script, logs, late, shape="direct"):
    async def app(scope, receive, send):
        await inner_reads(script, scope, receive, logs["inner"])
        await send({"type": "http.response.start", "status": 200, "headers": []})
        await send({"type": "http.response.body", "body": b"ok"})
        for _ in range(late):
            m = await receive()
            logs["late"].append(m["type"])

    def mk(i, pre, post):
        async def dispatch(request, call_next):
            for c in pre:
                logs[i].append(await do(request, c))
            response = await call_next(request)
            for c in post:
                logs[i].append(await do(request, c))
            return response

        return dispatch

    if shape == "direct":
        for i in reversed(range(len(pres))):
            app = BaseHTTPMiddleware(app, mk(i, pres[i], posts[i]))
        return app
    mws = [Middleware(BaseHTTPMiddleware, dispatch=mk(i, pres[i], posts[i])) for i in range(len(pres))]

    async def endpoint(request):
        await inner_reads(script, request.scope, request.receive, logs["inner"])
        return PlainTextResponse("ok")

    if shape == "app":
        return Starlette(routes=[Route("/", endpoint, methods=["POST"])], middleware=mws)
    if shape == "split":
        return Starlette(routes=[Mount("/", routes=[Route("/", endpoint, methods=["POST"], middleware=mws[1:])], middleware=mws[:1])])


def run_one(x, pres, posts, script, chunks, dc, yields=False, late=2, shape="direct", backend="asyncio"):
    logs = {i: [] for i in range(len(pres))}
    logs["inner"] = []
    logs["late"] = []
    app = build(pres, posts, script, logs, late, shape)
    ms = asgi.body_messages(chunks)
    srv = asgi.Server(ms if dc is None else ms[:dc], yields=yields)
    srv._drop_on_disconnect = lambda: False
    if dc is not None:
        srv.disconnected = True

    async def main():
        await app(asgi.scope(method="POST", headers=[(b"content-type", CT)]), srv.receive, srv.send)

    out = rt.run(main, None, backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    r = asgi.judge(srv.sent)
    x.eq((r.status, r.body), (200, b"ok"), "response")
    # model
    src = Source(chunks, dc)
    layers = []
    for pre in pres:
        layer = Layer(src)
        for_this = [layer.do(c) for c in pre]
        layers.append((layer, for_this))
        src = layer
    inner = model_inner(script, src)
    x.eq(logs["inner"], inner, "what the application read")
    for i in reversed(range(len(pres))):
        layers[i][1].extend([layers[i][0].do(c) for c in posts[i]])
        x.eq(logs[i], layers[i][1], "what dispatch %d read" % i)
    if shape == "direct":
        x.eq(logs["late"], ["http.disconnect"] * late, "receives after the response was sent")
    # the statement itself
    if dc is None and script in ("body", "raw", "stream"):
        if not any(c != "isdc" for p in pres for c in p):
            x.check(inner[0][1] == b"".join(chunks), "untouched body changed")
    x.step(srv.receives + len(srv.sent))
    x.outcome((repr(logs), srv.receives))


def chunk_lists():
    seen = []
    for c in asgi.chunkings(BODY, 3):
        if c not in seen:
            seen.append(c)
    return [tuple(c) for c in seen] + [(), (b"", b""), (b"1", b"", b"", b"2"), (b"", b"1", b"2", b"")]


def seqs(n):
    for k in range(n + 1):
        yield from itertools.product(PRE, repeat=k)


def cases_one(tier):
    for chunks in chunk_lists():
        for dc in [None] + list(range(len(chunks) + 1)):
            for pre in seqs(2 if tier == "quick" else 3):
                yield (chunks, dc, pre)


@C.family("one-layer", cases_one, "one middleware: every chunking x disconnect point x dispatch action sequence (<=2, thorough 3) x post action x what the application reads")
def _(case, x):
    chunks, dc, pre = case
    for script in INNER:
        for post in ((), ("body",), ("stream",), ("isdc", "body")):
            if "none" == script and post and dc is None and False:
                continue
            run_one(x, [pre], [post], script, chunks or (b"",), dc)
        run_one(x, [pre], [()], script, chunks or (b"",), dc, yields=True)


def cases_two(tier):
    for chunks in chunk_lists():
        for dc in [None] + list(range(len(chunks) + 1)):
            for pre1 in seqs(1 if tier == "quick" else 2):
                for pre2 in seqs(1 if tier == "quick" else 2):
                    yield (chunks, dc, pre1, pre2)


@C.family("two-layers", cases_two, "two nested middlewares (direct, Starlette application, mount + route): every pair of dispatch action sequences (<=1, thorough 2)")
def _(case, x):
    chunks, dc, pre1, pre2 = case
    chunks = chunks or (b"",)
    for script in INNER:
        run_one(x, [pre1, pre2], [(), ()], script, chunks, dc)
    for script in ("body", "raw"):
        run_one(x, [pre1, pre2], [("body",), ("stream",)], script, chunks, dc)
        run_one(x, [pre1, pre2], [(), ()], script, chunks, dc, shape="app")
        run_one(x, [pre1, pre2], [(), ()], script, chunks, dc, shape="split")
        run_one(x, [pre1, pre2], [(), ()], script, chunks, dc, yields=True)


def cases_three(tier):
    for chunks in ((b"12",), (b"1", b"2"), (b"1", b"2", b"")):
        for dc in [None] + list(range(len(chunks) + 1)):
            for pres in itertools.product([(), ("body",), ("stream",), ("stream1",), ("isdc",)], repeat=3):
                yield (chunks, dc, pres)


@C.family("three-layers", cases_three, "three nested middlewares")
def _(case, x):
    chunks, dc, pres = case
    for script in ("body", "raw", "stream1+body"):
        run_one(x, list(pres), [(), (), ()], script, chunks, dc)


def cases_trio(tier):
    for chunks in ((b"12",), (b"1", b"2"), (b"1", b"2", b"")):
        for dc in [None] + list(range(len(chunks) + 1)):
            for pre1 in seqs(1):
                for pre2 in [None] + list(seqs(1)):
                    yield (chunks, dc, pre1, pre2)


@C.family("trio", cases_trio, "one and two middlewares on trio")
def _(case, x):
    chunks, dc, pre1, pre2 = case
    pres = [pre1] if pre2 is None else [pre1, pre2]
    for script in ("body", "raw", "isdc+body"):
        run_one(x, pres, [()] * len(pres), script, chunks, dc, backend="trio")
        if pre2 is None:
            run_one(x, pres, [()] * len(pres), script, chunks, dc, backend="trio", yields=True)


# ------------------------------------------------------------------ schedules

APPS = ["read-send-recv", "listener", "recv-mid", "poll"]


def cases_sched(tier):
    for chunks in ((b"12",), (b"1", b"2"), (b"1", b""), (b"",), (b"", b"12")):
        for pres in ([()], [("body",)], [("body", "isdc")], [("stream",)], [("isdc",)], [("stream1",)], [(), ()], [("body",), ()], [(), ("isdc",)]):
            for app in APPS:
                for mode in ("r", "rd", "rsd"):
                    for backend in ("asyncio", "trio"):
                        if backend == "trio" and (len(pres) > 1 or mode == "rsd"):
                            continue
                        yield (chunks, tuple(pres), app, mode, backend)


@C.family("schedules", cases_sched, "gated receive/send and a client disconnect anywhere: body handed down intact, later receives report the disconnect or the end of the response, nothing hangs")
def _(case, x):
    chunks, pres, kind, mode, backend = case
    whole = b"".join(chunks)

    def run(ch):
        import anyio

        env = rt.Env(ch, early=1)
        srv = asgi.Server(asgi.body_messages(chunks), env=env, gate=mode)
        log = {"pre": [], "body": [], "end": None, "late": [], "mid": [], "final": False}

        async def recv_body(receive):
            while True:
                m = await receive()
                if m["type"] == "http.disconnect":
                    log["end"] = "disconnect"
                    return
                log["body"].append(m.get("body", b""))
                if not m.get("more_body", False):
                    log["end"] = "final"
                    return

        async def app(scope, receive, send):
            if kind == "poll":
                req = Request(scope, receive)
                for _ in range(2):
                    log["mid"].append((await req.is_disconnected(), srv.disconnected))
                try:
                    log["body"].append(await req.body())
                    log["end"] = "final"
                except ClientDisconnect:
                    log["end"] = "disconnect"
                log["mid"].append((await req.is_disconnected(), srv.disconnected))
            else:
                await recv_body(receive)
            await send({"type": "http.response.start", "status": 200, "headers": []})
            if kind == "recv-mid":
                # wait for the disconnect while the response is open; only possible if the client hangs up
                if "d" in mode:
                    log["mid"].append((await receive())["type"])
            if kind == "listener":
                seen = anyio.Event()

                async def listen():
                    log["late"].append((await receive())["type"])
                    x.check(srv.disconnected or log["final"], "disconnect reported although the client is connected and the response not sent", srv.sent)
                    seen.set()

                async with anyio.create_task_group() as tg:
                    tg.start_soon(listen)
                    await send({"type": "http.response.body", "body": b"o", "more_body": True})
                    log["final"] = True
                    await send({"type": "http.response.body", "body": b"k"})
                    await seen.wait()
            else:
                await send({"type": "http.response.body", "body": b"o", "more_body": True})
                await send({"type": "http.response.body", "body": b"k"})
            for _ in range(2):
                log["late"].append((await receive())["type"])

        def mk(pre):
            async def dispatch(request, call_next):
                for c in pre:
                    log["pre"].append(await do(request, c))
                return await call_next(request)
            return dispatch

        top = app
        for pre in reversed(pres):
            top = BaseHTTPMiddleware(top, mk(pre))

        async def main():
            await top(asgi.scope(method="POST"), srv.receive, srv.send)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        x.eq(log["late"], ["http.disconnect"] * (3 if kind == "listener" else 2), "receives after the response was sent")
        r = asgi.judge(srv.sent)
        x.eq((r.status, r.body), (200, b"ok"), "response")
        got = b"".join(log["body"])
        touched = [c for p in pres for c in p if c != "isdc"]
        pre_dc = any(g == "ClientDisconnect" or (isinstance(g, tuple) and g[-1] == "ClientDisconnect") for g in log["pre"])
        if not srv.disconnected:
            x.check(log["end"] == "final", "disconnect reported although the client is connected and the response not sent", log)
        if log["end"] == "final":
            if not touched or touched == ["body"]:
                x.eq(got, whole, "body handed down")
            elif touched == ["stream"]:
                x.check(got == b"" or pre_dc, "remainder after stream()", log)
            else:
                first = next((g for g in log["pre"] if isinstance(g, tuple) and g[0] == "stream"), None)
                x.check(first is not None and first[1] + got == whole, "remainder after a partial stream()", log)
        for t in log["mid"]:
            if isinstance(t, tuple):
                x.check(t[1] or not t[0], "is_disconnected() without a disconnect", log)
            else:
                x.check(t == "http.disconnect" and srv.disconnected, "receive() during the response returned %r" % (t,), log)
        x.state(tuple(env.fired))
        x.outcome((repr(log), srv.disconnected))

    x.explore(run, (1 if backend == "asyncio" else 0) + (x.tier != "quick"))


def cases_big(tier):
    for n in (65535, 65536, 65537, 1 << 20):
        for parts in (1, 3, 17):
            for pre in ((), ("body",), ("stream",), ("stream1",), ("isdc",)):
                yield (n, parts, pre)
    for parts in (300, 2000):
        for pre in ((), ("body",), ("stream",), ("isdc", "isdc")):
            yield (parts, parts, pre)


@C.family("sizes", cases_big, "large bodies and many messages")
def _(case, x):
    n, parts, pre = case
    data = bytes(49 + i % 7 for i in range(n))
    step = max(1, -(-n // parts))
    chunks = tuple(data[i:i + step] for i in range(0, n, step))
    for script in ("body", "raw"):
        run_one(x, [pre], [()], script, chunks, None)
        if parts < 300 or script == "raw":
            run_one(x, [pre, ()], [(), ()], script, chunks, None)
