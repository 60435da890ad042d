"""C27 GZip never changes what the client decodes."""
from __future__ import annotations

import copy
import itertools
import os
import tempfile
import zlib

import anyio

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route
from starlette.staticfiles import StaticFiles

C = Check("C27", [
    "a request accepts gzip if its accept-encoding names it ('gzip;q=0' and other spellings of names are not tried), in one header",
    "the application's messages are a response as ASGI says; one start dictionary is used for one response; content types are lower-case",
    "204 and 304 responses have no body and are not streamed",
])

RND = bytes((i * i * 7919 + i // 3 * 104729 >> 3) & 255 for i in range(9000))


def data(n, salt=0):
    """n bytes that do not repeat too soon."""
    if n > 9000:
        return (RND * (n // 9000 + 1))[:n]
    return RND[salt:salt + n] if salt + n <= 9000 else RND[:n]


def decode(r):
    """What the client sees."""
    ce = r.all("content-encoding")
    if len(ce) > 1:
        raise Violation("content-encoding %s" % ce)
    if ce != [b"gzip"]:
        return r.body, False
    d = zlib.decompressobj(31)
    out = d.decompress(r.body) + d.flush()
    if not d.eof or d.unused_data:
        raise Violation("the gzip stream is not one complete member: %s" % short(r.body))
    return out, True


def accepts(ae):
    return ae is not None and "gzip" in [t.split(";")[0].strip() for t in ae.split(",")]


AE = [None, "gzip", "gzip, deflate, br", "br;q=1.0, gzip;q=0.8, *;q=0.1", "deflate", "", "identity"]
HEADERS = {
    "plain": [("content-type", "text/plain")],
    "vary": [("vary", "Cookie"), ("x-a", "1"), ("x-a", "2")],
    "varies": [("vary", "A"), ("vary", "B"), ("set-cookie", "a=1"), ("set-cookie", "b=2")],
    "varies gzip": [("vary", "Accept-Encoding")],
    "missing": None,
    "sse": [("content-type", "text/event-stream")],
    "sse2": [("content-type", "text/event-stream; charset=utf-8"), ("vary", "x")],
    "encoded": [("content-encoding", "br"), ("x", "y")],
    "identity": [("content-encoding", "identity")],
    "etag": [("etag", '"x"'), ("content-type", "application/json"), ("last-modified", "y")],
}


def eligible(first, more, minimum, headers):
    names = dict(headers or ())
    return (more or len(first) >= minimum) and "content-encoding" not in names and not names.get("content-type", "").startswith("text/event-stream")


def build(chunks, headers, with_length, style, status=200):
    """The messages of a response; chunk None means no body key."""
    body = b"".join(c or b"" for c in chunks)
    start = {"type": "http.response.start", "status": status}
    if headers is not None or with_length:
        hs = [(k.encode(), v.encode()) for k, v in headers or ()]
        if with_length:
            hs.insert(len(hs) // 2, (b"content-length", str(len(body)).encode()))
        start["headers"] = tuple(hs) if style == 1 else hs
    out = [start]
    for i, c in enumerate(chunks):
        m = {"type": "http.response.body"}
        if c is not None:
            m["body"] = c
        if i < len(chunks) - 1:
            m["more_body"] = True
        elif style != 1:
            m["more_body"] = False
        out.append(m)
    return out, body


def verdict(r, body, ok, want_gzip, headers, with_length, what, status=200):
    got, gz = decode(r)
    if got != body:
        raise Violation("%s: the client reads %s, expected %s" % (what, short(got), short(body)), short(r))
    if r.status != status:
        raise Violation("%s: status %d" % (what, r.status))
    if gz is not want_gzip:
        raise Violation("%s: compressed is %s, expected %s" % (what, gz, want_gzip), short(r))
    had = [(k, v) for k, v in headers or ()]
    new = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in r.headers]
    own = ("content-length",) + (("vary",) if ok else ()) + (("content-encoding",) if want_gzip else ())
    if [p for p in new if p[0] not in own] != [p for p in had if p[0] not in own]:
        raise Violation("%s: headers %s, expected %s" % (what, new, had))
    vary = [t.strip() for k, v in new if k == "vary" for t in v.split(",")]
    if ok:
        if "Accept-Encoding" not in vary:
            raise Violation("%s: vary %s" % (what, vary))
        lost = {v for k, v in had if k == "vary"} - set(vary)
        if lost or set(vary) - {"Accept-Encoding"} - {v for k, v in had if k == "vary"}:
            raise Violation("%s: vary %s of %s" % (what, vary, had))
    cl = [v for k, v in new if k == "content-length"]
    if not want_gzip:
        if cl != ([str(len(body))] if with_length else []):
            raise Violation("%s: content-length %s" % (what, cl))
    elif cl and cl != [str(len(r.body))]:
        raise Violation("%s: content-length %s for %d bytes" % (what, cl, len(r.body)))


class App:
    """Sends its messages; watches that each arrives before the next."""

    def __init__(self, messages):
        self.messages = messages
        self.srv = None
        self.bad = None

    async def __call__(self, scope, receive, send):
        bodies = 0
        for m in self.messages:
            keep = copy.copy(m)
            await send(m)
            if m["type"] == "http.response.body":
                bodies += 1
                n = sum(s["type"] == "http.response.body" for s in self.srv.sent)
                if n != bodies:
                    self.bad = "after %d body messages %d had been sent" % (bodies, n)
            if m["type"] == "http.response.body" and m != keep:
                self.bad = "the message was changed to %s" % short(m)


async def exchange(app, ae, srv=None, path="/", method="GET"):
    srv = srv or asgi.Server()
    hs = [(b"accept-encoding", ae.encode())] if ae is not None else []
    inner = getattr(app, "app", None)
    if isinstance(inner, App):
        inner.srv = srv
    await app(asgi.scope(path, method, headers=hs), srv.receive, srv.send)
    if isinstance(inner, App) and inner.bad:
        raise Violation(inner.bad)
    return asgi.judge(srv.sent)


def chunk_lists(minimum, n, big):
    sizes = [None, 0, 1, max(minimum - 1, 0), minimum, minimum + 1] + big
    seen = set()
    for k in range(1, n + 1):
        for c in itertools.product(range(len(sizes)), repeat=k):
            key = tuple(sizes[i] for i in c)
            if key not in seen:
                seen.add(key)
                yield [None if s is None else data(s, 7 * i) for i, s in enumerate(key)]


def sequence_cases(tier):
    for minimum in (500, 0, 1, 10):
        for h in HEADERS:
            for ae in AE:
                yield (minimum, h, ae, 4 if tier == "quick" else 5)


@C.family("sequences", sequence_cases, "all sequences of up to 4 (5) body messages over 6-7 sizes around minimum_size, keys present or absent, x 10 header lists x content-length given or not x 7 accept-encodings x 4 minimum sizes: what is decoded, whether it is compressed, the headers, one message for each")
def sequences(case, x):
    minimum, h, ae, depth = case
    headers = HEADERS[h]
    lists = list(chunk_lists(minimum, depth if accepts(ae) and h in ("plain", "vary", "missing", "varies") else 2, [5000] if minimum == 500 else []))

    async def main():
        for i, chunks in enumerate(lists):
            for with_length in (False, True):
                for style in (0, 1):
                    if style and (i + with_length) % 3:
                        continue
                    msgs, body = build(chunks, headers, with_length, style)
                    mw = GZipMiddleware(App(msgs), minimum_size=minimum, compresslevel=(i % 10) if i % 2 else 1)
                    r = await exchange(mw, ae)
                    ok = eligible(chunks[0] or b"", len(chunks) > 1, minimum, headers)
                    verdict(r, body, ok, ok and accepts(ae), headers, with_length, "sizes %s length=%s style %d" % ([None if c is None else len(c) for c in chunks], with_length, style))
                    x.step()

    asgi.result(rt.run(main))
    x.outcome(case)


def big_cases(tier):
    for level in range(10):
        for ae in ("gzip", "deflate"):
            yield (level, ae)


@C.family("big", big_cases, "large and repetitive bodies in chunks beyond any buffer x every level: bytes, bytearray and memoryview")
def big(case, x):
    level, ae = case
    sizes = [1 << 17, (1 << 17) + 1, 300001, 70000]

    async def main():
        for chunks in ([data(sizes[2])], [data(sizes[0]), b"", data(sizes[1])], [data(1), data(sizes[1]), data(2)], [b"a" * 500000, b"b"], [b"", data(70000), data(70000), data(70000), b""], [data(65536)] * 5):
            for kind in (bytes, bytearray, memoryview):
                if kind is not bytes and len(chunks) > 3:
                    continue
                msgs, body = build([kind(c) for c in chunks], HEADERS["plain"], True, 0)
                r = await exchange(GZipMiddleware(App(msgs), compresslevel=level), ae)
                verdict(r, body, True, ae == "gzip", HEADERS["plain"], True, "%s of sizes %s" % (kind.__name__, [len(c) for c in chunks]))
                x.step()

    asgi.result(rt.run(main))
    x.outcome(case)


# ---------------------------------------------------------------- several messages, several requests

def reuse_cases(tier):
    for seq in itertools.product(("big", "small", "stream", "sse"), ("big", "small", "stream", "sse"), ("big", "small", "stream")):
        yield seq


@C.family("reuse", reuse_cases, "one middleware and shared response objects for every sequence of 3 responses x accept-encodings: each as alone; an application that sends one message several times; a message per response of constants")
def reuse(case, x):
    big_ = PlainTextResponse(data(600).hex(), headers={"vary": "A"})
    small = PlainTextResponse("tiny", headers={"x": "1"})
    same = {"type": "http.response.body", "body": data(50), "more_body": True}
    HS = [(b"vary", b"Q")]

    async def stream(scope, receive, send):
        await send({"type": "http.response.start", "status": 200, "headers": HS})
        for _ in range(3):
            await send(same)
        await send({"type": "http.response.body"})

    async def sse(scope, receive, send):
        await StreamingResponse(iter([b"data: 1\n\n", b"data: 2\n\n"]), media_type="text/event-stream")(scope, receive, send)

    async def app(scope, receive, send):
        await {"big": big_, "small": small, "stream": stream, "sse": sse}[scope["path"][1:]](scope, receive, send)

    want = {"big": data(600).hex().encode(), "small": b"tiny", "stream": data(50) * 3, "sse": b"data: 1\n\ndata: 2\n\n"}

    async def main():
        for aes in itertools.product(("gzip", None), repeat=len(case)):
            mw = GZipMiddleware(app)
            for kind, ae in zip(case, aes):
                r = await exchange(mw, ae, path="/" + kind)
                got, gz = decode(r)
                x.check(got == want[kind] and gz is (ae == "gzip" and kind in ("big", "stream")), "%s in %s with %s: %s" % (kind, case, aes, short(r)))
                vary = r.all("vary")
                x.check(vary == {"big": [b"A, Accept-Encoding"], "stream": [b"Q, Accept-Encoding"]}.get(kind, []), "%s in %s with %s: vary %s" % (kind, case, aes, vary))
                x.step()
        x.check(same == {"type": "http.response.body", "body": data(50), "more_body": True} and HS == [(b"vary", b"Q")], "messages were changed")

    asgi.result(rt.run(main))
    x.outcome(case)


PAIR = {"stream": [data(20), data(600), data(3)], "stream2": [b"", data(700, 9), b"", data(1)], "big": [data(900, 5)], "small": [data(5)], "sse": [b"data: 1\n\n", b"data: 2\n\n"]}


def concurrent_cases(tier):
    for a in PAIR:
        for b in PAIR:
            for aes in (("gzip", "gzip"), ("gzip", None)):
                yield (a, b, aes)


@C.family("concurrent", concurrent_cases, "every pair of 5 kinds of responses at the same time, every order of their sends: each client decodes its own")
def concurrent(case, x):
    a, b, aes = case

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)

        async def app(scope, receive, send):
            i = int(scope["path"][1:])
            kind = case[i]
            msgs, _ = build(PAIR[kind], HEADERS["sse" if kind == "sse" else "vary"], False, 0)
            for m in msgs:
                await send(m)

        mw = GZipMiddleware(app)
        out = [None, None]

        async def one(i):
            out[i] = await exchange(mw, aes[i], asgi.Server(env=env, gate="s", name=str(i)), "/%d" % i)

        async def main():
            async with anyio.create_task_group() as tg:
                tg.start_soon(one, 0)
                tg.start_soon(one, 1)

        asgi.result(rt.run(main, env=env))
        for i in (0, 1):
            kind = case[i]
            ok = kind not in ("small", "sse")
            verdict(out[i], b"".join(PAIR[kind]), ok, ok and aes[i] == "gzip", HEADERS["sse" if kind == "sse" else "vary"], False, "%s of %s" % (kind, case))
        x.outcome(case)

    x.explore(go, 1 if x.tier == "quick" else 2, cap=4000 if x.tier == "quick" else 40000)


# ---------------------------------------------------------------- failures

class Boom(Exception):
    pass


def fault_cases(tier):
    for kind in PAIR:
        for ae in ("gzip", None):
            yield (kind, ae)


@C.family("faults", fault_cases, "the application fails before each message, the transport at each send: the exception arrives, what was sent is the beginning of a response; the next response is whole")
def faults(case, x):
    kind, ae = case
    hs = HEADERS["sse" if kind == "sse" else "plain"]
    msgs, body = build(PAIR[kind], hs, False, 0)

    async def main():
        for how in ("app", "transport"):
            for at in range(len(msgs) + (how == "app")):
                async def app(scope, receive, send):
                    if scope["path"] == "/fine":
                        for m in msgs:
                            await send(m)
                        return
                    for i, m in enumerate(msgs):
                        if how == "app" and i == at:
                            raise Boom
                        await send(m)
                    if how == "app" and at == len(msgs):
                        raise Boom

                mw = GZipMiddleware(app)
                srv = asgi.Server(fail_at=at if how == "transport" else None)
                try:
                    await mw(asgi.scope("/", headers=[(b"accept-encoding", ae.encode())] if ae else []), srv.receive, srv.send)
                    x.fail("no exception for %s at %d" % (how, at))
                except (Boom, asgi.TransportError) as e:
                    x.check(isinstance(e, Boom) == (how == "app"), "raised %r" % e)
                r = asgi.judge(srv.sent, need_complete=False, allow_empty=True)
                if how == "app":
                    x.check((r is None) == (at < 2), "failing at %d sent %s" % (at, short(srv.sent)))
                    if at == len(msgs):
                        x.check(decode(r)[0] == body, "sent %s" % short(r))
                if r is not None:
                    x.check(r.status == 200, "status")
                ok = kind not in ("small", "sse")
                verdict(await exchange(mw, ae, path="/fine"), body, ok, ok and ae == "gzip", hs, False, "after a failure")
                x.step()

    asgi.result(rt.run(main))
    x.outcome(case)


# ---------------------------------------------------------------- with the rest of the library

def library_cases(tier):
    for minimum in (1, 40, 500, 1000):
        for ae in AE:
            yield (minimum, ae)


@C.family("library", library_cases, "every response class, files, static files, HEAD and range requests, path-sending, trailers and pushes, errors, behind the middleware in an application: the client decodes what it gets without it")
def library(case, x):
    minimum, ae = case
    scratch = tempfile.mkdtemp()
    try:
        for name, n in (("a.txt", 39), ("b.bin", 1000), ("c.txt", 70000)):
            with open(os.path.join(scratch, name), "wb") as f:
                f.write(data(n))

        def routes():
            async def gen(*chunks):
                for c in chunks:
                    yield c

            ends = {
                "/p": lambda r: PlainTextResponse("x" * 500), "/p2": lambda r: PlainTextResponse("x" * 39), "/j": lambda r: JSONResponse(list(range(300))),
                "/e": lambda r: Response(status_code=204), "/n": lambda r: Response(status_code=304, headers={"etag": '"q"'}), "/s": lambda r: StreamingResponse(gen(b"ab", b"cd")), "/s1": lambda r: StreamingResponse(gen("x")), "/s0": lambda r: StreamingResponse(gen()),
                "/sse": lambda r: StreamingResponse(gen("data: a\n\n"), media_type="text/event-stream"), "/f": lambda r: FileResponse(os.path.join(scratch, "b.bin")), "/f2": lambda r: FileResponse(os.path.join(scratch, "c.txt")),
                "/br": lambda r: Response(b"z" * 900, headers={"content-encoding": "br"}), "/c": lambda r: Response(b"y" * 2000, headers={"set-cookie": "a=b"}),
            }

            def fail(r):
                raise RuntimeError

            out = [Route(p, (lambda f: lambda r: f(r))(f)) for p, f in ends.items()] + [Route("/boom", fail), Mount("/static", StaticFiles(directory=scratch))]
            return list(ends) + ["/missing", "/static/a.txt", "/static/b.bin", "/static/c.txt", "/static/none", "/static"], out

        paths, rs = routes()
        plain = Starlette(routes=rs)
        zipped = Starlette(routes=rs, middleware=[Middleware(GZipMiddleware, minimum_size=minimum)])

        async def get(app, path, method, headers, ext):
            srv = asgi.Server()
            hs = list(headers) + ([(b"accept-encoding", ae.encode())] if ae is not None else [])
            await app(asgi.scope(path, method, headers=hs, extensions=ext), srv.receive, srv.send)
            return asgi.judge(srv.sent)

        async def main():
            for path in paths:
                for method in ("GET", "HEAD", "POST"):
                    for headers in ((), ((b"range", b"bytes=10-700"),), ((b"range", b"bytes=0-4"),)):
                        for ext in (None, {"http.response.pathsend": {}}):
                            if headers and "f" not in path and "static" not in path:
                                continue
                            a = await get(plain, path, method, headers, ext)
                            b = await get(zipped, path, method, headers, ext)
                            what = "%s %s %s %s" % (method, path, headers, ext)
                            got, gz = decode(b)
                            x.check(b.status == a.status and got == a.body and len(a.other) == len(b.other), "%s: %s, expected %s" % (what, short(b), short(a)))
                            x.check([dict(m) for m in a.other] == [dict(m) for m in b.other], "%s: messages %s" % (what, short(b.other)))
                            ct = (a.get("content-type") or b"").decode()
                            ok = (len(a.chunks) > 1 or len(a.body) >= minimum) and not a.all("content-encoding") and not ct.startswith("text/event-stream") and not a.other
                            x.check(gz is (ok and accepts(ae)), "%s: compressed is %s" % (what, gz), short(b))
                            vary = [t.strip() for v in b.all("vary") for t in v.split(b",")]
                            x.check((b"Accept-Encoding" in vary) is ok, "%s: vary %s" % (what, vary))
                            strip = (b"vary", b"content-length", b"content-encoding") if gz else (b"vary",)
                            x.check([p for p in a.headers if p[0] not in strip] == [p for p in b.headers if p[0] not in strip], "%s: headers %s, expected %s" % (what, b.headers, a.headers))
                            x.step()

            async def extra(scope, receive, send):
                await send({"type": "http.response.push", "path": "/x", "headers": []})
                await send({"type": "http.response.debug", "info": {}})
                await send({"type": "http.response.start", "status": 200, "headers": [], "trailers": True})
                await send({"type": "http.response.body", "body": data(600)})
                await send({"type": "http.response.trailers", "headers": [(b"a", b"b")], "more_trailers": False})

            srv = asgi.Server()
            await GZipMiddleware(extra, minimum_size=minimum)(asgi.scope("/", headers=[(b"accept-encoding", ae.encode())] if ae is not None else []), srv.receive, srv.send)
            x.eq([m["type"].split(".")[-1] for m in srv.sent], ["push", "debug", "start", "body", "trailers"], "messages")
            x.check(srv.sent[2].get("trailers") is True and srv.sent[4]["headers"] == [(b"a", b"b")], "messages %s" % short(srv.sent))
            r = asgi.judge([m for m in srv.sent if "trailers" not in m["type"]])
            x.check(decode(r)[0] == data(600), "decoded %s" % short(r))
            # a server that sends a file by its path: there is nothing to compress, whatever the headers
            for h in (h for h in HEADERS.values() if h is not None):
                for before in ((), ({"type": "http.response.push", "path": "/x", "headers": []},)):
                    sent_ = [*before, {"type": "http.response.start", "status": 200, "headers": [(k.encode(), v.encode()) for k, v in h] + [(b"content-length", b"70000")]}, {"type": "http.response.pathsend", "path": os.path.join(scratch, "c.txt")}]

                    async def by_path(scope, receive, send):
                        for m in sent_:
                            await send(dict(m))

                    srv = asgi.Server()
                    await GZipMiddleware(by_path, minimum_size=minimum)(asgi.scope("/", headers=[(b"accept-encoding", ae.encode())] if ae is not None else [], extensions={"http.response.pathsend": {}}), srv.receive, srv.send)
                    x.eq([dict(m) for m in srv.sent], sent_, "a file sent by its path, headers %s" % (h,))
                    x.step()
            for typ in ("websocket", "lifespan"):
                given = []

                async def seen(scope, receive, send):
                    given.append((scope, receive, send))

                sc, a, b = asgi.scope("/", type=typ, headers=[(b"accept-encoding", b"gzip")]), object(), object()
                await GZipMiddleware(seen)(sc, a, b)
                x.check(given == [(sc, a, b)] and given[0][0] is sc, "%s was changed" % typ)

        with rt.vthreads("inline"):
            asgi.result(rt.run(main))
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)
    x.outcome(case)
