"""C37 WSGI applications are bridged faithfully."""
from __future__ import annotations

import itertools
import sys
import warnings

from mc import asgi, rt
from mc.core import Check, Violation, short

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect
from starlette.routing import Mount, Route, Router

C = Check("C37", [
    "applications follow PEP 3333: start_response is called before the first chunk, statuses have a reason phrase, a second start_response has exc_info; "
    "write() is not used",
    "the worker thread is a real thread in lockstep: it runs atomically between its calls into the event loop",
    "chunks still on their way when the application fails may be lost; whether a failed response is completed after exc_info is not specified",
    "SERVER_PORT may be an int (as the existing tests require); server root paths do not end with a slash",
])


class Boom(Exception):
    pass


# ---------------------------------------------------------------- environ


def ref_environ(sc):
    """PEP 3333 environ of an ASGI scope, from the two specifications."""
    def tunnel(s):
        return s.encode("utf-8").decode("latin-1")

    path, root = sc["path"], sc.get("root_path", "")
    rest = path
    if root:
        if path == root:
            rest = ""
        elif path.startswith(root + "/"):
            rest = path[len(root):]
    env = {
        "REQUEST_METHOD": sc["method"],
        "SCRIPT_NAME": tunnel(root),
        "PATH_INFO": tunnel(rest),
        "QUERY_STRING": sc["query_string"].decode("latin-1"),
        "SERVER_PROTOCOL": "HTTP/" + sc["http_version"],
        "wsgi.url_scheme": sc.get("scheme", "http"),
    }
    server = sc.get("server") or ("localhost", 80)
    env["SERVER_NAME"], env["SERVER_PORT"] = server[0], str(server[1])
    if sc.get("client"):
        env["REMOTE_ADDR"] = sc["client"][0]
    for k, v in sc["headers"]:
        name = k.decode("latin-1").upper().replace("-", "_")
        if name not in ("CONTENT_LENGTH", "CONTENT_TYPE"):
            name = "HTTP_" + name
        v = v.decode("latin-1")
        env[name] = env[name] + "," + v if name in env else v
    return env


def check_environ(x, environ, want, body, what):
    x.check(type(environ) is dict, "environ is not a dict", what)
    got = dict(environ)
    inp, err = got.pop("wsgi.input"), got.pop("wsgi.errors")
    x.eq(got.pop("wsgi.version"), (1, 0), "wsgi.version")
    x.check(got.pop("wsgi.multithread"), "wsgi.multithread is false although applications run in worker threads", what)
    got.pop("wsgi.multiprocess")
    x.check(not got.pop("wsgi.run_once"), "wsgi.run_once", what)
    x.check(callable(err.write) and callable(err.flush), "wsgi.errors", what)
    got["SERVER_PORT"] = str(got.get("SERVER_PORT"))
    x.eq(got, want, "environ of %s" % (what,))
    for k, v in got.items():
        x.check(type(k) is str and type(v) is str, "environ value is not a str", k, v)
    # the input as PEP 3333 has it
    x.eq((inp.read(1), inp.readline(), inp.read(), inp.read(1)),
         (body[:1], body[1:].split(b"\n", 1)[0] + (b"\n" if b"\n" in body[1:] else b""), body[1:].split(b"\n", 1)[1] if b"\n" in body[1:] else b"", b""), "wsgi.input")


PATHS = ["/", "/a", "/app", "/app/", "/apple", "/app/app", "/app/x y", "/\u00e9/\u20ac", "/%2F", "/app/\u00e9", "", "/a//b", "/app//", "/\u00e9"]
ROOTS = ["", "/app", "/a", "/\u00e9", "/app/app", "/x"]
QUERIES = [b"", b"a=1&b=%20", b"q=\xc3\xa9\xff", b"?x=/y", b"a=1,2;b"]
HEADERS = [
    [],
    [(b"content-type", b"text/plain"), (b"content-length", b"3")],
    [(b"x-a", b"1"), (b"x-b", b"2"), (b"x-a", b"3")],
    [(b"x-a", b""), (b"x-a", b""), (b"x-a", b"0")],
    [(b"x-bin", b"\xe9\xff"), (b"cookie", b"a=1; b=2")],
    [(b"content-md5", b"1"), (b"content-type", b"a/b"), (b"content-type", b"c/d")],
    [(b"content-length", b"2"), (b"content-length", b"2")],
    [(b"x-forwarded-for-all", b"1,2"), (b"x-forwarded-for-all", b"3"), (b"authorization", b"Basic eDp5")],
    [(b"remote-addr", b"evil"), (b"script-name", b"evil"), (b"request-method", b"EVIL"), (b"path-info", b"x"), (b"server-name", b"y")],
    [(b"transfer-encoding", b"chunked"), (b"accept", b"*/*"), (b"accept", b"a/b"), (b"accept", b"*/*")],
]
CONNS = [
    {},
    {"server": None, "client": None},
    {"server": ("h", 8000), "client": ("::1", 1), "scheme": "https"},
    {"server": ("::1", 443), "scheme": "https", "http_version": "2"},
    {"http_version": "1.0", "client": ("1.2.3.4", 0)},
]
METHODS = ["GET", "HEAD", "POST", "PUT", "get", "PROPFIND"]


def environ_cases(tier):
    for path in PATHS:
        for root in ROOTS:
            yield ("path", path, root)
    for hi in range(len(HEADERS)):
        yield ("headers", hi)
    for m in METHODS:
        yield ("method", m)


def run_environ(x, sc, chunks, what, backend="asyncio", omit=False):
    seen = []
    body = b"".join(chunks)
    want = ref_environ(sc)

    def app(environ, start_response):
        check_environ(x, environ, want, body, what)
        seen.append(rt.VT.in_worker)
        environ["x.mine"] = 1
        start_response("200 OK", [])
        return [b"ok"]

    ms = asgi.body_messages(chunks)
    if omit:
        for m in ms:
            if not m["body"]:
                del m["body"]
            if not m["more_body"]:
                del m["more_body"]
    srv = asgi.Server(ms)
    before = repr(sc)

    async def main():
        await WSGIMiddleware(app)(sc, srv.receive, srv.send)

    with rt.vthreads("baton"):
        out = rt.run(main, rt.Env(None), backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.eq(seen, [1], "the application ran %s times in a worker" % (seen,))
    x.eq(repr(sc), before, "the scope was modified")
    r = asgi.judge(srv.sent)
    x.eq((r.status, r.body), (200, b"ok"), "response")
    x.step(len(srv.sent) + srv.receives)
    x.outcome((what, len(chunks)))


@C.family("environ", environ_cases, "paths x root paths, headers x connections, methods x queries: the environ is that of the request")
def _(case, x):
    if case[0] == "path":
        for q, (ci, conn) in itertools.product(QUERIES[:3], enumerate(CONNS)):
            sc = asgi.scope(case[1], root_path=case[2], query=q, **{**conn})
            run_environ(x, sc, [b""], (case, q, ci))
            if not case[2]:
                sc = asgi.scope(case[1], query=q, **{**conn})
                del sc["root_path"]  # optional in ASGI
                run_environ(x, sc, [b""], (case, q, ci, "no root path"))
    elif case[0] == "headers":
        for q, host, (ci, conn) in itertools.product(QUERIES, (None, b"example.org:80"), enumerate(CONNS)):
            sc = asgi.scope("/p", headers=HEADERS[case[1]], query=q, host=host, **{**conn})
            run_environ(x, sc, [b"abc"], (case, q, host, ci))
        for other in HEADERS:
            run_environ(x, asgi.scope("/p", headers=HEADERS[case[1]] + other), [b""], (case, other))
    else:
        for q, root, backend in itertools.product(QUERIES, ("", "/p"), ("asyncio", "trio")):
            run_environ(x, asgi.scope("/p/q", method=case[1], root_path=root, query=q), [b"a", b"b"], (case, q, root), backend)


BODIES = [b"", b"a", b"abc", b"a\nb\n", b"\x00\xff\r\n", b"\n\nxy"]


def body_cases(tier):
    for i in range(len(BODIES)):
        for backend in ("asyncio", "trio"):
            yield i, backend


@C.family("bodies", body_cases, "request bodies x every split into up to 3 messages (thorough 4), empty ones included, keys omitted, or byte by byte; disconnect before every message")
def _(case, x):
    i, backend = case
    body = BODIES[i]
    lists = [list(c) for c in asgi.chunkings(body, 3 if x.tier == "quick" else 4)] + [[body[j:j + 1] for j in range(len(body))]]
    lists += [[b""] + c + [b""] for c in lists[:4]]
    for chunks in lists:
        for omit in (False, True):
            run_environ(x, asgi.scope("/", method="POST"), chunks, (case, tuple(chunks), omit), backend, omit)
        for dc in range(len(chunks)):
            ran = []

            def app(environ, start_response):
                ran.append(environ["wsgi.input"].read())
                start_response("200 OK", [])
                return [b"x"]

            srv = asgi.Server(asgi.body_messages(chunks)[:dc] + [{"type": "http.disconnect"}])

            async def main():
                await WSGIMiddleware(app)(asgi.scope("/", method="POST"), srv.receive, srv.send)

            with rt.vthreads("baton"):
                out = rt.run(main, rt.Env(None), backend)
            asgi.settled(out)
            x.check(not ran, "the application got a truncated body", ran, chunks, dc)
            x.check(isinstance(out.exc, (ClientDisconnect, type(None))), "unexpected %r" % (out.exc,))
            x.outcome((case, tuple(chunks), dc))


# --------------------------------------------------------------- responses


class Script:
    """A WSGI application following a script; records what happens to it."""

    def __init__(self, kind, start, chunks, fail=None, exc_info=None, status="200 OK", headers=None, close_fail=False, on=None):
        self.kind, self.start, self.chunks, self.fail, self.exc_info = kind, start, chunks, fail, exc_info
        self.status, self.headers = status, headers if headers is not None else [("Content-Type", "text/plain"), ("X-A", "1"), ("x-a", "2")]
        self.close_fail = close_fail
        self.log = []
        self.exc = None
        self.raised = None
        self.seen = []

    def here(self, what):
        self.log.append((what, rt.VT.in_worker))

    def boom(self):
        self.raised = Boom(self.fail)
        raise self.raised

    def begin(self, sr):
        if self.fail == "before":
            self.boom()
        if self.exc_info == "first":
            try:
                raise KeyError("k")
            except KeyError as exc:
                self.exc = exc
                sr("500 Oops", [("X-Err", "1")], sys.exc_info())
        else:
            sr(self.status, list(self.headers))
        if self.fail == "after":
            self.boom()

    def recall(self, sr):
        try:
            raise KeyError("k")
        except KeyError as exc:
            self.exc = exc
            sr("500 Oops", [("X-Err", "1")], sys.exc_info())

    def __call__(self, environ, start_response):
        self.here("call")
        self.seen.append(environ)
        if self.kind == "generator":
            return self.gen(start_response)
        it = It(self, start_response)
        if self.start == "eager":
            self.begin(start_response)
            if self.exc_info == 0:
                self.recall(start_response)
                it.recalled = True
            it.begun = True
        if self.kind == "list":
            if self.fail == 0:
                self.boom()
            return list(self.chunks)
        if self.kind == "tuple":
            return tuple(self.chunks)
        if self.kind == "iterator":
            return it
        return Iterable(it)

    def gen(self, sr):
        try:
            self.begin(sr)
            for i, c in enumerate(self.chunks):
                if self.exc_info == i:
                    self.recall(sr)
                if self.fail == i:
                    self.boom()
                self.here("next")
                yield c
            if self.exc_info == len(self.chunks):
                self.recall(sr)
            if self.fail == len(self.chunks):
                self.boom()
        finally:
            self.here("close")
            if self.close_fail:
                self.boom()


class It:
    def __init__(self, s, sr):
        self.s, self.sr, self.i, self.begun, self.recalled = s, sr, 0, False, False

    def __iter__(self):
        return self

    def __next__(self):
        s = self.s
        if not self.begun:
            self.begun = True
            s.begin(self.sr)
        if s.exc_info == self.i and not self.recalled:
            self.recalled = True
            s.recall(self.sr)
        if s.fail == self.i:
            s.boom()
        if self.i >= len(s.chunks):
            raise StopIteration
        s.here("next")
        self.i += 1
        return s.chunks[self.i - 1]

    def close(self):
        self.s.here("close")
        if self.s.close_fail:
            self.s.boom()


class Iterable:
    def __init__(self, it):
        self.it = it
        self.close = it.close

    def __iter__(self):
        return self.it


def norm(hs):
    return [(k.strip().lower().encode("latin-1"), v.strip().encode("latin-1")) for k, v in hs]


def judge_script(x, s, sent, exc, what, send_failed=False):
    r = asgi.judge(sent, need_complete=False, allow_empty=True, framing=False)
    complete = r is not None and r.complete
    chunks = [c for c in s.chunks if c]
    got = [m["body"] for m in sent[1:] if m.get("body")]
    want_exc = s.raised or s.exc
    failed = s.raised is not None
    if sent:
        first = s.exc_info == "first"
        x.eq((sent[0]["type"], sent[0]["status"]), ("http.response.start", 500 if first else int(s.status.split(" ")[0])), "start: %s" % (what,))
        x.eq([(bytes(k), bytes(v)) for k, v in sent[0]["headers"]], norm([("X-Err", "1")] if first else s.headers), "headers: %s" % (what,))
    x.check(got == chunks[: len(got)], "chunks out of order", got, chunks, what)
    if not failed and not send_failed:
        if s.exc is None:
            x.check(complete, "the response is not complete", sent, what)
        if complete:
            x.eq(got, chunks, "chunks: %s" % (what,))
    if failed and s.fail != "close":
        x.check(not complete, "a failed application's response looks complete", sent, what)
    if send_failed:
        x.check(exc is not None, "a failed send was not reported", what)
    elif want_exc is None:
        x.check(exc is None, "unexpected %r" % (exc,), what)
    else:
        x.check(exc is want_exc, "the application's exception reached the server as %r" % (exc,), want_exc, what)
    calls = [e for e in s.log if e[0] == "call"]
    x.eq(len(calls), 1, "the application was called %d times" % len(calls))
    x.check(all(e[1] == 1 for e in s.log), "application code ran outside a worker thread", s.log, what)
    if s.kind in ("iterator", "iterable") and not (failed and s.fail in ("before", "after") and s.start == "eager"):
        closes = [i for i, e in enumerate(s.log) if e[0] == "close"]
        x.eq((len(closes), closes[-1:] == [len(s.log) - 1]), (1, True), "close() of the iterable: %s %s" % (s.log, what))


KINDS = [("list", "eager"), ("tuple", "eager"), ("generator", "late"), ("iterator", "eager"), ("iterator", "late"), ("iterable", "eager"), ("iterable", "late")]
CHUNKS = [b"", b"a", b"bc"]


def chunk_seqs(n):
    for k in range(n + 1):
        yield from itertools.product(CHUNKS, repeat=k)


def script_cases(tier):
    for kind, start in KINDS:
        for chunks in chunk_seqs(3):
            yield kind, start, chunks


def faults(kind, start, chunks):
    fs = [None, "before", "after"]
    if kind in ("generator", "iterator", "iterable"):
        fs += list(range(len(chunks) + 1))
    elif kind == "list":
        fs += [0]
    es = [None, "first"]
    if kind in ("generator", "iterator", "iterable"):
        es += list(range(len(chunks) + 1))
    for f in fs:
        for e in es:
            if f == "before" and e is not None or (f == "after" and e not in (None, "first")):
                continue
            if isinstance(f, int) and isinstance(e, int) and e >= f:
                continue
            yield f, e, False
    if kind in ("iterator", "iterable"):
        yield "close", None, True


@C.family("scripts", script_cases, "iterable kinds x eager/late start_response x every list of 0-3 chunks (empty, 1, 2 bytes) x failure at every position x exc_info at every position x failing close, both back ends")
def _(case, x):
    kind, start, chunks = case
    for (f, e, cf), backend in itertools.product(faults(kind, start, chunks), ("asyncio", "trio")):
        s = Script(kind, start, chunks, f, e, close_fail=cf)
        srv = asgi.Server()

        async def main():
            await WSGIMiddleware(s)(asgi.scope("/"), srv.receive, srv.send)

        with rt.vthreads("baton"):
            out = rt.run(main, rt.Env(None), backend)
        asgi.settled(out)
        judge_script(x, s, srv.sent, out.exc, (case, f, e, backend))
        x.step(len(s.log) + len(srv.sent))
        x.outcome((case, f, e, len(srv.sent)))


STATUS = ["200 OK", "204 No Content", "404 Not Found", "418 I'm a teapot", "500 Internal Server Error", "599 X  Y", "103 Early", "200 "]
RHEADERS = [
    [], [("X-A", "")], [("X-A", "1"), ("X-A", "1")], [("Set-Cookie", "a=1; path=/"), ("Set-Cookie", "b=2"), ("x-b", "\xe9\xff")],
    [("CONTENT-LENGTH", "1"), ("Content-Type", "a/b; charset=x")], [("X-A", " padded "), ("x-a", "a,b"), ("X-B", "c"), ("x-A", "d")],
]


def head_cases(tier):
    yield from range(len(STATUS))


@C.family("heads", head_cases, "status lines x header lists (repeats, case, latin-1, empty values) x kinds")
def _(i, x):
    for hs, (kind, start), as_tuples in itertools.product(RHEADERS, KINDS, (True, False)):
        s = Script(kind, start, [b"a"], status=STATUS[i], headers=hs)
        app = s
        if not as_tuples:  # the application may change its list after the call
            def app(environ, start_response, s=s):
                def sr(status, headers, exc_info=None):
                    w = start_response(status, headers, exc_info) if exc_info else start_response(status, headers)
                    headers.append(("X-Late", "1"))
                    return w
                return s(environ, sr)
        srv = asgi.Server()

        async def main():
            await WSGIMiddleware(app)(asgi.scope("/"), srv.receive, srv.send)

        with rt.vthreads("baton"):
            out = rt.run(main, rt.Env(None))
        asgi.settled(out)
        judge_script(x, s, srv.sent, out.exc, (STATUS[i], hs, kind))
        x.outcome((STATUS[i], tuple(hs), kind, start))


# --------------------------------------------------------------- schedules


def sched_cases(tier):
    for kind, start in KINDS:
        for chunks in ((), (b"a",), (b"a", b"bc"), (b"a", b"", b"bc")):
            for f, e, cf in faults(kind, start, chunks):
                for backend in ("asyncio", "trio"):
                    if tier == "quick" and (kind in ("tuple", "iterable") or (backend == "trio" and len(chunks) > 2)):
                        continue
                    yield kind, start, chunks, f, e, cf, backend


@C.family("schedules", sched_cases, "the same under every order of the worker thread's steps, receive() and send(), with early events; and send() failing at every position")
def _(case, x):
    kind, start, chunks, f, e, cf, backend = case
    fails = [None] + ([0, 1, 2] if f is None else [])

    for fail_at in fails:
        def one(ch):
            env = rt.Env(ch)
            s = Script(kind, start, chunks, f, e, close_fail=cf)
            srv = asgi.Server(asgi.body_messages([b"x", b"y"]), env=env, gate="rs", fail_at=fail_at)

            async def main():
                with rt.vthreads("baton"):
                    await WSGIMiddleware(s)(asgi.scope("/", method="POST"), srv.receive, srv.send)

            out = rt.run(main, env, backend)
            asgi.settled(out)
            x.check(not [a for a in env.actions.values() if a[0].startswith("thread:")], "the worker thread was left behind", case)
            x.eq([v["wsgi.input"].getvalue() if hasattr(v["wsgi.input"], "getvalue") else v["wsgi.input"].read() for v in s.seen], [b"xy"], "body")
            judge_script(x, s, srv.sent, out.exc, (case, fail_at, env.fired), send_failed=srv.sends > (99 if fail_at is None else fail_at))
            x.outcome((case, fail_at, tuple(env.fired), len(srv.sent)))
            for i in range(len(env.fired)):
                x.state((kind, start, f, e, tuple(env.fired[:i])))

        b = (1 if len(chunks) < 3 and fail_at is None else 0) + (x.tier != "quick")
        x.explore(one, b, cap=30000)


def two_cases(tier):
    scripts = [("list", "eager"), ("generator", "late"), ("iterator", "late")]
    for a in scripts:
        for b in scripts:
            for fa in (None, "before", "after", 1):
                for backend in ("asyncio", "trio"):
                    if fa == 1 and a[0] == "list":
                        continue
                    yield a, b, fa, backend


@C.family("two", two_cases, "two requests at once through one middleware, one possibly failing: each sees its own environ and gets its own response, whatever the order")
def _(case, x):
    a, b, fa, backend = case
    n = 1 if x.tier == "quick" or backend == "trio" else 2

    def one(ch):
        env = rt.Env(ch, early=None)
        ss = {b"/a": Script(*a, (b"A1", b"A2")[:n], fa, headers=[("X-Me", "a")]), b"/b": Script(*b, (b"B1",) * n, None, headers=[("X-Me", "b")], status="201 B")}

        def app(environ, sr):
            return ss[environ["PATH_INFO"].encode()](environ, sr)

        mw = WSGIMiddleware(app)
        srvs, excs = {}, {}

        async def req(p):
            srvs[p] = srv = asgi.Server(asgi.body_messages([b"body of " + p]), env=env, gate="" if x.tier == "quick" else "s", name=p.decode())
            try:
                await mw(asgi.scope(p.decode(), method="POST", headers=[(b"x-p", p)]), srv.receive, srv.send)
                excs[p] = None
            except Exception as exc:
                excs[p] = exc

        async def main():
            import anyio

            with rt.vthreads("baton"):
                async with anyio.create_task_group() as tg:
                    for p in ss:
                        tg.start_soon(req, p)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        for p, s in ss.items():
            x.eq(len(s.seen), 1, "requests seen by %s" % p)
            e = s.seen[0]
            x.eq((e["HTTP_X_P"], e["wsgi.input"].read()), (p.decode(), b"body of " + p), "environ of %s" % p)
            judge_script(x, s, srvs[p].sent, excs[p], (case, p, env.fired))
        x.outcome((case, tuple(env.fired)))

    x.explore(one, 0, cap=20000 if x.tier == "quick" else 200000)


# ---------------------------------------------------------- in applications


def app_cases(tier):
    for root in ("", "/r", "/w"):
        for mount in ("/w", "", "/w/{n:int}", "/\u00e9"):
            for rest in ("", "/", "/x", "/x/y", "/w", "/\u00e9"):
                for wrap in ("router", "app", "base"):
                    yield root, mount, rest, wrap


@C.family("mounted", app_cases, "mounted in routers and applications under root paths, alone and behind BaseHTTPMiddleware: script name and path are split at the mount")
def _(case, x):
    root, mount, rest, wrap = case
    prefix = mount.replace("{n:int}", "07")
    path = root + prefix + rest
    if not path:
        return
    for f, kind in itertools.product((None, "before", "after", 1), (("list", "eager"), ("generator", "late"))):
        if f == 1 and kind[0] == "list":
            continue
        s = Script(*kind, (b"a", b"b"), f)
        routes = [Mount(mount, WSGIMiddleware(s))]
        app = {"router": lambda: Router(routes), "app": lambda: Starlette(routes=routes),
               "base": lambda: Starlette(routes=routes, middleware=[Middleware(BaseHTTPMiddleware, dispatch=pass_dispatch)])}[wrap]()
        srv = asgi.Server(asgi.body_messages([b"12", b"3"]))

        async def main():
            await app(asgi.scope(path, root_path=root, method="POST"), srv.receive, srv.send)

        with rt.vthreads("baton"):
            out = rt.run(main, rt.Env(None))
        asgi.settled(out)
        if not s.seen:
            # redirected to the slash URL
            x.check(rest == "", "not dispatched", case, srv.sent)
            x.eq(srv.sent[0]["status"], 307, "status")
            continue
        e = s.seen[0]
        x.eq((e["SCRIPT_NAME"], e["PATH_INFO"], e["wsgi.input"].read()),
             ((root + prefix).encode().decode("latin-1"), rest.encode().decode("latin-1"), b"123"), "environ in %s" % (case,))
        if f is None or wrap == "router":
            judge_script(x, s, srv.sent, out.exc, (case, f))
        else:
            x.check(out.exc is s.raised, "the application's exception reached the server as %r" % (out.exc,), case)
            r = asgi.judge(srv.sent, need_complete=False, allow_empty=True, framing=False)
            x.check(r.status in (200, 500), "status", srv.sent)
        x.outcome((case, f, kind))


async def pass_dispatch(request, call_next):
    return await call_next(request)
