"""C33 The test client shows exactly what the application did."""
from __future__ import annotations

import contextlib
import functools
import itertools
import json
import threading

import anyio
import httpx

from mc import core
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, Response
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.testclient import TestClient, WebSocketDenialResponse
from starlette.websockets import WebSocketDisconnect

C = Check("C33", [
    "the client runs on real event loops in their own threads; websocket sessions are interleaved at message granularity",
    "websocket frames sent before an application's exception may be lost; what an application does after the session was left is not constrained",
    "an application waits for http.disconnect only after completing its response; a lifespan application answers startup",
    "URL normalisation and header decoding are httpx's",
])


def setup():
    core.WATCHDOG_S = 25.0


def teardown():
    core.WATCHDOG_S = 60.0


@contextlib.contextmanager
def entered(client):
    with client:
        yield client


async def no_lifespan(receive, send):
    await receive()
    await send({"type": "lifespan.startup.complete"})
    await receive()
    await send({"type": "lifespan.shutdown.complete"})


def with_lifespan(app):
    async def wrapped(scope, receive, send):
        if scope["type"] == "lifespan":
            await no_lifespan(receive, send)
        else:
            await app(scope, receive, send)

    return wrapped


# -------------------------------------------------------------------- requests

class Echo:
    def __init__(self):
        self.scope = None
        self.messages = []

    async def __call__(self, scope, receive, send):
        if scope["type"] == "lifespan":
            await no_lifespan(receive, send)
            return
        self.scope = scope
        self.messages = [await receive()]
        while self.messages[-1].get("more_body"):
            self.messages.append(await receive())
        await send({"type": "http.response.start", "status": 200})
        await send({"type": "http.response.body", "body": b"ok"})


PIECES = ["a", "%25", "%41", "/", "%2F", "%20", "\u00e9", "+", "%3F", ";", "%E2%82%AC", "~", "%2541", "@", ":", "%FF"]


def percent_decode(raw):
    out, i = bytearray(), 0
    while i < len(raw):
        if raw[i:i + 1] == b"%" and i + 2 < len(raw) + 0 and all(c in b"0123456789abcdefABCDEF" for c in raw[i + 1:i + 3]) and len(raw[i + 1:i + 3]) == 2:
            out.append(int(raw[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(raw[i])
            i += 1
    return bytes(out).decode("utf-8", "replace")


def encode_path(path):
    return "".join(c if ord(c) < 128 else "".join("%%%02X" % b for b in c.encode()) for c in path).encode()


QUERIES = [None, "", "a=1", "a=1&a=2", "q=%26%3D", "a+b", "x=%E2%82%AC", "=", "?", "a=%25"]
TOKENS = ["a", "=", "&", "+", "%20", "%2B", "%26", "%2f", "%C3%A9", ";", "/", "?", "@", "%00", "~"]
QUERIES += ["".join(t) for n in (1, 2, 3) for t in itertools.product(TOKENS, repeat=n)]


def path_cases(tier):
    for p in PIECES:
        yield {"first": p}
    for i in range(16):
        yield {"query": i}


@C.family("path", path_cases, "every path over the encoding alphabet, every query: the scope carries them once decoded and raw, http and websocket")
def _(case, x):
    app = Echo()
    with TestClient(app) as client:
        if "first" in case:
            depth = 4 if x.tier == "thorough" else 3
            todo = [("/p" + case["first"] + "".join(r), None) for n in range(depth) for r in itertools.product(PIECES, repeat=n)]
        else:
            todo = [("/p" + p, q) for q in QUERIES[case["query"]::16] for p in ("", "/", "%3Fx", "a%25")[:4 if q in QUERIES[:10] else 1]]
        for path, query in todo:
            x.step()
            url = path if query is None else path + "?" + query
            client.get(url)
            raw = encode_path(path)
            sc = app.scope
            x.eq((sc["raw_path"], sc["path"], sc["query_string"]), (raw, percent_decode(raw), (query or "").encode()), "GET %s" % url)
            if len(path) < 10 and query is None or query is not None and (len(query) < 6 or query in QUERIES[:10]):
                seen = ws_scope(client, url)
                x.eq((seen["raw_path"], seen["path"], seen["query_string"]), (raw, percent_decode(raw), (query or "").encode()), "websocket %s" % url)
        x.outcome((case.get("first"), len(todo)))


def ws_scope(client, url, **kw):
    session = client.websocket_connect(url, **kw)
    return session.scope


METHODS = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CUSTOM", "M-SEARCH"]
HEADERS = [[], [("x-a", "1")], [("X-Upper", "V")], [("x-a", "1"), ("x-a", "2")], [(b"x-b", b"\xe9\xff")], [("user-agent", "me")], [("User-Agent", "me")],
           [("host", "other.example")], [("cookie", "a=1; b=2")], [("x-e", "")], [(b"x-u", "\u20ac".encode())], [("accept", "text/html"), ("x-a", "a, b")]]
BODIES = [("none", {}), ("content", {"content": b"\x00bytes\xff"}), ("text", {"content": "t\u00e9xt"}), ("json", {"json": {"a": [1, "\u00e9"]}}), ("form", {"data": {"a": "1 2", "b": ["x", "y"]}}),
          ("empty", {"content": b""}), ("iter", {"content": "ITER"}), ("big", {"content": b"x" * 70000}), ("files", {"files": {"f": ("n.txt", b"data")}})]


def request_cases(tier):
    for m in METHODS:
        for b in ("asyncio", "trio"):
            yield {"method": m, "backend": b}


@C.family("requests", request_cases, "methods x header lists x bodies x client settings: the scope and body the application receives are the ones requested")
def _(case, x):
    method = case["method"]
    for base, root, peer, default in (("http://testserver", "", ("testclient", 50000), None), ("https://h.example:8443", "/root", ("1.2.3.4", 5), {"x-d": "d"}),
                                      ("http://[::1]:9000", "", ("::1", 0), {"User-Agent": "dflt"})):
        app = Echo()
        kw = {} if default is None else {"headers": dict(default)}
        client = TestClient(app, base_url=base, root_path=root, client=peer, backend=case["backend"], **kw)
        with client:
            for hs in HEADERS:
                for bname, body in BODIES:
                    if bname == "none" or hs in HEADERS[:2]:
                        x.step()
                        b = {k: iter([b"on", b"", b"e"]) if v == "ITER" else v for k, v in body.items()}
                        client.request(method, "/p?q=1", headers=list(hs), **b)
                        check_request(x, app, method, base, root, peer, default, hs, bname, "%s %s %s %s" % (method, base, hs, bname))
        x.eq(default, None if default is None else dict(default), "default headers")
        if default is not None:
            given = dict(default)
            TestClient(app, headers=given)
            x.eq(given, default, "the headers given were modified")
        x.outcome((method, base))


def check_request(x, app, method, base, root, peer, default, hs, bname, msg):
    sc = app.scope
    scheme, _, netloc = base.partition("://")
    host, port = {"testserver": ("testserver", 80), "h.example:8443": ("h.example", 8443), "[::1]:9000": ("::1", 9000)}[netloc]
    x.eq((sc["type"], sc["method"], sc["scheme"], sc["root_path"], sc["path"], sc["query_string"]), ("http", method, scheme, root, "/p", b"q=1"), msg)
    x.eq((list(sc["server"]), tuple(sc["client"])), ([host, port], peer), msg + ": addresses")
    got = [(bytes(k), bytes(v)) for k, v in sc["headers"]]
    x.check(all(k == k.lower() for k, v in got), msg + ": header names", got)
    for k in {(k if isinstance(k, bytes) else k.encode()).lower() for k, v in hs}:
        want = [v if isinstance(v, bytes) else v.encode() for kk, v in hs if (kk if isinstance(kk, bytes) else kk.encode()).lower() == k]
        x.eq([v for kk, v in got if kk == k], want, msg + ": header %r" % k)
    names = {(k if isinstance(k, bytes) else k.encode()).lower() for k, v in hs}
    if b"host" not in names:
        x.eq([v for k, v in got if k == b"host"], [netloc.encode()], msg + ": host")
    if b"user-agent" not in names:
        want = b"testclient" if not default or "User-Agent" not in default else b"dflt"
        x.eq([v for k, v in got if k == b"user-agent"], [want], msg + ": user agent")
    if default and "x-d" in default:
        x.eq([v for k, v in got if k == b"x-d"], [b"d"], msg + ": default header")
    body = b"".join(m.get("body", b"") for m in app.messages)
    x.eq([m["type"] for m in app.messages], ["http.request"] * len(app.messages), msg + ": messages")
    want = {"none": b"", "content": b"\x00bytes\xff", "text": "t\u00e9xt".encode(), "empty": b"", "iter": b"one", "big": b"x" * 70000}.get(bname)
    if want is not None:
        x.eq(body, want, msg + ": body")
    elif bname == "json":
        x.eq(json.loads(body), {"a": [1, "\u00e9"]}, msg + ": body")
    elif bname == "form":
        x.eq(body, b"a=1+2&b=x&b=y", msg + ": body")
    else:
        x.check(b'name="f"; filename="n.txt"' in body and b"\r\n\r\ndata\r\n--" in body, msg + ": body", body)
    cl = [v for k, v in got if k == b"content-length"]
    if bname not in ("iter", "none", "empty"):
        x.eq(cl, [str(len(body)).encode()], msg + ": content-length")


# ---------------------------------------------------------- application scripts

class AppError(Exception):
    pass


class AppBase(BaseException):
    pass


STEPS = {
    "S": {"type": "http.response.start", "status": 201, "headers": [(b"x-a", b"1"), (b"x-b", b"\xe9"), (b"x-a", b"2"), (b"set-cookie", b"c=1"), (b"set-cookie", b"d=2")]},
    "s": {"type": "http.response.start", "status": 404},
    "m": {"type": "http.response.body", "body": b"ab", "more_body": True},
    "n": {"type": "http.response.body", "more_body": True},
    "f": {"type": "http.response.body", "body": b"\xffz"},
    "e": {"type": "http.response.body"},
    "R": None,
}


def script_cases(tier):
    depth = 5 if tier == "thorough" else 4
    for first in [""] + list(STEPS):
        for second in [""] + list(STEPS):
            if first or not second:
                yield {"start": first + second, "depth": depth}


@C.family("scripts", script_cases, "every application script over the message alphabet: the response, or the exception, the client gives")
def _(case, x):
    start, depth = case["start"], case["depth"]
    rest = [""] if len(start) < 2 else ["".join(p) for n in range(depth - 1) for p in itertools.product(STEPS, repeat=n)]
    backends = ("asyncio", "trio") if x.tier == "thorough" else ("asyncio",)
    state = {}

    async def app(scope, receive, send):
        log = state["log"] = []
        for c in state["script"]:
            if c == "R":
                log.append(await receive())
            else:
                await send(dict(STEPS[c]))
        if state["end"] is not None:
            raise state["end"]

    app = with_lifespan(app)
    for backend in backends:
        for raising in (True, False):
            with contextlib.ExitStack() as stack:
                client = stack.enter_context(TestClient(app, raise_server_exceptions=raising, backend=backend))
                for r in rest:
                    script = start + r
                    if not run_script_ok(script):
                        continue
                    for end in (None, AppError("boom")) if len(script) < depth or x.tier == "thorough" else (AppError("boom"),):
                        for method in ("GET", "HEAD") if len(script) < 4 else ("GET",):
                            x.step()
                            one_script(x, client, state, script, end, method, raising)
    x.outcome(start)


def run_script_ok(script):
    """An application does not wait for a disconnect before it finished."""
    done = False
    started = False
    got = False
    for c in script:
        if c in "Ss":
            if started:
                return True
            started = True
        elif c in "mnfe":
            if not started or done:
                return True
            done = c in "fe"
        else:
            if got and not done:
                return False
            got = True
    return True


def one_script(x, client, state, script, end, method, raising):
    status, headers, body, done, error, started = None, [], b"", False, False, False
    recv = []
    for c in script:
        if c in "Ss":
            if started:
                error = True
                break
            started = True
            status, headers = STEPS[c]["status"], STEPS[c].get("headers", [])
        elif c in "mnfe":
            if not started or done:
                error = True
                break
            body += STEPS[c].get("body", b"")
            done = c in "fe"
        else:
            recv.append("http.disconnect" if recv else "http.request")
    state["script"], state["end"] = script, end
    client.cookies.clear()
    msg = "%s script %r then %r (raising=%s)" % (method, script, end, raising)
    try:
        r = client.request(method, "/")
    except BaseException as exc:
        if isinstance(exc, core.Stuck):
            raise
        got = exc
        r = None
    else:
        got = None
    log = [m["type"] for m in state["log"]]
    x.eq(log, recv, msg + ": messages received")
    failed = error or end is not None
    if raising and failed:
        if error:
            x.check(got is not None, msg + ": a protocol error was not raised", r)
        else:
            x.check(got is end, msg + ": the application's exception was not raised", (got, r))
        return
    if raising and not started:
        x.check(got is not None, msg + ": no response and no exception", r)
        return
    if got is not None:
        x.fail("%s: raised %r" % (msg, got))
    if not started:
        x.eq((r.status_code, r.content), (500, b""), msg + ": response")
        return
    x.eq(r.status_code, status, msg + ": status")
    x.eq([(k.lower(), v) for k, v in r.headers.raw if k.lower() not in (b"content-length", b"transfer-encoding")], headers, msg + ": headers")
    x.eq(r.content, b"" if method == "HEAD" else body, msg + ": body")
    x.eq(sorted(client.cookies.items()), [("c", "1"), ("d", "2")] if headers else [], msg + ": cookies kept")


def oneshot_cases(tier):
    for b in ("asyncio", "trio"):
        for raising in (True, False):
            yield {"backend": b, "raising": raising}


@C.family("unentered", oneshot_cases, "scripts on a client that was not entered: each request on its own event loop, exceptions of every kind")
def _(case, x):
    state = {}

    async def app(scope, receive, send):
        state["types"].append(scope["type"])
        log = state["log"] = []
        for c in state["script"]:
            if c == "R":
                log.append(await receive())
            else:
                await send(dict(STEPS[c]))
        if state["end"] is not None:
            raise state["end"]

    client = TestClient(app, raise_server_exceptions=case["raising"], backend=case["backend"])
    for script in ["", "S", "Sf", "RSf", "Sme", "SmfR", "Sm", "SS", "f", "Sff", "sRmmf", "RsfRR"]:
        for end in (None, AppError("x"), KeyError("k"), ExceptionGroup("g", [AppError("in")]), OSError(5, "io"), StopAsyncIteration("stop")):
            x.step()
            state["types"] = []
            one_script(x, client, state, script, end, "GET", case["raising"])
            x.eq(state["types"], ["http"], "%r: calls" % script)
    x.outcome((case["backend"], case["raising"]))


# ------------------------------------------------------------------- websockets

OPENINGS = {
    "accept": [{"type": "websocket.accept"}],
    "accept-sub": [{"type": "websocket.accept", "subprotocol": "b", "headers": [(b"x-h", b"\xe9"), (b"x-h", b"2")]}],
    "close": [{"type": "websocket.close"}],
    "close-code": [{"type": "websocket.close", "code": 4001, "reason": "r\u00e9ason"}],
    "close-none": [{"type": "websocket.close", "code": 1008, "reason": None}],
    "denial": [{"type": "websocket.http.response.start", "status": 401, "headers": [(b"x-d", b"1"), (b"x-d", b"\xe9")]},
               {"type": "websocket.http.response.body", "body": b"no", "more_body": True}, {"type": "websocket.http.response.body", "body": b" way"}],
    "denial-bare": [{"type": "websocket.http.response.start", "status": 404}, {"type": "websocket.http.response.body"}],
    "denial-empty": [{"type": "websocket.http.response.start", "status": 403, "headers": []}, {"type": "websocket.http.response.body", "body": b"", "more_body": True},
                     {"type": "websocket.http.response.body", "more_body": True}, {"type": "websocket.http.response.body", "body": b"x"}],
    "nothing": [],
}


def opening_cases(tier):
    for o in OPENINGS:
        for b in ("asyncio", "trio"):
            for inside in (False, True):
                yield {"opening": o, "backend": b, "entered": inside}


@C.family("openings", opening_cases, "accept, close, denial, exception or return before and after connecting: what websocket_connect gives")
def _(case, x):
    o = case["opening"]
    for connect_first, end in itertools.product((True, False), (None, AppError("ws"), "wait")):
        for subs in (None, [], ["a"], ["a", "b"]):
            x.step()
            log = []

            async def ws(scope, receive, send):
                log.append(scope)
                if connect_first:
                    log.append(await receive())
                for m in OPENINGS[o]:
                    await send(dict(m))
                if end == "wait":
                    log.append(await receive() if connect_first else await receive() and await receive())
                elif end is not None:
                    raise end

            if o == "nothing" and end == "wait":
                continue
            app = with_lifespan(ws)
            msg = "%s connect=%s end=%r subprotocols=%r %s" % (o, connect_first, end, subs, case["backend"])
            given = {"x-mine": "1"}
            with contextlib.ExitStack() as stack:
                client = TestClient(app, backend=case["backend"])
                if case["entered"]:
                    stack.enter_context(client)
                got = None
                session = None
                try:
                    kw = {} if subs is None else {"subprotocols": subs}
                    with client.websocket_connect("/ws?x=1", headers=given, **kw) as session:
                        pass
                except BaseException as exc:
                    if isinstance(exc, core.Stuck):
                        raise
                    got = exc
            x.eq(given, {"x-mine": "1"}, msg + ": the headers given were modified")
            sc = log[0]
            x.eq((sc["type"], sc["path"], sc["query_string"], sc["scheme"], list(sc["subprotocols"])), ("websocket", "/ws", b"x=1", "ws", subs or []), msg + ": scope")
            hs = dict(sc["headers"])
            x.eq(hs.get(b"x-mine"), b"1", msg + ": header")
            if subs:
                x.eq(hs.get(b"sec-websocket-protocol"), ", ".join(subs).encode(), msg + ": protocol header")
            if connect_first:
                x.eq(log[1], {"type": "websocket.connect"}, msg + ": connect")
            x.outcome((o, str(end), connect_first, type(got).__name__))
            if end is not None and end != "wait":
                x.check(got is end, msg + ": the application's exception was not raised", got)
                continue
            if o.startswith("accept"):
                x.check(got is None, msg + ": raised", got)
                x.eq(session.accepted_subprotocol, "b" if o == "accept-sub" else None, msg + ": subprotocol")
                x.eq([tuple(h) for h in session.extra_headers or []], [(b"x-h", b"\xe9"), (b"x-h", b"2")] if o == "accept-sub" else [], msg + ": headers")
                if end == "wait":
                    x.check(connect_first is False or len(log) > 2, msg + ": an application waiting for a message was not told that the client left", log)
                if end == "wait" and len(log) > 2:
                    x.eq((log[2]["type"], log[2].get("code")), ("websocket.disconnect", 1000), msg + ": leaving")
            elif o.startswith("close"):
                x.check(isinstance(got, WebSocketDisconnect) and not isinstance(got, WebSocketDenialResponse), msg + ": exception", got)
                want = {"close": (1000, ""), "close-code": (4001, "r\u00e9ason"), "close-none": (1008, "")}[o]
                x.eq((got.code, got.reason or ""), want, msg + ": code and reason")
            elif o.startswith("denial"):
                x.check(isinstance(got, WebSocketDenialResponse) and isinstance(got, WebSocketDisconnect) and isinstance(got, httpx.Response), msg + ": exception", got)
                start = OPENINGS[o][0]
                x.eq((got.status_code, got.content), (start["status"], b"".join(m.get("body", b"") for m in OPENINGS[o][1:])), msg + ": denial")
                x.eq([(k.lower(), v) for k, v in got.headers.raw if k.lower() not in (b"content-length", b"transfer-encoding")], start.get("headers", []), msg + ": headers")
            else:
                x.check(got is not None, msg + ": a session without accept", session)


APP_STEPS = ["text", "bytes", "recv", "close", "raise"]
FRAMES = {"text": {"type": "websocket.send", "text": "t\u00e9"}, "bytes": {"type": "websocket.send", "bytes": b"\x00\xff"},
          "close": {"type": "websocket.close", "code": 3001, "reason": "bye"}}


def session_cases(tier):
    n = 3 if tier == "thorough" else 2
    for k in range(n + 1):
        for steps in itertools.product(APP_STEPS, repeat=k):
            if any(s in ("close", "raise") for s in steps[:-1]) and not (steps[-1] == "recv" and steps[:-1].count("close") == 1 and "raise" not in steps):
                continue
            for b in ("asyncio", "trio") if tier == "thorough" else ("asyncio",):
                yield {"steps": list(steps), "backend": b}
    if tier != "thorough":
        for steps in (["text"], ["recv", "bytes"], ["close"], ["text", "raise"]):
            yield {"steps": steps, "backend": "trio"}
    yield {"steps": ["recv", "recv", "text"], "backend": "asyncio"}
    yield {"steps": ["text", "bytes", "text"], "backend": "asyncio"}


class Gated:
    """A websocket application that takes each step when the explorer says so."""

    def __init__(self, steps):
        self.steps = steps
        self.log = []
        self.pos = 0
        self.event = None
        self.ended = False
        self.error = AppError("session")

    async def __call__(self, scope, receive, send):
        if scope["type"] == "lifespan":
            await no_lifespan(receive, send)
            return
        self.event = anyio.Event()
        self.log.append(await receive())
        await send({"type": "websocket.accept"})
        for s in self.steps:
            await self.event.wait()
            self.event = anyio.Event()
            if s == "recv":
                self.log.append(await receive())
            elif s == "raise":
                raise self.error
            else:
                await send(dict(FRAMES[s]))
            self.pos += 1
        await self.event.wait()
        self.ended = True


async def settle():
    for _ in range(25):
        await anyio.sleep(0)


SENDS = ["text", "bytes", "json", "close"]


@C.family("sessions", session_cases, "all interleavings of a websocket application's steps with the client's operations, at message granularity")
def _(case, x):
    steps = case["steps"]
    depth = (7 if x.tier == "thorough" else 6) if len(steps) < 3 else 5
    holder = {}

    async def app(scope, receive, send):
        await (no_lifespan(receive, send) if scope["type"] == "lifespan" else holder["app"](scope, receive, send))

    with TestClient(app, backend=case["backend"]) as client:
        def run(ch):
            g = holder["app"] = Gated(steps)
            incoming = []  # frames the client sent and the application has not received
            out = []  # frames the application sent and the client has not received
            expect = [{"type": "websocket.connect"}]
            waiting = raised = done = False
            pos = 0
            trace = []
            got = None
            exit_kind = None

            def deliver():
                nonlocal waiting, pos
                if waiting and incoming:
                    expect.append(incoming.pop(0))
                    waiting = False
                    pos += 1

            try:
                with client.websocket_connect("/") as session:
                    portal = session.portal

                    async def step():
                        g.event.set()
                        await settle()

                    portal.call(settle)
                    for n in range(depth):
                        moves = ["exit"]
                        if not waiting and not done and not raised:
                            moves.append("app")
                        if out or done:
                            moves.append("receive")
                        if not raised:
                            moves += ["send " + SENDS[n % 4]]
                        move = ch.pick(moves)
                        trace.append(move)
                        if move == "exit":
                            if n % 2:
                                exit_kind = KeyError("body")
                                raise exit_kind
                            break
                        if move == "app":
                            portal.call(step)
                            if pos >= len(steps):
                                done = True
                            elif steps[pos] == "recv":
                                waiting = True
                                deliver()
                            elif steps[pos] == "raise":
                                raised = True
                            else:
                                out.append(steps[pos])
                                pos += 1
                        elif move == "receive":
                            if not out:
                                try:
                                    m = session.receive()
                                except Exception:
                                    continue
                                x.fail("%r: received %r from an application that ended" % (trace, m))
                            s = out.pop(0)
                            if raised:
                                try:
                                    session.receive()
                                except Exception:
                                    pass
                                continue
                            read(x, session, s, n, trace)
                        else:
                            kind = move[5:]
                            if kind == "text":
                                session.send_text("c\u00e9")
                                incoming.append({"type": "websocket.receive", "text": "c\u00e9"})
                            elif kind == "bytes":
                                session.send_bytes(b"c\xff")
                                incoming.append({"type": "websocket.receive", "bytes": b"c\xff"})
                            elif kind == "json":
                                session.send_json({"k": ["\u00e9"]}, mode="binary" if n % 2 else "text")
                                t = '{"k":["\u00e9"]}'
                                incoming.append({"type": "websocket.receive", "bytes": t.encode()} if n % 2 else {"type": "websocket.receive", "text": t})
                            else:
                                session.close(3999, "client")
                                incoming.append({"type": "websocket.disconnect", "code": 3999, "reason": "client"})
                            portal.call(settle)
                            deliver()
                        x.eq(g.log, expect, "%r with %r: what the application received" % (trace, steps))
            except BaseException as exc:
                if isinstance(exc, (core.Stuck, Violation)):
                    raise
                got = exc
            msg = "%r with application %r" % (trace, steps)
            if raised:
                x.check(got is g.error, msg + ": the application's exception was not raised", got)
            elif exit_kind is not None:
                x.check(got is exit_kind, msg + ": the block's exception", got)
            else:
                x.check(got is None, msg + ": raised", got)
            allowed = incoming + [{"type": "websocket.disconnect", "code": 1000, "reason": None}]
            extra = g.log[len(expect):]
            x.eq(g.log[:len(expect)], expect, msg + ": what the application received")
            x.check(extra == allowed[:len(extra)], msg + ": received while leaving", (extra, allowed))
            x.check(extra or not waiting, msg + ": an application waiting for a message was not told that the client left")
            x.outcome((tuple(steps), tuple(trace)))

        x.explore(run)


def read(x, session, s, n, trace):
    msg = "%r: frame %s" % (trace, s)
    if s == "close":
        if n % 2:
            x.eq(session.receive(), dict(FRAMES[s]), msg)
            return
        try:
            (session.receive_text if n % 4 else session.receive_bytes)()
        except WebSocketDisconnect as exc:
            x.eq((exc.code, exc.reason), (3001, "bye"), msg)
        else:
            x.fail(msg + ": not raised")
    elif s == "text":
        x.eq(session.receive_text(), "t\u00e9", msg)
    else:
        x.eq(session.receive_bytes(), b"\x00\xff", msg)


def wsmisc_cases(tier):
    for b in ("asyncio", "trio"):
        yield {"backend": b}


@C.family("ws-values", wsmisc_cases, "JSON and text values in both modes and directions, close codes and reasons, sessions in sequence and nested")
def _(case, x):
    values = [None, True, 0, -1, 1.5, "", "\u00e9\u20ac\U0001f600", [], {}, {"a": [1, {"b": None}]}, "x" * 70000, "\"\\\n"]
    codes = [(1000, ""), (1001, "gone"), (4999, "\u00e9"), (1011, "x" * 100)]

    async def echo(scope, receive, send):
        await receive()
        await send({"type": "websocket.accept"})
        while True:
            m = await receive()
            if m["type"] == "websocket.disconnect":
                seen.append(m)
                return
            await send({**m, "type": "websocket.send"})

    async def closer(scope, receive, send):
        await receive()
        await send({"type": "websocket.accept"})
        code, reason = codes[int(scope["query_string"])]
        await send({"type": "websocket.close", "code": code, "reason": reason})

    seen = []

    async def app(scope, receive, send):
        await (no_lifespan(receive, send) if scope["type"] == "lifespan" else (echo if scope["path"] == "/echo" else closer)(scope, receive, send))

    with TestClient(app, backend=case["backend"]) as client:
        with client.websocket_connect("/echo") as s, client.websocket_connect("/echo") as other:
            for i, v in enumerate(values):
                for mode in ("text", "binary"):
                    x.step()
                    s.send_json(v, mode=mode)
                    other.send_json(i, mode=mode)
                    x.eq(s.receive_json(mode=mode), v, "json %r in %s mode" % (v, mode))
                    x.eq(other.receive_json(mode=mode), i, "another session")
            for t in ("", "\u00e9", "\x00"):
                s.send_text(t)
                s.send_bytes(t.encode())
                x.eq((s.receive_text(), s.receive_bytes()), (t, t.encode()), "text and bytes")
        for i, (code, reason) in enumerate(codes):
            for how in ("receive_text", "receive_bytes", "receive_json"):
                x.step()
                with client.websocket_connect("/closer?%d" % i) as s:
                    try:
                        getattr(s, how)()
                    except WebSocketDisconnect as exc:
                        x.eq((exc.code, exc.reason), (code, reason), "close through %s" % how)
                    else:
                        x.fail("%s returned after a close" % how)
        headers = {}
        for subs in (["one"], ["two"], None):
            sc = client.websocket_connect("/echo", subprotocols=subs, headers=headers).scope if subs else client.websocket_connect("/echo", headers=headers).scope
            x.eq(list(sc["subprotocols"]), subs or [], "subprotocols of sessions sharing a headers dict")


def listening_cases(tier):
    for b in ("asyncio", "trio"):
        for method in ("GET", "HEAD"):
            yield {"backend": b, "method": method}


@C.family("listening", listening_cases, "an application receiving while it responds: the request first, the disconnect after the final body message")
def _(case, x):
    for n in range(4):
        for pause_at in range(n + 2):
            for pre in (0, 1, 2):
                for last in (True, False):
                    x.step()
                    log = []

                    async def app(scope, receive, send):
                        if scope["type"] == "lifespan":
                            await no_lifespan(receive, send)
                            return

                        async def listen():
                            while True:
                                m = await receive()
                                log.append(m["type"])
                                if m["type"] == "http.disconnect":
                                    return

                        async def pause():
                            for _ in range(10):
                                await anyio.sleep(0)

                        async with anyio.create_task_group() as tg:
                            for _ in range(pre):
                                await anyio.sleep(0)
                            tg.start_soon(listen)
                            if pause_at == 0:
                                await pause()
                            await send({"type": "http.response.start", "status": 200})
                            for i in range(n):
                                await pause()
                                log.append("part")
                                await send({"type": "http.response.body", "body": b"%d" % i, "more_body": i < n - 1 or not last})
                                if pause_at == i + 1:
                                    await pause()
                            if n == 0 or not last:
                                log.append("part")
                                await send({"type": "http.response.body"})

                    client = TestClient(app, backend=case["backend"])
                    r = client.request(case["method"], "/")
                    msg = "n=%d pause=%d pre=%d last=%s" % (n, pause_at, pre, last)
                    x.eq(r.content, b"" if case["method"] == "HEAD" else b"".join(b"%d" % i for i in range(n)), msg)
                    x.eq([m for m in log if m != "part"], ["http.request", "http.disconnect"], msg + ": received")
                    x.check(log[-1] == "http.disconnect", msg + ": disconnected before the response was complete", log)
    from starlette.responses import StreamingResponse

    async def chunks():
        for i in range(5):
            await anyio.sleep(0)
            yield b"%d" % i
            await anyio.sleep(0.001)

    for gen in (chunks, lambda: iter([b"01", b"23", b"4"])):
        async def streaming(scope, receive, send):
            await StreamingResponse(gen())(scope, receive, send)

        x.eq(TestClient(streaming, backend=case["backend"]).get("/").content, b"01234", "streaming response")
    x.outcome((case["backend"], case["method"]))


# --------------------------------------------------------------------- lifespan

STARTUPS = ["complete", "raise", "failed-raise", "failed-return", "raise-late"]
SHUTDOWNS = ["complete", "raise", "failed-raise", "failed-return"]
INNER = ["nothing", "request", "failing", "requests", "ws"]


def lifespan_cases(tier):
    for b in ("asyncio", "trio"):
        for up in STARTUPS:
            for down in SHUTDOWNS if up == "complete" else SHUTDOWNS[:1]:
                yield {"backend": b, "up": up, "down": down}


@C.family("lifespan", lifespan_cases, "startup and shutdown outcomes x what happens inside: order, failures raised, state copied to each request")
def _(case, x):
    up, down = case["up"], case["down"]
    for inner in INNER:
        for reenter in (False, True):
            x.step()
            log = []
            up_error, down_error = AppError("up"), AppError("down")
            states = []

            async def app(scope, receive, send):
                if scope["type"] == "lifespan":
                    log.append("run")
                    m = await receive()
                    log.append(m["type"])
                    if up == "raise":
                        raise up_error
                    scope["state"]["n"] = scope["state"].get("n", 0) + 1
                    scope["state"]["k"] = "v"
                    if up.startswith("failed"):
                        await send({"type": "lifespan.startup.failed", "message": "no start"})
                        if up == "failed-raise":
                            raise up_error
                        return
                    await send({"type": "lifespan.startup.complete"})
                    if up == "raise-late":
                        raise up_error
                    m = await receive()
                    log.append(m["type"])
                    if down == "raise":
                        raise down_error
                    if down.startswith("failed"):
                        await send({"type": "lifespan.shutdown.failed", "message": "no stop"})
                        if down == "failed-raise":
                            raise down_error
                        return
                    await send({"type": "lifespan.shutdown.complete"})
                    log.append("end")
                    return
                log.append(scope["type"])
                states.append(dict(scope["state"]))
                scope["state"]["mine"] = 1
                scope["state"].pop("k", None)
                await receive()
                if scope["type"] == "websocket":
                    await send({"type": "websocket.accept"})
                    await receive()
                    return
                if scope["path"] == "/fail":
                    raise KeyError("request")
                await send({"type": "http.response.start", "status": 200})
                await send({"type": "http.response.body"})

            client = TestClient(app, backend=case["backend"])
            msg = "%s/%s/%s/%s" % (up, down, inner, case["backend"])
            for round_ in range(2 if reenter and up == "complete" else 1):
                del log[:], states[:]
                got = None
                ran = False
                try:
                    with client as same:
                        x.check(same is client, "the client itself is entered")
                        ran = True
                        x.eq(log, ["run", "lifespan.startup"], msg + ": at entry")
                        if inner in ("request", "requests"):
                            for _ in range(3 if inner == "requests" else 1):
                                client.get("/")
                        elif inner == "failing":
                            client.get("/fail")
                        elif inner == "ws":
                            with client.websocket_connect("/"):
                                pass
                        x.check("lifespan.shutdown" not in log, msg + ": shutdown too early")
                except BaseException as exc:
                    if isinstance(exc, (core.Stuck, Violation)):
                        raise
                    got = exc
                requests = {"nothing": [], "request": ["http"], "requests": ["http"] * 3, "failing": ["http"], "ws": ["websocket"]}[inner]
                x.outcome((up, down, inner, type(got).__name__))
                if up in ("raise", "failed-raise", "failed-return"):
                    x.check(not ran, msg + ": entered although startup failed")
                    x.check(got is up_error if up != "failed-return" else isinstance(got, Exception) and "no start" in str(got), msg + ": startup failure", got)
                    x.eq(log, ["run", "lifespan.startup"], msg + ": log")
                    break
                x.check(ran, msg + ": not entered", got)
                if up == "raise-late":
                    x.check(got is up_error, msg + ": late failure", got)
                    break
                x.eq(log, ["run", "lifespan.startup", *requests, "lifespan.shutdown"] + (["end"] if down == "complete" else []), msg + ": log")
                if down == "failed-return":
                    x.check(isinstance(got, Exception) and ("no stop" in str(got) or isinstance(got, KeyError)), msg + ": shutdown failure", got)
                elif down != "complete":
                    x.check(got is down_error, msg + ": shutdown failure", got)
                elif inner == "failing":
                    x.check(isinstance(got, KeyError), msg + ": failing request", got)
                else:
                    x.check(got is None, msg + ": raised", got)
                for s in states:
                    x.check("mine" not in s and s.get("k") == "v", msg + ": state of a request", s)
                x.check(client.portal is None, msg + ": portal kept")
            del log[:], states[:]
            if up == "complete":
                client.get("/")
                x.eq(log, ["http"], msg + ": a request without entering runs no lifespan")


# --------------------------------------------------------------- client settings

def settings_cases(tier):
    for b in ("asyncio", "trio"):
        yield {"backend": b}


@C.family("settings", settings_cases, "application forms (ASGI2, class, partial, object), redirects, cookies across requests, threads")
def _(case, x):
    kw = {"backend": case["backend"]}

    async def three(scope, receive, send):
        await PlainTextResponse("3")(scope, receive, send)

    def two(scope):
        async def inner(receive, send):
            await PlainTextResponse("2")(scope, receive, send)

        return inner

    class Two:
        def __init__(self, scope):
            self.scope = scope

        async def __call__(self, receive, send):
            await PlainTextResponse("2c")(self.scope, receive, send)

    class Obj:
        async def __call__(self, scope, receive, send):
            await three(scope, receive, send)

        async def meth(self, scope, receive, send):
            await three(scope, receive, send)

    class Aw:
        def __init__(self, scope, receive, send):
            self.a = (scope, receive, send)

        def __await__(self):
            return three(*self.a).__await__()

    async def extra(tag, scope, receive, send):
        await PlainTextResponse(tag)(scope, receive, send)

    for app, want in ((three, "3"), (two, "2"), (Two, "2c"), (Obj(), "3"), (Obj().meth, "3"), (Aw, "3"), (functools.partial(extra, "p"), "p"),
                      (functools.partial(functools.partial(extra), "pp"), "pp"), (Starlette(routes=[Mount("/", three)]), "3")):
        x.step()
        x.eq(TestClient(app, **kw).get("/").text, want, "application %r" % (app,))

    log = []

    async def home(request):
        log.append((request.method, request.url.path, dict(request.cookies), (await request.body())))
        return PlainTextResponse("home")

    async def to(request):
        log.append((request.method, request.url.path, dict(request.cookies), (await request.body())))
        r = RedirectResponse("/home", status_code=int(request.path_params["code"]))
        r.set_cookie("seen", "1")
        return r

    async def forget(request):
        r = PlainTextResponse("x")
        r.delete_cookie("seen")
        return r

    app = Starlette(routes=[Route("/home", home, methods=["GET", "POST"]), Route("/to/{code}", to, methods=["GET", "POST"]), Route("/forget", forget)])
    for code in (301, 302, 303, 307, 308):
        for method in ("GET", "POST"):
            for follow in (None, True, False):
                x.step()
                del log[:]
                client = TestClient(app, cookies={"mine": "m"}, follow_redirects=bool(follow) if follow is not None else True, **kw)
                r = client.request(method, "/to/%d" % code, content=b"body" if method == "POST" else b"")
                msg = "%s %d follow=%r" % (method, code, follow)
                if follow is False:
                    x.eq((r.status_code, r.headers["location"], len(log)), (code, "/home", 1), msg)
                    x.eq(client.get("/to/%d" % code, follow_redirects=True).text, "home", msg + ": per request")
                    continue
                x.eq((r.status_code, r.text, [h.status_code for h in r.history]), (200, "home", [code]), msg)
                same = method == "GET" or code in (307, 308)
                x.eq(log[1][:2], (method if same else "GET", "/home"), msg + ": second request")
                x.eq(log[1][2], {"mine": "m", "seen": "1"}, msg + ": cookies")
                x.eq(log[1][3], b"body" if method == "POST" and same else b"", msg + ": body")
                client.get("/forget")
                del log[:]
                client.get("/home")
                x.eq(log[0][2], {"mine": "m"}, msg + ": deleted cookie")
                other = TestClient(app, **kw)
                other.get("/home")
                x.eq(log[1][2], {}, msg + ": another client")

    # several threads using one entered client
    async def slow(request):
        await anyio.sleep(0)
        return PlainTextResponse(request.path_params["n"])

    app = Starlette(routes=[Route("/{n}", slow)])
    with TestClient(app, **kw) as client:
        res = {}

        def go(i):
            res[i] = [client.get("/%d-%d" % (i, j)).text for j in range(5)]

        ts = [threading.Thread(target=go, args=(i,)) for i in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        x.eq(res, {i: ["%d-%d" % (i, j) for j in range(5)] for i in range(3)}, "threads")
    x.outcome(case["backend"])
