"""C11 WebSocket only ever performs legal protocol transitions."""
from __future__ import annotations

import itertools

import anyio

from mc import asgi, rt
from mc.core import Check, short

from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, Response
from starlette.websockets import WebSocket, WebSocketClose, WebSocketDisconnect, WebSocketState as S

C = Check("C11", [
    "one task receives at a time",
    "after a send that failed before the connection was accepted (or in a denial response) only the exception is specified",
])

OFFER = {
    "connect": {"type": "websocket.connect"},
    "text": {"type": "websocket.receive", "text": "t\u00e9"},
    "bytes": {"type": "websocket.receive", "bytes": b"\x00\xff", "text": None, "extra": 1},
    "disc": {"type": "websocket.disconnect", "code": 1001, "reason": "bye"},
    "bogus": {"type": "http.request", "body": b""},
}
SEND = {
    "accept": {"type": "websocket.accept", "subprotocol": "p", "headers": [(b"x", b"y")]},
    "send": {"type": "websocket.send", "text": "hello", "extra": [1]},
    "close": {"type": "websocket.close", "code": 3000, "reason": "r"},
    "start": {"type": "websocket.http.response.start", "status": 403, "headers": [(b"a", b"b")]},
    "more": {"type": "websocket.http.response.body", "body": b"x", "more_body": True},
    "end": {"type": "websocket.http.response.body", "body": b"z"},
    "end0": {"type": "websocket.http.response.body", "body": b"", "more_body": False},
    "bogus": {"type": "http.response.start", "status": 200, "headers": []},
}


class Gone(ConnectionResetError):
    pass


class Other(Exception):
    pass


class Ref:
    """The reference automaton, written from the ASGI websocket specification."""

    def __init__(self):
        self.client = "connecting"
        self.app = "connecting"
        self.undefined = False

    def may_receive(self):
        return self.client != "disconnected"

    def received(self, t):
        """Accept a message of type t from the server; False if it is illegal now."""
        if self.client == "connecting":
            if t != "websocket.connect":
                return False
            self.client = "connected"
            return True
        if t == "websocket.receive":
            return True
        if t == "websocket.disconnect":
            self.client = "disconnected"
            return True
        return False

    def may_send(self, m):
        t = m["type"]
        if self.app == "connecting":
            return t in ("websocket.accept", "websocket.close", "websocket.http.response.start")
        if self.app == "connected":
            return t in ("websocket.send", "websocket.close")
        if self.app == "response":
            return t == "websocket.http.response.body"
        return False

    def sent(self, m, fail=None):
        t = m["type"]
        if fail and self.app != "connected":
            self.undefined = True
        if t == "websocket.accept":
            self.app = "connected"
        elif t == "websocket.close":
            self.app = "disconnected"
        elif t == "websocket.http.response.start":
            self.app = "response"
        elif t == "websocket.http.response.body" and not m.get("more_body"):
            self.app = "disconnected"
        if fail == "os" and not self.undefined:
            self.app = "disconnected"

    def states(self):
        return (S[{"connecting": "CONNECTING", "connected": "CONNECTED", "disconnected": "DISCONNECTED"}[self.client]],
                S[{"connecting": "CONNECTING", "connected": "CONNECTED", "disconnected": "DISCONNECTED", "response": "RESPONSE"}[self.app]])


class Peer:
    def __init__(self):
        self.offer = None
        self.given = 0
        self.fail = None
        self.got = []

    async def receive(self):
        self.given += 1
        return dict(self.offer)

    async def send(self, m):
        self.got.append(m)
        if self.fail:
            raise self.fail


async def attempt(coro):
    try:
        return ("ok", await coro)
    except Exception as exc:
        return ("exc", exc)


async def first(it):
    """The first item of an iterator over messages."""
    try:
        return await it.__anext__()
    finally:
        await it.aclose()


FAILS = {"": lambda: None, "os": lambda: Gone("x"), "other": lambda: Other("y")}

OPS = [("recv", k) for k in OFFER]
OPS += [("send", k, "") for k in SEND]
OPS += [("send", k, "os") for k in ("accept", "send", "close", "start", "more", "end")]
OPS += [("accept", "connect", ""), ("accept", "text", ""), ("close", ""), ("close", "os"), ("typed", "receive_text"), ("deny",)]
OTHERS = [("send", k, "other") for k in ("accept", "send", "close", "start", "end")] + [
    ("accept", "disc", ""), ("accept", "connect", "os"), ("typed", "receive_bytes"), ("typed", "receive_json"), ("typed", "iter_text"), ("typed", "iter_bytes"), ("typed", "iter_json"),
    ("send_text", ""), ("send_bytes", ""), ("send_json", ""), ("send_text", "os"), ("send_json", "os"),
]


def legal_prefix(hist):
    """How far the history can be told apart from a shorter one (prune histories that are undefined early)."""
    return True


def run_history(x, hist, ext):
    async def main():
        peer = Peer()
        sc = asgi.scope("/ws", type="websocket", extensions={"websocket.http.response": {}} if ext else None)
        ws = WebSocket(sc, peer.receive, peer.send)
        ref = Ref()
        trace = []
        for op in hist:
            peer.offer = OFFER["connect"]
            peer.fail = None
            g0, s0 = peer.given, len(peer.got)
            kind = op[0]
            if kind == "recv":
                peer.offer = OFFER[op[1]]
                res = await attempt(ws.receive())
                if not ref.may_receive():
                    want = ("refuse", 0, [])
                elif ref.received(peer.offer["type"]):
                    want = ("value", 1, [], peer.offer)
                else:
                    want = ("refuse", 1, [])
            elif kind == "send":
                m = SEND[op[1]]
                peer.fail = FAILS[op[2]]()
                res = await attempt(ws.send(dict(m)))
                want = sending(ref, m, op[2], peer.fail)
            elif kind == "accept":
                peer.offer = OFFER[op[1]]
                peer.fail = FAILS[op[2]]()
                res = await attempt(ws.accept(subprotocol="sp", headers=[(b"h", b"v")]))
                m = {"type": "websocket.accept", "subprotocol": "sp", "headers": [(b"h", b"v")]}
                n = 0
                good = True
                if ref.client == "connecting":
                    n = 1
                    good = ref.received(peer.offer["type"])
                want = sending(ref, m, op[2], peer.fail) if good else ("refuse", n, [])
                want = (want[0], n) + tuple(want[2:])
            elif kind == "close":
                peer.fail = FAILS[op[1]]()
                res = await attempt(ws.close(4000, "why"))
                want = sending(ref, {"type": "websocket.close", "code": 4000, "reason": "why"}, op[1], peer.fail)
            elif kind in ("send_text", "send_bytes", "send_json"):
                peer.fail = FAILS[op[1]]()
                v = {"send_text": "h", "send_bytes": b"h", "send_json": 1}[kind]
                res = await attempt(getattr(ws, kind)(v))
                want = sending(ref, {"type": "websocket.send", "bytes" if kind == "send_bytes" else "text": str(v) if kind == "send_json" else v}, op[1], peer.fail)
            elif kind == "typed":
                what = op[1].split("_")[1]
                t = {"text": "text", "bytes": "bytes", "json": "text"}[what]
                v = {"text": "v", "bytes": b"v", "json": "[1]"}[what]
                peer.offer = {"type": "websocket.receive", t: v}
                res = await attempt(getattr(ws, op[1])() if op[1].startswith("receive") else first(getattr(ws, op[1])()))
                if ref.app != "connected" or not ref.may_receive():
                    want = ("refuse", 0, [])
                elif ref.client == "connecting":
                    want = ("refuse", 1, [])
                else:
                    want = ("value", 1, [], [1] if what == "json" else v)
            elif kind == "deny":
                res = await attempt(ws.send_denial_response(PlainTextResponse("no", 418)))
                a = {"type": "websocket.http.response.start"}
                if not ext:
                    want = ("refuse", 0, [])
                elif ref.may_send(a):
                    ref.app = "disconnected"
                    want = ("denial", 0, None)
                else:
                    want = ("refuse", 0, [])
            trace.append((op, res))
            new = peer.got[s0:]
            ctx = "%s (extension %s)" % (trace, ext)
            if res[0] == "exc" and want[0] == "refuse":
                x.check(type(res[1]) is RuntimeError or isinstance(res[1], RuntimeError), "illegal operation did not raise RuntimeError: %s" % ctx)
                x.check(new == [], "illegal message reached the server: %s: %s" % (ctx, new))
            elif want[0] == "refuse":
                x.fail("illegal operation was not refused: %s, forwarded %s" % (ctx, new))
            elif want[0] == "denial":
                x.check(res == ("ok", None), "denial response failed: %s" % ctx)
                r = asgi.judge(new, prefix="websocket.http.response")
                x.eq((r.status, r.body), (418, b"no"), "denial response: %s" % ctx)
            elif want[0] == "raise":
                x.check(res[0] == "exc" and res[1] is want[3], "the transport's exception did not surface: %s" % ctx)
                x.eq(new, want[2], "forwarded messages: %s" % ctx)
            elif want[0] == "gone":
                x.check(res[0] == "exc" and type(res[1]) is WebSocketDisconnect and res[1].code == 1006,
                        "a transport failure did not surface as WebSocketDisconnect(1006): %s" % ctx)
                x.eq(new, want[2], "forwarded messages: %s" % ctx)
            else:
                x.check(res[0] == "ok", "a legal operation was refused: %s" % ctx, repr(res[1]))
                x.eq(new, want[2], "forwarded messages: %s" % ctx)
                if want[0] == "value":
                    x.eq(res[1], want[3], "received value: %s" % ctx)
            x.eq(peer.given - g0, want[1], "messages taken from the server: %s" % ctx)
            if ref.undefined:
                x.step(1)
                return tuple(str(t) for t in trace)
            x.eq((ws.client_state, ws.application_state), ref.states(), "reported states after %s" % ctx)
            x.step(1)
        return (ref.client, ref.app, len(peer.got), peer.given)

    def sending(ref, m, failname, fail):
        if not ref.may_send(m):
            return ("refuse", 0, [])
        was = ref.app
        ref.sent(m, failname)
        if failname == "":
            return ("ok", 0, [m])
        if failname == "os" and was == "connected":
            return ("gone", 0, [m])
        return ("raise", 0, [m], fail)

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(out.value)


def cases_hist(tier):
    n = 3 if tier == "quick" else 4
    for ext in (True, False):
        for i in range(1, n):
            for h in itertools.product(OPS + OTHERS, repeat=min(i, 2)):
                yield (h, n - min(i, 2) if i == n - 1 else 0, ext)


@C.family("histories", cases_hist, "every sequence of receive, send, accept, close, typed and denial operations x message offered x transport failure")
def _(case, x):
    first, more, ext = case
    if not more:
        x.sample = dict(history=first, extension=ext)
        run_history(x, first, ext)
        return

    def one(ch):
        h = list(first) + [ch.pick(OPS + OTHERS) for _ in range(more)]
        run_history(x, h, ext)

    x.sample = dict(prefix=first, then="%d more" % more, extension=ext)
    x.explore(one)


CORE = [("recv", "connect"), ("recv", "text"), ("recv", "disc"), ("recv", "bogus"), ("send", "accept", ""), ("send", "send", ""), ("send", "send", "os"), ("send", "close", ""),
        ("send", "close", "os"), ("send", "start", ""), ("send", "more", ""), ("send", "end", ""), ("send", "bogus", ""), ("accept", "connect", ""), ("typed", "receive_text")]


def cases_deep(tier):
    for h in itertools.product(CORE, repeat=2):
        yield (h, 3 if tier == "quick" else 4)


@C.family("deep", cases_deep, "the core operations, to depth 5 (quick) or 6")
def _(case, x):
    first, more = case
    x.sample = dict(prefix=first, then="%d more" % more)
    x.explore(lambda ch: run_history(x, list(first) + [ch.pick(CORE) for _ in range(more)], True))


# -- concurrent use -----------------------------------------------------------

SCRIPTS = {
    "text": lambda ws: ws.send_text("a"),
    "text2": lambda ws: ws.send_json({"b": 1}),
    "close": lambda ws: ws.close(1000),
    "close2": lambda ws: ws.close(4001, "x"),
    "raw": lambda ws: ws.send({"type": "websocket.send", "bytes": b"c"}),
    "accept": lambda ws: ws.send({"type": "websocket.accept", "subprotocol": None, "headers": []}),
    "start": lambda ws: ws.send(dict(SEND["start"])),
    "more": lambda ws: ws.send(dict(SEND["more"])),
    "end": lambda ws: ws.send(dict(SEND["end"])),
    "deny": lambda ws: ws.send_denial_response(JSONResponse({"no": 1}, 403, {"X-A": "b"})),
}


def cases_conc(tier):
    for backend in ("asyncio", "trio"):
        opened = ["text", "text2", "close", "close2", "raw"] if backend == "asyncio" else ["text", "close"]
        closed = ["accept", "close", "start", "deny", "text"] if backend == "asyncio" else ["accept", "close"]
        fails = (None, 0, 1, 2)
        for a, b in itertools.combinations_with_replacement(range(len(opened)), 2):
            for fail in fails:
                yield (backend, True, (opened[a],), (opened[b],), fail, True)
                if tier != "quick" or backend == "asyncio":
                    yield (backend, True, (opened[a], "text"), (opened[b], "close"), fail, True)
        for a, b in itertools.combinations_with_replacement(range(len(closed)), 2):
            yield (backend, False, (closed[a],), (closed[b],), None, False)
            yield (backend, False, (closed[a], "more"), (closed[b], "end"), None, False)


@C.family("concurrent", cases_conc, "two sending tasks and a receiving task on one connection: every order in which the server answers, with a transport failure at each send")
def _(case, x):
    backend, opened, one, two, fail, rx = case

    def run(ch):
        env = rt.Env(ch, early=1)
        ref = Ref()
        calls = []
        problems = []
        client = [OFFER["text"], OFFER["disc"]]

        async def receive():
            if not ref.may_receive():
                problems.append("receive after disconnect")
            if ref.client == "connecting":
                ref.received("websocket.connect")
                return dict(OFFER["connect"])
            await rt.Gate(env).wait("recv")
            m = client.pop(0)
            ref.received(m["type"])
            return dict(m)

        n = [0]

        async def send(m):
            i = n[0]
            n[0] += 1
            if not ref.may_send(m):
                problems.append("illegal message %s in state %s after %s" % (m, ref.app, calls))
            ref.sent(m)
            calls.append(m)
            if i == 0 and opened:
                return
            await rt.Gate(env).wait("send")
            if fail is not None and i - 1 == fail:
                ref.app = "disconnected"
                raise Gone("gone")

        got, errs = [], []

        async def main():
            ws = WebSocket(asgi.scope("/", type="websocket", extensions={"websocket.http.response": {}}), receive, send)
            if opened:
                await ws.accept()
            else:
                await ws.receive()

            async def sender(script):
                for s in script:
                    try:
                        await SCRIPTS[s](ws)
                    except (RuntimeError, WebSocketDisconnect) as exc:
                        errs.append((s, exc))

            async def receiver():
                while True:
                    m = await ws.receive()
                    got.append(m)
                    if m["type"] == "websocket.disconnect":
                        break

            async with anyio.create_task_group() as tg:
                tg.start_soon(sender, one)
                tg.start_soon(sender, two)
                if rx:
                    tg.start_soon(receiver)
            return ws

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        x.check(not problems, "illegal traffic: %s" % problems, "schedule %s" % env.fired, "sent %s" % short(calls))
        if rx:
            x.eq(got, [OFFER["text"], OFFER["disc"]], "messages received")
        for s, exc in errs:
            if type(exc) is WebSocketDisconnect:
                x.check(exc.code == 1006 and fail is not None, "unexpected %r from %s" % (exc, s))
        n_ops = len(one) + len(two)
        msgs = len(calls) - (1 if opened else 0)
        if "deny" not in one + two:
            x.eq(msgs + len([1 for s, e in errs if type(e) is RuntimeError]), n_ops, "every operation is either forwarded or refused: %s %s" % (errs, short(calls)))
        ws = out.value
        x.eq((ws.client_state, ws.application_state), ref.states(), "final states after %s" % short(calls))
        x.outcome((tuple(m["type"] for m in calls), tuple((s, type(e).__name__) for s, e in errs)))

    x.sample = dict(case=case)
    x.explore(run, bound=2)


def cases_cancel(tier):
    for backend in ("asyncio", "trio"):
        for op in ("receive", "receive_text", "send_text", "close", "iter"):
            for after in ("receive", "send_text", "close"):
                yield (backend, op, after)


@C.family("cancel", cases_cancel, "an operation cancelled while the server has not answered leaves the automaton where the messages say")
def _(case, x):
    backend, op, after = case
    ref = Ref()
    calls = []
    box = {"block": False}

    async def receive():
        if ref.client == "connecting":
            ref.received("websocket.connect")
            return dict(OFFER["connect"])
        if box["block"]:
            await anyio.Event().wait()
        ref.received("websocket.receive")
        return dict(OFFER["text"])

    async def send(m):
        x.check(ref.may_send(m), "illegal %s after %s" % (m, calls))
        ref.sent(m)
        calls.append(m)
        if box["block"]:
            await anyio.Event().wait()

    async def main():
        ws = WebSocket(asgi.scope("/", type="websocket"), receive, send)
        await ws.accept()
        box["block"] = True

        async def doit():
            if op == "iter":
                async for _ in ws.iter_text():
                    pass
            else:
                await {"receive": ws.receive, "receive_text": ws.receive_text, "send_text": lambda: ws.send_text("a"), "close": ws.close}[op]()

        async with anyio.create_task_group() as tg:
            tg.start_soon(doit)
            for _ in range(3):
                await anyio.lowlevel.checkpoint()
            tg.cancel_scope.cancel()
        box["block"] = False
        x.eq((ws.client_state, ws.application_state), ref.states(), "states after cancelling %s" % op)
        legal = after == "receive" or ref.app == "connected"
        res = await attempt({"receive": ws.receive, "send_text": lambda: ws.send_text("b"), "close": ws.close}[after]())
        x.check((res[0] == "ok") == legal, "%s after a cancelled %s: %s" % (after, op, res))
        if after == "receive":
            x.eq(res[1], OFFER["text"], "message after a cancelled receive")
        x.eq((ws.client_state, ws.application_state), ref.states(), "states after %s" % after)

    out = rt.run(main, None, backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(case + (tuple(m["type"] for m in calls),))


ARGS = {
    "subprotocol": [None, "", "chat", "a.b"],
    "headers": [None, [], [(b"x-a", b"1")], [(b"set-cookie", b"a=1"), (b"set-cookie", b"b=2")], "tuple", "gen"],
}


def cases_args(tier):
    for sp in ARGS["subprotocol"]:
        for hd in ARGS["headers"]:
            yield ("accept", sp, hd)
    for code in (1000, 1001, 1008, 3000, 4999):
        for reason in (None, "", "why", "\u00e9" * 20):
            yield ("close", code, reason)
            yield ("close-app", code, reason)
    for cls in (Response, PlainTextResponse, HTMLResponse, JSONResponse):
        for status in (200, 400, 403, 503):
            for hd in (None, {"X-A": "1"}):
                yield ("deny", cls, status, hd)


@C.family("arguments", cases_args, "accept, close and denial arguments arrive at the server unchanged")
def _(case, x):
    kind = case[0]
    peer = Peer()
    peer.offer = OFFER["connect"]

    async def main():
        ws = WebSocket(asgi.scope("/", type="websocket", extensions={"websocket.http.response": {}}), peer.receive, peer.send)
        if kind == "accept":
            hd = case[2]
            if hd == "tuple":
                hd = ((b"x-t", b"1"),)
            if hd == "gen":
                hd = iter([(b"x-g", b"1")])
            await ws.accept(case[1], hd)
            m = peer.got[0]
            x.eq((m["type"], m["subprotocol"], list(m["headers"])),
                 ("websocket.accept", case[1], {"tuple": [(b"x-t", b"1")], "gen": [(b"x-g", b"1")]}.get(case[2], case[2] or []) if not isinstance(case[2], list) else case[2]), "accept message")
        elif kind == "close":
            await ws.receive()
            await ws.close(case[1], case[2])
            x.eq(peer.got, [{"type": "websocket.close", "code": case[1], "reason": case[2] or ""}], "close message")
        elif kind == "close-app":
            await WebSocketClose(case[1], case[2])(ws.scope, peer.receive, peer.send)
            x.eq(peer.got, [{"type": "websocket.close", "code": case[1], "reason": case[2] or ""}], "close message")
        else:
            await ws.receive()
            body = {"k": 1} if case[1] is JSONResponse else "no"
            await ws.send_denial_response(case[1](body, case[2], case[3]))
            r = asgi.judge(peer.got, prefix="websocket.http.response")
            x.eq((r.status, r.body), (case[2], b'{"k":1}' if case[1] is JSONResponse else b"no"), "denial response")
            if case[3]:
                x.eq(r.all("x-a"), [b"1"], "denial header")
            x.eq(ws.application_state, S.DISCONNECTED, "state after a denial")
        return len(peer.got)

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.outcome(str(peer.got))
