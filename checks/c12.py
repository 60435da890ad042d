"""C12 WebSocket typed send/receive and endpoints deliver every frame."""
from __future__ import annotations

import itertools
import json
import math

import anyio

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.endpoints import WebSocketEndpoint
from starlette.routing import Mount, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket, WebSocketDisconnect

C = Check("C12", [
    "reading a frame of the other kind gives None or an error, which one is not specified",
    "a disconnect message carries a code, as ASGI servers send it",
    "an endpoint whose on_connect fails never started: its on_disconnect is not specified",
])


class Boom(Exception):
    pass


def sc(**kw):
    return asgi.scope("/ws", type="websocket", **kw)


# -- typed receive ----------------------------------------------------------------

TEXTS = ["", "a", "\u00e9\u20ac\U0001f600", "\x00\n", "null"]
BYTES = [b"", b"a", b"\xff\x00", "\u00e9".encode(), b"null"]
JSONS = ["null", "0", '""', "[]", '{"a":[1,2.5,"\\u00e9"]}', ' {"a" : 1} ', '"\u20ac"', "1e3", "true"]
DISC = [(1000, "absent"), (1001, None), (1005, ""), (1006, "bye"), (3000, "\u00e9"), (4999, "absent")]


def frame(kind, v, style):
    m = {"type": "websocket.receive", kind: v}
    if style == "none":
        m["bytes" if kind == "text" else "text"] = None
    elif style == "none-first":
        m = {"type": "websocket.receive", "bytes" if kind == "text" else "text": None, kind: v}
    return m


def disc(code, reason):
    m = {"type": "websocket.disconnect", "code": code}
    if reason != "absent":
        m["reason"] = reason
    return m


MODES = {
    "text": ("text", TEXTS, lambda ws: ws.receive_text(), lambda ws: ws.iter_text(), lambda v: v),
    "bytes": ("bytes", BYTES, lambda ws: ws.receive_bytes(), lambda ws: ws.iter_bytes(), lambda v: v),
    "json": ("text", JSONS, lambda ws: ws.receive_json(), lambda ws: ws.iter_json(), json.loads),
    "json-text": ("text", JSONS, lambda ws: ws.receive_json(mode="text"), None, json.loads),
    "json-binary": ("bytes", [j.encode() for j in JSONS], lambda ws: ws.receive_json("binary"), None, lambda v: json.loads(v.decode())),
}


def cases_recv(tier):
    n = 2 if tier == "quick" else 3
    for mode in MODES:
        vals = MODES[mode][1]
        for k in range(0, n + 1):
            pool = vals if k < 3 else vals[:5]
            for vs in itertools.product(pool, repeat=k):
                yield (mode, vs)


@C.family("receive", cases_recv, "every frame sequence read with receive_* and iter_*, then a disconnect")
def _(case, x):
    mode, vs = case
    kind, _, recv, it, dec = MODES[mode]
    want = [dec(v) for v in vs]
    for style, (di, (code, reason)), via, before in itertools.product(("absent", "none", "none-first"), enumerate(DISC), ("recv", "iter", "mixed"), (False, True)):
        if via != "recv" and it is None or (style != "absent" and di > 1) or (before and (di or via != "recv")):
            continue

        async def main():
            srv = asgi.WSServer([{"type": "websocket.connect"}] + [frame(kind, v, style) for v in vs] + [disc(code, reason)])
            ws = WebSocket(sc(), srv.receive, srv.send)
            if before:
                for step in range(2):
                    n = srv.receives
                    try:
                        await recv(ws)
                    except RuntimeError:
                        pass
                    else:
                        x.fail("%s before accept did not raise RuntimeError" % mode)
                    x.eq(srv.receives, n, "reading before accept consumed a message")
                    if not step:
                        await ws.receive()
            await ws.accept()
            got = []
            if via == "iter":
                async for v in it(ws):
                    got.append(v)
                return got, None, ws
            if via == "mixed":
                for i in range(len(vs)):
                    if i % 2:
                        async for v in it(ws):
                            got.append(v)
                            break
                    else:
                        got.append(await recv(ws))
            else:
                for _ in vs:
                    got.append(await recv(ws))
            try:
                v = await recv(ws)
            except WebSocketDisconnect as exc:
                return got, exc, ws
            x.fail("no WebSocketDisconnect but %r" % (v,))

        out = rt.run(main)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        got, exc, ws = out.value
        x.check(got == want and [type(a) for a in got] == [type(a) for a in want], "payloads delivered", "got %r" % (got,), "want %r" % (want,), "%s %s %s" % (mode, style, via))
        if exc is not None:
            x.eq((exc.code, exc.reason), (code, "" if reason in ("absent", None) else reason), "disconnect code and reason")
        x.eq(ws.client_state.name, "DISCONNECTED", "state after the disconnect")

        async def again():
            try:
                await recv(ws)
            except RuntimeError:
                return
            x.fail("receiving after the disconnect was not refused")

        rt.run(again)
        x.outcome((mode, repr(got), code, reason, via))
    x.sample = dict(mode=mode, frames=vs)


CODES = [0, 1] + list(range(999, 1017)) + [2999, 3000, 3001, 3999, 4000, 4001, 4999, 5000]


def cases_kind(tier):
    for how in ("receive_text", "receive_bytes", "receive_json", "receive_json binary", "iter_text", "iter_bytes", "iter_json"):
        for shape in ("absent", "none"):
            yield how, shape


@C.family("wrong-kind", cases_kind, "a frame of the other kind read with receive_* and iter_*, empty or not, before and after frames of the right one: no value is made up for it, and the frames around it are delivered")
def _(case, x):
    how, shape = case
    name, _, mode = how.partition(" ")
    kind = "bytes" if "bytes" in name or mode else "text"
    other = "text" if kind == "bytes" else "bytes"

    def frame(k, v):
        m = {"type": "websocket.receive", k: v}
        if shape == "none":
            m["bytes" if k == "text" else "text"] = None
        return m

    right = {"text": '["r"]', "bytes": b'["r"]'}[kind]
    want = ["r"] if "json" in name else right
    for wrong in ({"text": "", "bytes": b""}, {"text": "w", "bytes": b"w"}, {"text": "1", "bytes": b"1"}):
        for order in itertools.product("rw", repeat=3):
            msgs = [{"type": "websocket.connect"}] + [frame(kind, right) if c == "r" else frame(other, wrong[other]) for c in order]

            async def receive():
                return msgs.pop(0)

            async def send(m):
                pass

            async def main():
                ws = WebSocket(asgi.scope("/", type="websocket"), receive, send)
                await ws.accept()
                got = []
                for c in order:
                    try:
                        if name.startswith("iter"):
                            it = getattr(ws, name)()
                            got.append(await it.__anext__())
                            await it.aclose()
                        else:
                            got.append(await (getattr(ws, name)(mode) if mode else getattr(ws, name)()))
                    except Exception as exc:
                        got.append(None)
                return got

            x.eq(asgi.result(rt.run(main)), [want if c == "r" else None for c in order], "%r: %r" % (case, order))
            x.step()


def cases_codes(tier):
    for code in CODES:
        yield code


@C.family("codes", cases_codes, "every close code around 1000..1016 and the range ends x reasons x read with receive_* and iter_*, and through endpoints: reported as sent")
def _(code, x):
    for mode, (reason, via) in itertools.product(MODES, itertools.product(("absent", None, "", "bye", "\u20ac" * 3), ("recv", "first"))):
        kind, vals, recv, it, dec = MODES[mode]

        async def main():
            srv = asgi.WSServer([{"type": "websocket.connect"}] + ([frame(kind, vals[0], "absent")] if via == "recv" else []) + [disc(code, reason)])
            ws = WebSocket(sc(), srv.receive, srv.send)
            await ws.accept()
            if via == "recv":
                await recv(ws)
            try:
                await recv(ws)
            except WebSocketDisconnect as exc:
                return exc.code, exc.reason
            x.fail("no WebSocketDisconnect")

        out = rt.run(main)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        x.eq(out.value, (code, "" if reason in ("absent", None) else reason), "disconnect code and reason (%s, %s)" % (mode, via))
        x.outcome((code, reason, mode, via))
    if not code:
        given = [None, "missing"]  # an endpoint takes a missing code for a normal closure
    else:
        given = [code]
    for enc, code in itertools.product((None, "text", "bytes", "json"), given):
        log = []

        class E(WebSocketEndpoint):
            encoding = enc

            async def on_disconnect(self, websocket, close_code):
                log.append(close_code)

        last = disc(code, "absent")
        if code == "missing":
            del last["code"]
        code = 1000 if code in (None, "missing") else code
        srv = asgi.WSServer([{"type": "websocket.connect"}, last])

        async def run():
            await E(sc(), srv.receive, srv.send)

        out = rt.run(run)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        x.eq(log, [code], "on_disconnect's code (encoding %r)" % enc)



# -- typed send -----------------------------------------------------------------------

VALUES = [None, True, False, 0, -1, 10 ** 20, 1.5, -0.0, 1e300, "", "a", "\u00e9\u20ac\U0001f600", "\"\\\n\x00\u2028", [], [1, "a", None], {}, {"a": 1}, {"\u00e9": {"b": [True, {"c": None}]}},
          [[[]]], {"": ""}, "</script>", list(range(5)), {"a": " b , c : d "}]


def cases_send(tier):
    for i in range(len(VALUES)):
        for mode in ("text", "binary", "default"):
            yield ("json", i, mode)
    for t in TEXTS:
        yield ("text", t, None)
    for b in BYTES + [bytes(range(256)) * 300]:
        yield ("bytes", b, None)
    pool = [("text", "x"), ("text", ""), ("bytes", b"y"), ("bytes", b""), ("json", {"k": "\u00e9"}), ("jsonb", [None])]
    for seq in itertools.product(pool, repeat=3 if tier == "quick" else 4):
        yield ("seq", seq, None)
    for m in ("", "bytes", "Text", None):
        yield ("badmode", m, None)
    for v in ("\ud800", {1, 2}, object(), b"x", math):
        yield ("unserialisable", v, None)


@C.family("send", cases_send, "each send_* call makes one frame of its kind that a peer reads back as the same value")
def _(case, x):
    kind, v, mode = case

    async def main():
        srv = asgi.WSServer([{"type": "websocket.connect"}])
        ws = WebSocket(sc(), srv.receive, srv.send)
        await ws.accept()
        base = len(srv.sent)
        if kind == "seq":
            for k, p in v:
                await {"text": ws.send_text, "bytes": ws.send_bytes, "json": ws.send_json, "jsonb": lambda p: ws.send_json(p, mode="binary")}[k](p)
            seq = list(v)
        elif kind == "json":
            val = VALUES[v]
            if mode == "default":
                await ws.send_json(val)
            else:
                await ws.send_json(val, mode)
            seq = [("jsonb" if mode == "binary" else "json", val)]
        elif kind in ("badmode", "unserialisable"):
            try:
                if kind == "badmode":
                    await ws.send_json({}, mode=v)
                else:
                    await ws.send_json(v, mode="binary")
            except Exception as exc:
                if kind == "badmode":
                    x.check(isinstance(exc, RuntimeError), "bad mode raised %r" % exc)
            else:
                x.fail("%s was accepted: sent %s" % (kind, short(srv.sent)))
            x.eq(len(srv.sent), base, "messages sent by a refused send_json")
            if kind == "badmode":
                srv.incoming.append(frame("text", "{}", "absent"))
                n = srv.receives
                try:
                    await ws.receive_json(mode=v)
                except RuntimeError:
                    pass
                else:
                    x.fail("receive_json accepted mode %r" % (v,))
                x.eq(srv.receives, n, "messages taken by a refused receive_json")
            return
        else:
            await {"text": ws.send_text, "bytes": ws.send_bytes}[kind](v)
            seq = [(kind, v)]
        frames = srv.sent[base:]
        x.eq(len(frames), len(seq), "frames for %s" % short(seq))
        # the peer: a second WebSocket reading those frames as the client's
        back = []
        for m in frames:
            x.check(m["type"] == "websocket.send" and (m.get("text") is None) != (m.get("bytes") is None), "frame %s" % short(m))
            back.append({"type": "websocket.receive", **{k: m[k] for k in ("text", "bytes") if m.get(k) is not None}})
        psrv = asgi.WSServer([{"type": "websocket.connect"}] + back)
        peer = WebSocket(sc(), psrv.receive, psrv.send)
        await peer.accept()
        for k, p in seq:
            got = await {"text": peer.receive_text, "bytes": peer.receive_bytes, "json": peer.receive_json, "jsonb": lambda: peer.receive_json(mode="binary")}[k]()
            x.check(got == p and repr(got) == repr(p), "round trip", "sent %r" % (p,), "read %r" % (got,), "frames %s" % short(frames))
        x.outcome(repr(frames))

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc


# -- endpoints ------------------------------------------------------------------------

T = [("text", "a"), ("text", ""), ("text", "[1]"), ("text", '{"k":"\u00e9"}'), ("text", "nope{"), ("bytes", b"b"), ("bytes", b""), ("bytes", b"[2]"), ("bytes", b"\xff"), ("bytes", b"{]")]
T_SHORT = [("text", ""), ("text", "[1]"), ("text", "nope{"), ("bytes", b"[2]"), ("bytes", b""), ("bytes", b"\xff")]
BAD = object()


def ref_decode(encoding, kind, v):
    if encoding in ("text", "bytes"):
        return v if kind == encoding else BAD
    if encoding == "json":
        try:
            return json.loads(v if kind == "text" else v.decode("utf-8"))
        except ValueError:
            return BAD
    return v


class Log(list):
    pass


def make(encoding, log, fail_at=None, connect="default", on_disc=None, act=None, exc=Boom):
    class E(WebSocketEndpoint):
        pass

    E.encoding = encoding

    if connect != "default":
        async def on_connect(self, websocket):
            log.append(("connect", id(self)))
            self.n = 0
            if connect == "sub":
                await websocket.accept(subprotocol="x")
            elif connect == "hello":
                await websocket.accept()
                await websocket.send_text("hi")

        E.on_connect = on_connect

    async def on_receive(self, websocket, data):
        log.append(("receive", id(self), data))
        n = len([e for e in log if e[0] == "receive" and e[1] == id(self)])
        if fail_at is not None and n - 1 == fail_at:
            raise exc("handler")
        if act == "echo":
            await websocket.send_json(repr(data))

    async def on_disconnect(self, websocket, close_code):
        log.append(("disconnect", id(self), close_code))
        if on_disc:
            raise on_disc

    E.on_receive = on_receive
    E.on_disconnect = on_disconnect
    return E


def cases_ep(tier):
    for enc in (None, "text", "bytes", "json"):
        for k in range(0, 4 if tier != "quick" else 3):
            for fs in itertools.product(T if k < 3 else T_SHORT, repeat=k):
                yield (enc, fs)
        if tier == "quick":
            for fs in itertools.product(T_SHORT[:5], repeat=3):
                yield (enc, fs)


@C.family("endpoint", cases_ep, "WebSocketEndpoint: every frame sequence x encoding x disconnect x failing handler x on_connect override")
def _(case, x):
    enc, fs = case
    for style, (code, reason), fail_at, connect, act in itertools.product(("absent", "none"), DISC, (None, 0, 1, 2), ("default", "sub", "hello"), (None, "echo")):
        if fail_at is not None and fail_at >= len(fs):
            continue
        if (connect != "default") + (act is not None) + (code != 1001) + (style != "absent") > 1 + (len(fs) < 2):
            continue
        log = Log()
        E = make(enc, log, fail_at, connect, act=act, exc=Boom if code != 3000 else KeyError)
        app = Router([WebSocketRoute("/ws", E)]) if code == 1000 else Starlette(routes=[WebSocketRoute("/ws", E)]) if code != 1005 else Mount("/", routes=[WebSocketRoute("/ws", E)])
        srv = asgi.WSServer([{"type": "websocket.connect"}] + [frame(k, v, style) for k, v in fs] + [disc(code, reason)])

        async def main():
            await app(sc(), srv.receive, srv.send)

        out = rt.run(main)
        asgi.settled(out)
        want, sent, err, end = [], [], None, code
        if connect == "hello":
            sent = [("send", "hi")]
        for i, (k, v) in enumerate(fs):
            d = ref_decode(enc, k, v)
            if d is BAD:
                sent.append(("close", 1003))
                err, end = "frame", 1011
                break
            want.append(d)
            if i == fail_at:
                err, end = "handler", 1011
                break
            if act == "echo":
                sent.append(("send", repr(d)))
        ctx = "encoding %r frames %s style %s disconnect %s fail_at %s connect %s" % (enc, fs, style, code, fail_at, connect)
        got = [e[2] for e in log if e[0] == "receive"]
        x.check(got == want and [type(a) for a in got] == [type(a) for a in want], "on_receive calls: " + ctx, "got  %r" % got, "want %r" % want)
        x.eq([e[2] for e in log if e[0] == "disconnect"], [end], "on_disconnect calls: " + ctx)
        x.eq(log[-1][0], "disconnect", "on_disconnect comes last")
        x.eq(len({e[1] for e in log}), 1, "one endpoint instance")
        if connect != "default":
            x.eq([i for i, e in enumerate(log) if e[0] == "connect"], [0], "on_connect calls")
        x.check(srv.sent and srv.sent[0]["type"] == "websocket.accept", "first message %s" % short(srv.sent))
        x.eq(srv.sent[0].get("subprotocol"), "x" if connect == "sub" else None, "subprotocol")
        x.eq([("close", m["code"]) if m["type"] == "websocket.close" else ("send", json.loads(m["text"]) if m["text"] != "hi" else "hi") for m in srv.sent[1:]], sent, "messages sent: " + ctx)
        if err is None:
            x.check(out.exc is None, "the endpoint raised %r: %s" % (out.exc, ctx))
        elif err == "handler":
            x.check(type(out.exc) in (Boom, KeyError), "the handler's error did not reach the server but %r: %s" % (out.exc, ctx))
        else:
            x.check(isinstance(out.exc, Exception), "the wrong frame did not raise: %s" % ctx)
        x.outcome((enc, fs, code, fail_at, connect, act))
    x.sample = dict(encoding=enc, frames=fs)


def cases_end(tier):
    for backend in ("asyncio", "trio"):
        for enc in (None, "text", "bytes", "json"):
            for n in (0, 1, 2):
                for how in ("cancel", "cancel-handler", "send-fails", "closes", "on_disconnect-raises", "receive-fails", "http-first"):
                    yield (backend, enc, n, how)


@C.family("endings", cases_end, "cancellation, failing transport, a handler that closes, a failing on_disconnect: still exactly one on_disconnect")
def _(case, x):
    backend, enc, n, how = case
    log = Log()
    val = {None: ("text", "1"), "text": ("text", "1"), "bytes": ("bytes", b"1"), "json": ("text", "1")}[enc]

    class E(WebSocketEndpoint):
        encoding = enc

        async def on_receive(self, websocket, data):
            log.append(("receive", data))
            last = len([e for e in log if e[0] == "receive"]) == n
            if how == "cancel-handler" and last:
                await anyio.Event().wait()
            if how == "closes" and last:
                await websocket.close(3001)
            elif how == "send-fails":
                await websocket.send_text("x")

        async def on_disconnect(self, websocket, close_code):
            log.append(("disconnect", close_code))
            if how == "on_disconnect-raises":
                raise Boom("d")

    tail = [] if how in ("cancel", "cancel-handler") else [disc(1001, "absent")] if how != "receive-fails" else ["boom"]
    srv = asgi.WSServer([{"type": "websocket.connect"}] + [frame(val[0], val[1], "absent")] * n + tail, fail_at=1 if how == "send-fails" else None)

    async def receive():
        if srv.incoming and srv.incoming[0] == "boom":
            raise Boom("receive")
        return await srv.receive()

    async def main():
        async with anyio.create_task_group() as tg:
            async def go():
                try:
                    await Starlette(routes=[WebSocketRoute("/ws", E)])(sc(), receive, srv.send)
                except Exception as exc:
                    log.append(("raised", type(exc).__name__))

            tg.start_soon(go)
            for _ in range(20):
                await anyio.lowlevel.checkpoint()
            if how.startswith("cancel"):
                tg.cancel_scope.cancel()

    out = rt.run(main, None, backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    ds = [e for e in log if e[0] == "disconnect"]
    x.eq(len(ds), 1, "on_disconnect calls in %s: %s" % (case, log))
    d = val[1] if enc != "json" else 1
    if how == "send-fails" and n:
        x.eq(log, [("receive", d), ("disconnect", 1011), ("raised", "WebSocketDisconnect")], "history of a failing send")
    elif how == "receive-fails":
        x.eq(log, [("receive", d)] * n + [("disconnect", 1011), ("raised", "Boom")], "history of a failing receive")
    elif how == "on_disconnect-raises":
        x.eq(log, [("receive", d)] * n + [("disconnect", 1001), ("raised", "Boom")], "history of a failing on_disconnect")
    elif how == "closes":
        x.eq(log, [("receive", d)] * n + [("disconnect", 1001)], "history of a closing handler")
        if n:
            x.eq([m["type"] for m in srv.sent], ["websocket.accept", "websocket.close"], "messages")
    elif how.startswith("cancel"):
        x.eq([e for e in log if e[0] == "receive"], [("receive", d)] * n, "frames before the cancellation")
        x.eq(log[-1][0], "disconnect", "the last call")
    x.outcome((case, tuple(map(repr, log))))


def cases_two(tier):
    for backend in ("asyncio", "trio"):
        for enc in ("text", "json", None):
            for fail in (None, 0, 1):
                if backend == "asyncio" or (enc == "text" and fail != 1):
                    yield (backend, enc, fail)


@C.family("two-connections", cases_two, "two connections to one endpoint class, in every order of their frames, do not mix")
def _(case, x):
    backend, enc, fail = case

    def run(ch):
        env = rt.Env(ch, early=1)
        logs = {}

        class E(WebSocketEndpoint):
            encoding = enc

            async def on_connect(self, websocket):
                self.name = websocket.query_params["n"]
                logs[self.name] = []
                await websocket.accept()

            async def on_receive(self, websocket, data):
                logs[self.name].append((data, websocket.query_params["n"]))
                if self.name == "A" and fail is not None and len(logs["A"]) == fail + 1:
                    raise Boom("A")
                await websocket.send_text("%s:%s" % (self.name, data))

            async def on_disconnect(self, websocket, close_code):
                logs[self.name].append(("disc", close_code))

        app = Starlette(routes=[WebSocketRoute("/ws", E)])
        srvs = {}
        excs = {}

        async def conn(name, vals, code):
            srv = srvs[name] = asgi.WSServer([{"type": "websocket.connect"}] + [frame("text", v, "absent") for v in vals] + [disc(code, "absent")], env=env, gate="r", name=name)
            try:
                await app(sc(query=b"n=" + name.encode()), srv.receive, srv.send)
            except Boom as exc:
                excs[name] = exc

        async def main():
            async with anyio.create_task_group() as tg:
                tg.start_soon(conn, "A", ["1", "2"], 1001)
                tg.start_soon(conn, "B", ["3", "4"], 1006)

        out = rt.run(main, env, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        dec = int if enc == "json" else str
        wa = [(dec("1"), "A"), (dec("2"), "A"), ("disc", 1001)]
        if fail is not None:
            wa = wa[:fail + 1] + [("disc", 1011)]
        x.eq(logs["A"], wa, "connection A (schedule %s)" % env.fired)
        x.eq(logs["B"], [(dec("3"), "B"), (dec("4"), "B"), ("disc", 1006)], "connection B (schedule %s)" % env.fired)
        x.eq([m.get("text") for m in srvs["B"].sent[1:]], ["B:3", "B:4"], "sent to B")
        x.eq([m.get("text") for m in srvs["A"].sent[1:]], ["A:1", "A:2"][:2 if fail is None else fail], "sent to A")
        x.eq("A" in excs, fail is not None, "A's error reaches the server")
        x.check("B" not in excs, "A's error reached B")
        x.outcome(tuple(env.fired))

    x.explore(run, bound=3)
