"""Harness side of ASGI: scopes, a recording server, response judging."""
from __future__ import annotations

import copy

from mc import rt
from mc.core import Stuck, Violation, short

MAX_MESSAGES = 5000


def scope(path="/", method="GET", headers=(), query=b"", type="http", root_path="", scheme=None, server=("testserver", 80),
          client=("testclient", 50000), raw_path=None, host=b"testserver", state=None, spec="2.3", extensions=None, **extra):
    hs = []
    if host is not None and not any(k == b"host" for k, _ in headers):
        hs.append((b"host", host))
    hs += [(k, v) for k, v in headers]
    s = {
        "type": type,
        "asgi": {"version": "3.0", "spec_version": spec},
        "http_version": "1.1",
        "scheme": scheme or ("ws" if type == "websocket" else "http"),
        "path": path,
        "raw_path": raw_path if raw_path is not None else path.encode("utf-8", "surrogateescape"),
        "root_path": root_path,
        "query_string": query,
        "headers": hs,
        "client": client,
        "server": server,
    }
    if type == "http":
        s["method"] = method
    else:
        s["subprotocols"] = []
    if state is not None:
        s["state"] = state
    if extensions is not None:
        s["extensions"] = extensions
    s.update(extra)
    return s


def body_messages(chunks):
    """http.request messages for a list of chunks (the last one is final)."""
    chunks = list(chunks) or [b""]
    return [
        {"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)
    ]


def snap(msg):
    if isinstance(msg, dict):
        out = {}
        for k, v in msg.items():
            if k == "headers":
                out[k] = [(bytes(a), bytes(b)) for a, b in v]
            elif isinstance(v, (bytes, str, int, bool, type(None))):
                out[k] = v
            elif isinstance(v, (bytearray, memoryview)):
                out[k] = v
            else:
                out[k] = v if callable(v) else copy.copy(v)
        return out
    return msg


class TransportError(OSError):
    pass


class Server:
    """Recording ASGI server side for one http or websocket exchange.

    env is None: answers immediately.  With an Env, `gate` names which calls
    are environment actions: 'r' receive, 's' send, and 'd' client disconnect.
    """

    def __init__(self, incoming=None, env=None, gate="", fail_at=None, fail_exc=TransportError, disconnect=None,
                 yields=False, spec=None, log=None, name="", gone="closed"):
        self.incoming = list(incoming if incoming is not None else body_messages([b""]))
        self.env = env
        self.gate = gate
        self.fail_at = fail_at  # index of the send() call that raises
        self.fail_exc = fail_exc
        self.yields = yields
        self.sent = []
        self.log = log if log is not None else []
        self.name = name
        self.receives = 0
        self.sends = 0
        self.disconnected = False
        self.complete = False
        self.started = False
        self._waiters = []
        self._dc_action = None
        self.after_disconnect = 0  # sends attempted after app was told about disconnect
        self.told = False
        self.told_fired = 0
        self.disconnect_fails = False  # spec 2.4: send raises once disconnected
        self.blocked_receives = 0
        if "d" in gate and env is not None:
            self._dc_action = env.add("disconnect" + name, self.hang_up, background=True)

    def hang_up(self):
        self.disconnected = True
        self.log.append(("hangup",))
        for ev in self._waiters:
            ev.set()

    async def receive(self):
        import anyio

        self.receives += 1
        if self.receives + self.sends > MAX_MESSAGES:
            raise Stuck("more than %d ASGI calls" % MAX_MESSAGES)
        if self.env is not None and "r" in self.gate and self.incoming and not self.disconnected:
            await rt.Gate(self.env).wait("recv" + self.name)
        elif self.yields:
            await anyio.lowlevel.checkpoint()
        if self.incoming and not (self.disconnected and self._drop_on_disconnect()):
            m = self.incoming.pop(0)
            self.log.append(("recv", m.get("type")))
            return dict(m)
        while not (self.disconnected or self.complete):
            ev = anyio.Event()
            self._waiters.append(ev)
            self.blocked_receives += 1
            await ev.wait()
        if not self.told and self.env is not None:
            self.told_fired = len(self.env.fired)
        self.told = True
        self.log.append(("recv", "http.disconnect"))
        return {"type": "http.disconnect"}

    def _drop_on_disconnect(self):
        return True

    async def send(self, message):
        import anyio

        i = self.sends
        self.sends += 1
        if self.receives + self.sends > MAX_MESSAGES:
            raise Stuck("more than %d ASGI calls" % MAX_MESSAGES)
        m = snap(message)
        if self.told:
            self.after_disconnect += 1
        if self.fail_at is not None and i >= self.fail_at:
            self.log.append(("sendfail", m.get("type")))
            raise self.fail_exc("transport closed")
        if self.disconnected and self.disconnect_fails:
            self.log.append(("sendfail", m.get("type")))
            raise self.fail_exc("client gone")
        if self.env is not None and ("s" in self.gate or ("1" in self.gate and i == 1)):
            await rt.Gate(self.env).wait("send" + self.name)
            if self.disconnected and self.disconnect_fails:
                self.log.append(("sendfail", m.get("type")))
                raise self.fail_exc("client gone")
        elif self.yields:
            await anyio.lowlevel.checkpoint()
        self.sent.append(m)
        self.log.append(("send", m.get("type"), m.get("status"), m.get("body"), m.get("more_body")))
        if m["type"] == "http.response.start":
            self.started = True
        if (m["type"] == "http.response.body" and not m.get("more_body", False)) or m["type"] == "http.response.pathsend":
            self.complete = True
            if self._dc_action is not None and self.env is not None:
                self.env.drop(self._dc_action)
            for ev in self._waiters:
                ev.set()


class Resp:
    """A judged http response."""

    __slots__ = ("status", "headers", "body", "complete", "chunks", "other")

    def __init__(self, status, headers, chunks, complete, other):
        self.status = status
        self.headers = headers
        self.chunks = chunks
        self.body = b"".join(chunks)
        self.complete = complete
        self.other = other

    def get(self, name):
        name = name.encode() if isinstance(name, str) else name
        vals = [v for k, v in self.headers if k.lower() == name]
        return vals[0] if vals else None

    def all(self, name):
        name = name.encode() if isinstance(name, str) else name
        return [v for k, v in self.headers if k.lower() == name]

    def key(self):
        return (self.status, tuple(self.headers), self.body, self.complete)

    def __repr__(self):
        return "<%s %s %s%s>" % (self.status, self.headers, short(self.body, 300), "" if self.complete else " INCOMPLETE")


def judge(messages, prefix="http.response", need_complete=True, allow_empty=False, framing=True):
    """Check a response message sequence against the ASGI grammar."""
    start = None
    chunks = []
    complete = False
    other = []
    for m in messages:
        t = m.get("type")
        if t == prefix + ".start":
            if start is not None:
                raise Violation("two response starts: %s" % short(messages))
            start = m
            if type(m.get("status")) is not int and not isinstance(m.get("status"), int):
                raise Violation("status is not an int: %s" % short(m))
            for h in m.get("headers", []):
                k, v = h
                if not isinstance(k, bytes) or not isinstance(v, bytes):
                    raise Violation("header is not a pair of bytes: %r" % (h,))
                if k != k.lower():
                    raise Violation("header name is not lower case: %r" % (h,))
        elif t == prefix + ".body":
            if start is None:
                raise Violation("body before start: %s" % short(messages))
            if complete:
                raise Violation("message after the final body message: %s" % short(messages))
            b = m.get("body", b"")
            if not isinstance(b, (bytes, bytearray, memoryview)):
                raise Violation("body is not bytes: %s" % short(m))
            chunks.append(bytes(b))
            if not m.get("more_body", False):
                complete = True
        else:
            other.append(m)
            if t and t.startswith(("http.response.push", "http.response.debug", "http.response.trailers",
                                   "http.response.pathsend")):
                if t == "http.response.pathsend":
                    complete = True
                continue
            raise Violation("unexpected message %s" % short(m))
    if start is None:
        if allow_empty:
            return None
        raise Violation("no response: %s" % short(messages))
    if need_complete and not complete:
        raise Violation("response has no final body message: %s" % short(messages))
    r = Resp(int(start["status"]), [(bytes(k), bytes(v)) for k, v in start.get("headers", [])], chunks, complete, other)
    if framing and complete:
        cl = r.all("content-length")
        if len(cl) > 1:
            raise Violation("several content-length headers: %r" % r)
        if cl and r.status not in (304,) and not any(m.get("type") == "http.response.pathsend" for m in other):
            if cl[0] != str(len(r.body)).encode():
                # a HEAD response may announce a length without a body
                if r.body:
                    raise Violation("content-length %r but %d body bytes: %r" % (cl[0], len(r.body), r))
    return r


class Exchange:
    __slots__ = ("server", "out", "resp", "exc")


def call(app, sc, incoming=None, backend="asyncio", env=None, threads=None, **kw):
    """Run one exchange to the end; returns (server, outcome)."""
    srv = Server(incoming, env=env, **kw)

    async def main():
        await app(sc, srv.receive, srv.send)

    if threads:
        with rt.vthreads(threads):
            out = rt.run(main, env, backend)
    else:
        out = rt.run(main, env, backend)
    return srv, out


def ok(app, sc, incoming=None, **kw):
    """One exchange that must end normally with a complete response."""
    jk = {k: kw.pop(k) for k in ("prefix", "framing") if k in kw}
    srv, out = call(app, sc, incoming, **kw)
    settled(out)
    if out.exc is not None:
        raise Violation("application raised %r; sent %s" % (out.exc, short(srv.sent))) from out.exc
    return judge(srv.sent, **jk)


def settled(out):
    if out.deadlock:
        raise Violation("deadlock: the call never finishes (fired %s)" % (out.env.fired[-30:],))
    if out.leaked:
        raise Violation("tasks left running after the call returned: %s (fired %s)" % (out.leaked, out.env.fired[-30:]))


def result(out):
    """The value of a run that must finish, with its exception raised."""
    settled(out)
    if out.exc is not None:
        raise Violation("raised %r" % (out.exc,)) from out.exc
    return out.value


def chunkings(data, maxparts=3, sizes=None):
    """All ways to cut data into at most maxparts contiguous parts, cut points anywhere."""
    n = len(data)
    yield [data]
    if maxparts >= 2:
        for i in range(0, n + 1):
            yield [data[:i], data[i:]]
    if maxparts >= 3:
        for i in range(0, n + 1):
            for j in range(i, n + 1):
                yield [data[:i], data[i:j], data[j:]]


class WSServer:
    """Recording websocket server: a script of client messages."""

    def __init__(self, incoming, fail_at=None, fail_exc=TransportError, env=None, gate="", name=""):
        self.name = name
        self.incoming = list(incoming)
        self.sent = []
        self.sends = 0
        self.receives = 0
        self.fail_at = fail_at
        self.fail_exc = fail_exc
        self.env = env
        self.gate = gate
        self.blocked = False

    async def receive(self):
        import anyio

        self.receives += 1
        if self.receives > MAX_MESSAGES:
            raise Stuck("too many receives")
        if self.env is not None and "r" in self.gate:
            await rt.Gate(self.env).wait("recv" + self.name)
        if self.incoming:
            return dict(self.incoming.pop(0))
        self.blocked = True
        await anyio.Event().wait()

    async def send(self, m):
        i = self.sends
        self.sends += 1
        if self.sends > MAX_MESSAGES:
            raise Stuck("too many sends")
        if self.env is not None and ("s" in self.gate or ("1" in self.gate and i == 1)):
            await rt.Gate(self.env).wait("send" + self.name)
        if self.fail_at is not None and i >= self.fail_at:
            raise self.fail_exc("transport closed")
        self.sent.append(snap(m))
