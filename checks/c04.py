"""C04 Request body accessors agree for every chunking."""
from __future__ import annotations

import itertools
import json

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.requests import ClientDisconnect, Request
from starlette.responses import Response
from starlette.routing import Route

C = Check("C04", ["after a partial stream() the later readers see the remainder"])

MP = (b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--b\r\n'
      b'Content-Disposition: form-data; name="f"; filename="x"\r\n\r\nyz\r\n--b--\r\n')
BODIES = {
    "empty": (b"", b"application/json", None),
    "plain": (b"ab", b"text/plain", []),
    "json": (b'[1,{}]', b"application/json", []),
    "jsonu": ('"\xe9"'.encode(), b"application/json", []),
    "form": (b"a=1&b", b"application/x-www-form-urlencoded", [("a", "1"), ("b", "")]),
    "multi": (MP, b"multipart/form-data; boundary=b", [("a", "1"), ("f", ("x", b"yz"))]),
    "falsy": (b"{}", b"application/json", []),
    "notype": (b"ab", None, []),
}
CALLS = ["body", "json", "form", "stream", "stream1", "isdc"]


def messages(chunks, omit):
    """omit: drop the 'body' key of empty chunks and the 'more_body' key of the last one."""
    ms = asgi.body_messages(chunks)
    if omit:
        for m in ms:
            if not m["body"]:
                del m["body"]
            if not m["more_body"]:
                del m["more_body"]
    return ms


class Gone(Exception):
    pass


class Model:
    """Reference automaton. `ms`: what the server hands out (bytes chunks), dc: number of body messages before the
    disconnect (None: no disconnect)."""

    def __init__(self, kind, chunks, dc):
        self.kind = kind
        self.chunks = chunks
        self.dc = dc
        self.pos = 0  # next message the readers see
        self.fetched = 0  # how many the server handed out
        self.asked = 0  # receive() calls that must have been made
        self.consumed = False
        self.gone = False
        self.cbody = None
        self.cjson = False
        self.cform = None

    def next(self):
        if self.pos == self.fetched:
            self.asked += 1
            if self.dc is not None and self.fetched >= self.dc:
                self.gone = True
                raise Gone
            self.fetched += 1
        m = self.chunks[self.pos]
        self.pos += 1
        if self.pos == len(self.chunks):
            self.consumed = True
        return m

    def stream(self, limit=None):
        """(list of chunks, outcome)"""
        if self.cbody is not None:
            out = [self.cbody, b""]
            return (out if limit is None else out[:limit]), None
        if self.consumed:
            return [], "RuntimeError"
        out = []
        while not self.consumed:
            try:
                m = self.next()
            except Gone:
                return out, "ClientDisconnect"
            if m:
                out.append(m)
                if limit is not None and len(out) >= limit:
                    return out, None
        out.append(b"")
        return out, None

    def body(self):
        if self.cbody is None:
            got, err = self.stream()
            if err:
                return err
            self.cbody = b"".join(got)
        return ("body", self.cbody)

    def do(self, call, immediate):
        if call == "body":
            return self.body()
        if call == "json":
            b = self.body()
            if isinstance(b, str):
                return b
            try:
                return ("json", json.loads(b[1]))
            except ValueError as exc:
                return type(exc).__name__
        if call == "stream":
            return ("stream",) + self.stream()
        if call == "stream1":
            return ("stream",) + self.stream(1)
        if call == "isdc":
            if not self.gone:
                self.asked += 1
                if immediate:
                    if self.dc is not None and self.fetched >= self.dc:
                        self.gone = True
                    elif self.fetched < len(self.chunks):
                        self.fetched += 1
                    # otherwise receive() would block: cancelled
            return ("isdc", self.gone)
        if call == "form":
            if self.cform is None:
                if self.kind not in ("form", "multi"):
                    self.cform = []
                else:
                    whole = BODIES[self.kind][0]
                    if self.kind == "multi" and self.cbody is None and not self.consumed and any(self.chunks[: self.pos]):
                        self.cform = "partial"  # a multipart parser that starts in the middle: not specified
                        return "partial"
                    got, err = self.stream()
                    if err:
                        return err
                    if b"".join(got) == whole:
                        self.cform = BODIES[self.kind][2]
                    else:
                        self.cform = "partial"
                        return "partial"
            return ("form", self.cform)


async def do(req, call, keep):
    try:
        if call == "body":
            v = await req.body()
            keep.append(("body", v))
            return ("body", v)
        if call == "json":
            v = await req.json()
            keep.append(("json", v))
            return ("json", v)
        if call == "stream":
            out = []
            try:
                async for c in req.stream():
                    out.append(c)
            except Exception as exc:
                return ("stream", out, type(exc).__name__)
            return ("stream", out, None)
        if call == "stream1":
            out = []
            gen = req.stream()
            try:
                async for c in gen:
                    out.append(c)
                    break
            except Exception as exc:
                return ("stream", out, type(exc).__name__)
            finally:
                await gen.aclose()
            return ("stream", out, None)
        if call == "isdc":
            return ("isdc", await req.is_disconnected())
        if call == "form":
            v = await req.form()
            keep.append(("form", v))
            items = []
            for k, f in v.multi_items():
                if isinstance(f, str):
                    items.append((k, f))
                else:
                    await f.seek(0)
                    items.append((k, (f.filename, await f.read())))
            return ("form", items)
    except Exception as exc:
        return type(exc).__name__


def judge(x, model, seq, got, srv, keep, immediate):
    for i, call in enumerate(seq):
        want = model.do(call, immediate)
        if want == "partial" or model.cform == "partial":
            return  # a form parsed from a remainder: not specified
        x.eq(got[i], want, "call %d (%s) of %s" % (i, call, seq))
    x.eq(srv.receives, model.asked, "number of receive() calls for %s" % (seq,))
    for kind in ("body", "json", "form"):
        vals = [v for k, v in keep if k == kind]
        for v in vals[1:]:
            x.check(v is vals[0], "%s() is not cached" % kind, seq)


def seqs(depth, alphabet=CALLS):
    return itertools.product(alphabet, repeat=depth)


def chunk_lists(kind, tier):
    data = BODIES[kind][0]
    if kind == "multi":
        n = len(data)
        yield [data]
        for i in range(0, n + 1, 1 if tier != "quick" else 9):
            yield [data[:i], data[i:]]
        yield [data[i:i + 1] for i in range(n)]
        return
    seen = set()
    for c in asgi.chunkings(data, 3):
        if tuple(c) not in seen:
            seen.add(tuple(c))
            yield c
    if len(data) > 2:
        yield [data[i:i + 1] for i in range(len(data))]
        yield [b""] + [data[i:i + 1] for i in range(len(data))] + [b""]


def cases_seq(tier):
    for kind in BODIES:
        for chunks in chunk_lists(kind, tier):
            for dc in [None] + list(range(len(chunks) + 1)):
                if dc is not None and dc > 3 and dc != len(chunks):
                    continue
                yield (kind, tuple(chunks), dc)


def run_seq(x, kind, chunks, dc, seq, backend="asyncio", omit=False, yields=False):
    data, ct, _ = BODIES[kind]
    ms = messages(chunks, omit)
    if dc is not None:
        ms = ms[:dc]
    srv = asgi.Server(ms, yields=yields)
    if dc is not None:
        srv.disconnected = True
        srv._drop_on_disconnect = lambda: False
    keep = []
    got = []

    async def main():
        req = Request(asgi.scope(method="POST", headers=[(b"content-type", ct)] if ct else []), srv.receive)
        for call in seq:
            got.append(await do(req, call, keep))
        await req.close()

    out = rt.run(main, None, backend)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    judge(x, Model(kind, chunks, dc), seq, got, srv, keep, not yields)
    x.step(len(seq) + srv.receives)
    x.outcome((seq, tuple(map(repr, got)), srv.receives))


@C.family("sequences", cases_seq, "body x every chunking (<=3 parts anywhere, bytewise) x disconnect before every message x every sequence of 3 calls (thorough 4) of body/json/form/stream/partial stream/is_disconnected")
def _(case, x):
    kind, chunks, dc = case
    depth = 3 if x.tier == "quick" else 4
    if x.tier == "quick" and kind == "multi":
        depth = 2
    if kind == "plain":
        depth += 1
    for n, seq in enumerate(seqs(depth)):
        if kind == "multi" and "form" not in seq:
            continue
        run_seq(x, kind, chunks, dc, seq, omit=n % 2 == 1)
    for seq in seqs(2):
        run_seq(x, kind, chunks, dc, seq, omit=True)
        run_seq(x, kind, chunks, dc, seq, yields=True)


def cases_trio(tier):
    for kind in ("plain", "json", "form"):
        for chunks in chunk_lists(kind, tier):
            for dc in (None, len(chunks) - 1, len(chunks)):
                yield (kind, tuple(chunks), dc)


@C.family("trio", cases_trio, "the same on trio with call sequences of length 2")
def _(case, x):
    kind, chunks, dc = case
    if x.tier == "quick" and len(chunks) == 3 and b"" not in chunks:
        return
    for seq in seqs(2, ["body", "json", "form", "stream", "isdc"]):
        run_seq(x, kind, chunks, dc, seq, backend="trio")


def cases_sched(tier):
    for kind in ("plain", "json", "form"):
        data = BODIES[kind][0]
        for chunks in ([data], [data[:1], data[1:]], [data[:1], b"", data[1:]], [data, b""], [b"", data]):
            for backend in ("asyncio", "trio"):
                for mode in ("r", "rd"):
                    yield (kind, tuple(chunks), backend, mode)


@C.family("schedules", cases_sched, "gated receive and client disconnect at every point: call sequences of length <=3 with is_disconnected in between")
def _(case, x):
    kind, chunks, backend, mode = case
    data, ct, _ = BODIES[kind]
    calls = ["body", "stream", "isdc", "form" if kind == "form" else "json"]
    for seq in itertools.product(calls, repeat=3 if backend == "asyncio" else 2):
        def run(ch):
            env = rt.Env(ch, early=1)
            srv = asgi.Server(messages(chunks, False), env=env, gate=mode)
            srv.env_waits = 0
            got = []
            keep = []
            blocked = []

            async def main():
                req = Request(asgi.scope(method="POST", headers=[(b"content-type", ct)]), srv.receive)
                for call in seq:
                    fired = len(env.fired)
                    got.append(await do(req, call, keep))
                    if call == "isdc":
                        blocked.append(len(env.fired) - fired)

            out = rt.run(main, env, backend)
            asgi.settled(out)
            if out.exc is not None:
                raise out.exc
            # monitor: whatever the schedule, the bytes seen are a prefix of the body, complete unless disconnected
            whole = b"".join(chunks)
            done = False
            raised = False
            for call, g in zip(seq, got):
                if call == "isdc":
                    if raised:
                        x.check(g == ("isdc", True), "is_disconnected() is False after ClientDisconnect", seq, got)
                    if g == ("isdc", True):
                        x.check(srv.disconnected, "is_disconnected() without a disconnect", seq, got)
                    continue
                err = g if isinstance(g, str) else g[2] if g[0] == "stream" else None
                if err == "ClientDisconnect":
                    x.check(srv.disconnected, "ClientDisconnect without a disconnect", seq, got)
                    raised = True
                    part = b"".join(g[1]) if not isinstance(g, str) else b""
                    x.check(whole.startswith(part), "bytes changed", got)
                elif err == "RuntimeError":
                    x.check(done, "RuntimeError although nothing was consumed", seq, got)
                elif err == "JSONDecodeError":
                    x.check(kind == "form" or kind == "plain", "json failed", seq, got)
                    done = True
                elif err is not None:
                    x.fail("unexpected %s" % err, seq, got)
                else:
                    if g[0] == "body":
                        x.eq(g[1], whole, "body()")
                    elif g[0] == "stream":
                        # a stream after an interrupted stream continues with the rest
                        if not raised:
                            x.eq(b"".join(g[1]), whole, "stream()")
                        x.eq(g[1][-1], b"", "stream() ends with an empty chunk")
                    elif g[0] == "form":
                        x.eq(g[1], BODIES[kind][2], "form()")
                    elif g[0] == "json":
                        x.eq(g[1], json.loads(whole), "json()")
                    done = True
            x.state(seq, tuple(env.fired))
            x.outcome((seq, tuple(map(repr, got)), srv.disconnected))

        x.explore(run, 1 if x.tier == "quick" else 2)


def cases_app(tier):
    for kind in ("plain", "json", "form", "empty"):
        for chunks in list(chunk_lists(kind, tier))[:: 1 if tier != "quick" else 3]:
            yield (kind, tuple(chunks))


@C.family("endpoint", cases_app, "the same through a routed endpoint")
def _(case, x):
    kind, chunks = case
    data, ct, _ = BODIES[kind]
    for seq in seqs(2):
        got = []
        keep = []

        async def ep(request):
            for call in seq:
                got.append(await do(request, call, keep))
            return Response(b"")

        app = Starlette(routes=[Route("/", ep, methods=["POST"])])
        srv, out = asgi.call(app, asgi.scope(method="POST", headers=[(b"content-type", ct)] if ct else []),
                             messages(chunks, False))
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        asgi.judge(srv.sent)
        judge(x, Model(kind, chunks, None), seq, got, srv, keep, True)
        x.outcome((seq, tuple(map(repr, got))))


SIZES = [1, 2, 3, 5, 255, 256, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]


def cases_size(tier):
    for n in SIZES:
        for parts in (1, 2, 3, 7):
            yield (n, parts)
    for parts in (50, 1000, 3000):
        yield (parts, parts)
        yield (0, parts)


@C.family("sizes", cases_size, "sizes around 256, 1024, 4096, 64 KiB and 1 MiB; up to 3000 messages")
def _(case, x):
    n, parts = case
    data = bytes(i * 7 % 251 for i in range(n))
    step = max(1, -(-n // parts))
    chunks = [data[i:i + step] for i in range(0, n, step)]
    chunks += [b""] * (parts - len(chunks))
    if n == 0:
        chunks = [b""] * parts
    for seq in (("body", "stream"), ("stream", "body"), ("isdc", "body")):
        srv = asgi.Server(messages(chunks, False))
        got = []

        async def main():
            req = Request(asgi.scope(method="POST"), srv.receive)
            for call in seq:
                got.append(await do(req, call, []))

        out = rt.run(main)
        asgi.settled(out)
        judge(x, Model("notype", chunks, None), seq, got, srv, [], True)
        x.outcome((seq, n, parts))


def cases_form_after(tier):
    for kind in ("form", "multi"):
        for chunks in list(chunk_lists(kind, tier))[:: 1 if tier != "quick" else 2]:
            yield (kind, tuple(chunks))


@C.family("form-context", cases_form_after, "form() awaited, as async context manager, twice, and after body(): same fields")
def _(case, x):
    kind, chunks = case
    data, ct, want = BODIES[kind]
    for pre in ((), ("body",), ("isdc",), ("isdc", "isdc", "isdc", "isdc")):
        for how in ("await", "with", "with-await", "await-with"):
            srv = asgi.Server(messages(chunks, False))
            res = []

            async def main():
                req = Request(asgi.scope(method="POST", headers=[(b"content-type", ct)]), srv.receive)
                for c in pre:
                    await do(req, c, [])

                async def items(form):
                    out = []
                    for k, f in form.multi_items():
                        if isinstance(f, str):
                            out.append((k, f))
                        else:
                            await f.seek(0)
                            out.append((k, (f.filename, await f.read())))
                    return out

                files = []
                for h in how.split("-"):
                    if h == "await":
                        form = await req.form()
                        res.append(await items(form))
                    else:
                        async with req.form() as form:
                            res.append(await items(form))
                            files += [f for _, f in form.multi_items() if not isinstance(f, str)]
                            for f in files:
                                x.check(not f.file.closed, "file closed inside the form context")
                        for f in files:
                            x.check(f.file.closed, "file open after the form context")
                        break
                await req.close()

            out = rt.run(main)
            asgi.settled(out)
            if out.exc is not None:
                raise out.exc
            for r in res:
                x.eq(r, want, "form items via %s after %s" % (how, pre))
            x.outcome((how, pre, len(chunks)))
