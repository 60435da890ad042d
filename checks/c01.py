"""C01 Responses emit a well-formed, complete message sequence."""
from __future__ import annotations

import array
import itertools
import json
import os
import shutil
import tempfile
from urllib.parse import unquote_to_bytes

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.datastructures import URL, Headers, MutableHeaders
from starlette.responses import (FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response,
                                 StreamingResponse)

C = Check("C01", ["event loop: real asyncio/trio loop with a controlled poll step", "file reads answered inline by the real filesystem"])

DIR = None


def setup():
    global DIR
    DIR = tempfile.mkdtemp(prefix="mc-c01-")


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


class Latin(Response):
    media_type = "text/plain"
    charset = "latin-1"


class Csv(Response):
    media_type = "text/csv"


class Bin(Response):
    media_type = "application/octet-stream"


CLASSES = {"Response": (Response, None, "utf-8"), "HTML": (HTMLResponse, "text/html", "utf-8"),
           "Plain": (PlainTextResponse, "text/plain", "utf-8"), "Latin": (Latin, "text/plain", "latin-1"),
           "Csv": (Csv, "text/csv", "utf-8"), "Bin": (Bin, "application/octet-stream", "utf-8")}

CONTENTS = [None, "", b"", "x", b"\x00\xff", "h\xe9llo", memoryview(b"mem"), "0" * 600, "\U0001f40d", memoryview(array.array("H", [1, 2, 3])), memoryview(b"abcdef")[::2]]
STATUSES = [200, 201, 199, 100, 101, 204, 205, 206, 304, 301, 404, 418, 500, 599]
HEADERS = [None, {}, {"X-A": "1"}, {"x-a": "1", "X-B": "caf\xe9"}, {"Content-Length": "7"}, {"content-type": "a/b"},
           {"Content-Type": "text/plain"}, {"content-type": "", "content-length": "0"}, {"content-typex": "q"},
           {"x-content-type": "q", "x-content-length": "9"}, {"set-cookie": "a=b", "vary": "x", "Content-Length": "3", "Content-Type": "z/z"}]
MEDIA = [None, "text/plain", "text/html; charset=latin-1", "text/html; CHARSET=utf-16", "text/xml", "text/plain; format=flowed", "application/json", "image/png", "textual/x", ""]


def model_headers(body_len, status, headers, media_type, charset):
    out = []
    given = {}
    for k, v in (headers or {}).items():
        out.append((k.lower().encode("latin-1"), v.encode("latin-1")))
        given[k.lower()] = v
    if body_len is not None and "content-length" not in given and status >= 200 and status not in (204, 304):
        out.append((b"content-length", b"%d" % body_len))
    if media_type is not None and "content-type" not in given:
        ct = media_type
        if ct.startswith("text/") and "charset=" not in ct.lower():
            ct += "; charset=" + charset
        out.append((b"content-type", ct.encode("latin-1")))
    return sorted(out)


def want_bytes(content, charset):
    if content is None:
        return b""
    return content.encode(charset) if isinstance(content, str) else bytes(content)


def send_twice(x, resp, sc, want_status, want_hdrs, want_body, ws=False, n=2):
    prefix = "websocket.http.response" if ws else "http.response"
    seqs = []
    for i in range(n):
        srv, out = asgi.call(resp, dict(sc))
        asgi.settled(out)
        if out.exc is not None:
            raise Violation("sending raised %r" % out.exc)
        r = asgi.judge(srv.sent, prefix=prefix, framing=False)
        x.step(len(srv.sent))
        x.eq(r.status, want_status, "status (send %d)" % i)
        x.eq(sorted(r.headers), want_hdrs, "headers (send %d)" % i)
        x.eq(r.body, want_body, "body (send %d)" % i)
        x.check(srv.receives == 0 or ws or True, "")
        seqs.append((r.key()))
    x.check(seqs[0] == seqs[-1], "second send differs", seqs)
    x.outcome(seqs[0])
    return r


def cases_rendered(tier):
    for cn in CLASSES:
        for hi in range(len(HEADERS)):
            for st in STATUSES:
                yield (cn, hi, st)


@C.family("rendered", cases_rendered, "class x headers x status; inside: content x media_type x scope type, each object sent twice")
def _(case, x):
    cn, hi, st = case
    cls, cls_media, charset = CLASSES[cn]
    for content in CONTENTS:
        for media in MEDIA:
            ws = (len(repr(content)) + MEDIA.index(media)) % 4 == 0 if x.tier == "quick" else None
            for is_ws in ([ws] if ws is not None else [False, True]):
                try:
                    want = want_bytes(content, charset)
                except UnicodeEncodeError:
                    want = None
                hdrs = None if HEADERS[hi] is None else dict(HEADERS[hi])
                try:
                    resp = cls(content, status_code=st, headers=hdrs, media_type=media)
                except UnicodeEncodeError:
                    x.check(want is None, "encodable content refused", content)
                    x.outcome("refused")
                    continue
                x.check(want is not None, "content the charset cannot represent was accepted", content)
                sc = asgi.scope(type="websocket" if is_ws else "http", method="POST")
                send_twice(x, resp, sc, st, model_headers(len(want), st, hdrs, media if media is not None else cls_media, charset), want, is_ws)
                if hdrs is not None:
                    x.eq(hdrs, HEADERS[hi], "the caller's header mapping was modified")


JSON_ATOMS = [None, True, False, 0, -1, 1.5, 1e100, 10**20, "", "a", "\xe9", "\u20ac", "\U0001f40d", '"', "\\", "/", "</script>", "\n", "\x00", "\u2028"]


def json_values(depth):
    if depth == 0:
        yield from JSON_ATOMS
        return
    yield from JSON_ATOMS
    yield []
    yield {}
    subs = list(json_values(depth - 1)) if depth > 1 else JSON_ATOMS
    for a in subs:
        yield [a]
        yield {"k": a}
        yield (a,)
    for a in JSON_ATOMS[:12]:
        for b in JSON_ATOMS[:12]:
            yield [a, b]
            yield {"b": a, "a": b}
            yield {"\xe9 ": [a, {"x": b}]}


def cases_json(tier):
    for i, v in enumerate(json_values(2)):
        yield v


@C.family("json", cases_json, "JSON values up to depth 3: compact UTF-8 that parses back, right length and type")
def _(v, x):
    r = JSONResponse(v)
    want = json.dumps(v, ensure_ascii=False, separators=(",", ":"), allow_nan=False).encode("utf-8")
    res = send_twice(x, r, asgi.scope(), 200, model_headers(len(want), 200, None, "application/json", "utf-8"), want)
    x.eq(json.loads(res.body), json.loads(json.dumps(v)), "JSON round trip")
    for bad in (float("nan"), [float("inf")], {"a": -float("inf")}):
        try:
            JSONResponse(bad)
        except ValueError:
            continue
        x.fail("non-finite float was serialised", bad)


CH = [b"", b"a", b"\xff\x00", "s", "\xe9\u20ac", memoryview(b"mv"), b"z" * 70000]


class AIter:
    def __init__(self, items, log):
        self.items = list(items)
        self.log = log
        self.i = 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.i >= len(self.items):
            raise StopAsyncIteration
        self.i += 1
        self.log.append(("pull", self.i - 1))
        return self.items[self.i - 1]


class SIter:
    def __init__(self, items, log):
        self.items = list(items)
        self.log = log

    def __iter__(self):
        for i, it in enumerate(self.items):
            self.log.append(("pull", i))
            yield it


def make_stream(kind, items, log):
    if kind == "agen":
        async def g():
            for i, it in enumerate(items):
                log.append(("pull", i))
                yield it
        return g()
    if kind == "aiter":
        return AIter(items, log)
    if kind == "gen":
        return iter(SIter(items, log))
    if kind == "iterable":
        return SIter(items, log)
    if kind == "list":
        return list(items)
    if kind == "tuple":
        return tuple(items)
    raise KeyError(kind)


KINDS = ["agen", "aiter", "gen", "iterable", "list", "tuple"]


def cases_stream(tier):
    for kind in KINDS:
        for n in range(0, 4 if tier == "quick" else 5):
            for tup in itertools.product(range(len(CH)), repeat=n):
                if n >= 3 and sum(1 for t in tup if t == 6) > 1:
                    continue
                for spec in (("2.0", "2.4") if n < 3 or tier != "quick" else ("2.3",) if sum(tup) % 2 else ("2.4",)):
                    yield (kind, tup, spec)


@C.family("stream", cases_stream, "every chunk list up to length 3 (thorough: 4), every iterable kind, both ASGI spec generations")
def _(case, x):
    kind, tup, spec = case
    items = [CH[i] for i in tup]
    log = []
    variants = [(200, None, None, None)]
    if len(tup) <= 1:
        variants += [(st, h, m, None) for st in (204, 304, 500) for h in (None, {"Content-Length": "5", "X-Y": "1"}, {"content-type": "q/q"}) for m in (None, "text/css", "a/b")]
    for st, h, m, _ in variants:
        del log[:]
        resp = StreamingResponse(make_stream(kind, items, log), status_code=st, headers=h, media_type=m)
        srv = asgi.Server(log=log)

        async def main():
            await resp(asgi.scope(spec=spec), srv.receive, srv.send)

        out = rt.run_asyncio(main)
        asgi.settled(out)
        if out.exc is not None:
            raise Violation("streaming raised %r" % out.exc)
        r = asgi.judge(srv.sent, framing=False)
        x.step(len(srv.sent))
        x.eq(r.status, st, "status")
        x.eq(sorted(r.headers), model_headers(None, st, h, m, "utf-8"), "headers")
        want = [want_bytes(c, "utf-8") for c in items]
        x.eq([c for c in r.chunks if c], [c for c in want if c], "chunks in order")
        # progress: chunk i reaches the client before chunk i+1 is produced
        if kind in ("agen", "aiter", "gen", "iterable"):
            sent = b""
            pulled = 0
            for e in log:
                if e[0] == "pull":
                    x.check(sent == b"".join(want[:e[1]]), "chunk %d was produced before the earlier chunks were sent" % e[1], log)
                    pulled += 1
                elif e[0] == "send" and e[1] == "http.response.body":
                    sent += bytes(e[3] or b"")
            x.eq(pulled, len(items), "number of chunks pulled")
        x.check(srv.log and [e for e in srv.log if e[0] == "send"][0][1] == "http.response.start", "start first")
        x.outcome(r.key())


RA = ["/", "a", " ", "\xe9", "%", "?", "#", "\n", "\r", "\\", '"', "<", "\u20ac", ":", "&", "=", "[", "~", "|", "\x00", "+", "@", "'", "%2F"]
SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~" + ":/%#?=@[]!$&'()*+,;")


def pct(s):
    return "".join(c if c in SAFE else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in s)


def cases_redirect(tier):
    n = 2 if tier == "quick" else 3
    for k in range(0, n + 1):
        for tup in itertools.product(RA, repeat=k):
            yield "".join(tup)
    yield "https://example.org/p a?q=\u20ac#f"
    yield "".join(chr(i) for i in range(32, 127))
    yield "".join(chr(i) for i in range(0, 256))


@C.family("redirect", cases_redirect, "redirect targets: all strings over a 24-symbol alphabet up to length 2 (thorough: 3), str and URL")
def _(target, x):
    for cls in (str, URL):
        for st, h in ((307, None), (303, {"X-Q": "1"}), (301, {"location": "/other"}), (302, {"Location": "/other", "x": "y"})):
            r = RedirectResponse(cls(target), status_code=st, headers=h)
            want = [(k.lower().encode(), v.encode()) for k, v in (h or {}).items() if k.lower() != "location"]
            want += [(b"content-length", b"0"), (b"location", pct(target).encode("ascii"))]
            send_twice(x, r, asgi.scope(), st, sorted(want), b"", n=1)
        x.check(b"\n" not in r.raw_headers[-1][1], "newline in header")


OPS = [("set", "x-a", "1"), ("set", "X-A", "2"), ("append", "x-a", "3"), ("setdefault", "x-a", "4"), ("setdefault", "content-type", "n/n"),
       ("del", "x-a"), ("del", "content-type"), ("set", "content-type", "k/k"), ("vary", "Q"), ("cookie", "c", "v"), ("update", "y", "5")]


def apply_op(resp, model, op):
    h = resp.headers
    k = op[0]
    name = op[1].lower().encode()
    if k == "set":
        h[op[1]] = op[2]
        idx = [i for i, (n, _) in enumerate(model) if n == name]
        if idx:
            model[idx[0]] = (name, op[2].encode())
            for i in reversed(idx[1:]):
                del model[i]
        else:
            model.append((name, op[2].encode()))
    elif k == "append":
        h.append(op[1], op[2])
        model.append((name, op[2].encode()))
    elif k == "setdefault":
        h.setdefault(op[1], op[2])
        if not any(n == name for n, _ in model):
            model.append((name, op[2].encode()))
    elif k == "del":
        del h[op[1]]
        model[:] = [m for m in model if m[0] != name]
    elif k == "vary":
        h.add_vary_header(op[1])
        old = [v for n, v in model if n == b"vary"]
        new = (b", ".join([old[0], op[1].encode()]) if old else op[1].encode())
        model[:] = [m for m in model if m[0] != b"vary"] + [(b"vary", new)]
    elif k == "cookie":
        resp.set_cookie(op[1], op[2])
        model.append((b"set-cookie", b"c=v; Path=/; SameSite=lax"))
    elif k == "update":
        h.update({op[1]: op[2]})
        model[:] = [m for m in model if m[0] != name] + [(name, op[2].encode())]


def cases_mut(tier):
    for cn in ("plain", "stream", "given", "file"):
        for n in range(0, 4 if tier == "quick" else 5):
            yield from ((cn, tup) for tup in itertools.product(range(len(OPS)), repeat=n))


@C.family("mutations", cases_mut, "all sequences of <=3 (thorough 4) header edits on a response before sending; the edits are what is sent")
def _(case, x):
    cn, tup = case
    if cn == "plain":
        r, model = PlainTextResponse("hi"), [(b"content-length", b"2"), (b"content-type", b"text/plain; charset=utf-8")]
    elif cn == "stream":
        r, model = StreamingResponse([b"h", b"i"], media_type="a/b"), [(b"content-type", b"a/b")]
    elif cn == "given":
        r, model = Response(b"hi", headers={"X-A": "0", "Vary": "z"}), [(b"x-a", b"0"), (b"vary", b"z"), (b"content-length", b"2")]
    else:
        p = os.path.join(DIR, "hi.bin")
        if not os.path.exists(p):
            with open(p + ".%d" % os.getpid(), "wb") as f:
                f.write(b"hi")
            os.utime(p + ".%d" % os.getpid(), (1000, 1000))
            os.replace(p + ".%d" % os.getpid(), p)
        r, model = FileResponse(p, media_type="a/b"), [(b"content-type", b"a/b"), (b"accept-ranges", b"bytes")]
    for i in tup:
        apply_op(r, model, OPS[i])
        x.state(tup, tuple(model))
        x.step()
    got = asgi.ok(r, asgi.scope())
    hd = list(got.headers)
    if cn == "file":
        hd = [h for h in hd if h[0] not in (b"etag", b"last-modified", b"content-length")]
        x.check(got.get("content-length") == b"2" and got.get("etag") and got.get("last-modified"), "stat headers missing", got)
    x.eq(sorted(hd), sorted(model), "headers sent after edits %s" % ([OPS[i] for i in tup],))
    x.eq(got.body, b"hi", "body")
    x.outcome(got.key())


NAMES = [None, "a.txt", "a b.txt", "\xe9.txt", 'q".bin', "n\nl.txt", "\u20ac.json", "a/b.txt", "%41.txt", "noext", "x.tar.gz", ";.txt"]
SIZES = [0, 1, 2, 65535, 65536, 65537, 131072, 131073]


def cases_file(tier):
    for size in SIZES:
        for meth in ("GET", "HEAD", "head", "POST"):
            for stat in (False, True):
                for st in (200, 404):
                    yield (size, meth, stat, st)


@C.family("file", cases_file, "file responses: sizes around the 64 KiB chunk, GET/HEAD, stat given or not; names x dispositions x headers inside; sent twice")
def _(case, x):
    size, meth, stat, st = case
    p = os.path.join(DIR, "f%d-%d" % (size, os.getpid()) + ".css")
    data = bytes((i * 7 + i // 251) % 256 for i in range(size))
    if not os.path.exists(p):
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1000000000, 1000000000))
    sr = os.stat(p)
    for name in NAMES if size <= 2 else [None, "a.txt"]:
        for disp in ("attachment", "inline"):
            for h, media in ((None, None), ({"X-A": "b"}, "q/r"), ({"Content-Disposition": "d", "ETag": '"e"', "Content-Type": "c/t"}, None), (None, "text/x")):
                r = FileResponse(p, status_code=st, headers=h, media_type=media, filename=name, stat_result=sr if stat else None, content_disposition_type=disp)
                keys = []
                for i in range(2):
                    got = asgi.ok(r, asgi.scope(method=meth))
                    x.step(2)
                    low = {k.lower(): v for k, v in (h or {}).items()}
                    x.eq(got.status, st, "status")
                    x.eq(got.all("content-length"), [b"%d" % size], "content-length")
                    x.eq(got.body, b"" if meth.upper() == "HEAD" else data, "file content")
                    x.eq(got.all("accept-ranges"), [b"bytes"], "accept-ranges")
                    x.eq(got.all("last-modified"), [b"Sun, 09 Sep 2001 01:46:40 GMT"], "last-modified")
                    et = got.all("etag")
                    x.check(len(et) == 1 and et[0][:1] == b'"' and et[0][-1:] == b'"', "etag", got)
                    if "etag" in low:
                        x.eq(et, [b'"e"'], "caller's etag kept")
                    if "x-a" in low:
                        x.eq(got.all("x-a"), [b"b"], "caller's header kept")
                    ct = got.all("content-type")
                    if "content-type" in low:
                        x.eq(ct, [b"c/t"], "caller's content-type")
                    elif media:
                        x.eq(ct, [b"q/r" if media == "q/r" else b"text/x; charset=utf-8"], "content-type")
                    else:
                        exp = {None: b"text/css; charset=utf-8", "\u20ac.json": b"application/json", 'q".bin': b"application/octet-stream", "x.tar.gz": b"application/x-tar"}
                        x.eq(ct, [exp.get(name, b"text/plain; charset=utf-8")], "guessed content-type for %r" % name)
                    cd = got.all("content-disposition")
                    if "content-disposition" in low:
                        x.eq(cd, [b"d"], "caller's content-disposition")
                    elif name is None:
                        x.eq(cd, [], "no content-disposition without filename")
                    else:
                        x.eq(len(cd), 1, "one content-disposition")
                        t, _, par = cd[0].partition(b"; ")
                        x.eq(t, disp.encode(), "disposition type")
                        if par.startswith(b"filename*=utf-8''"):
                            x.eq(unquote_to_bytes(par[17:]).decode("utf-8"), name, "filename* decodes to the name")
                            x.check(all(33 <= b < 127 and b not in b'";,\\' for b in par[17:]), "filename* is not a plain token", par)
                        else:
                            x.eq(par, b'filename="' + name.encode("ascii") + b'"', "quoted filename")
                            x.check(b'"' not in name.encode() and b"\\" not in name.encode(), "needs encoding", name)
                    keys.append(got.key())
                x.check(keys[0] == keys[1], "the same file response sent again differs", keys)
                x.outcome(keys[0])


def cases_growing(tier):
    for size in (0, 1, 7, 8, 9, 16):
        for chunk in (1, 3, 8, None):
            for stat in (False, True):
                yield (size, chunk, stat)


@C.family("growing", cases_growing, "the file grows by 1 to 20 bytes before each message of the response, chunks of every size: still one complete response with the length it announced, the beginning of the file")
def _(case, x):
    size, chunk, stat = case
    p = os.path.join(DIR, "grow-%d" % os.getpid())
    full = bytes(range(40))
    for meth in ("GET", "HEAD", "POST"):
        for more in (1, 8, 20):
            for at in range(size + 3):
                with open(p, "wb") as f:
                    f.write(full[:size])
                r = FileResponse(p, stat_result=os.stat(p) if stat else None)
                if chunk:
                    r.chunk_size = chunk
                sent = []

                async def receive():
                    return {"type": "http.request", "body": b"", "more_body": False}

                async def send(m):
                    if len(sent) == at:
                        with open(p, "ab") as f:
                            f.write(full[size:size + more])
                    sent.append(m)

                async def main():
                    await r(asgi.scope(method=meth), receive, send)

                with rt.vthreads("inline"):
                    asgi.result(rt.run(main))
                got = asgi.judge(sent)
                what = "%s of %d bytes (chunks of %s), %d more before message %d" % (meth, size, chunk, more, at)
                x.eq(got.all("content-length"), [b"%d" % size], "content-length: " + what)
                x.eq(got.body, b"" if meth == "HEAD" else full[:size], "body: " + what)
                x.step()
    os.unlink(p)
    x.outcome(case)


def cases_many(tier):
    kinds = ["resp", "json", "redirect", "stream", "html", "none"]
    for a in kinds:
        for b in kinds:
            yield (a, b)


def mk(kind):
    return {"resp": lambda: Response("x", headers={"A": "1"}), "json": lambda: JSONResponse({"a": 1}), "redirect": lambda: RedirectResponse("/x"),
            "stream": lambda: StreamingResponse([b"p", b"q"]), "html": lambda: HTMLResponse("<p>"), "none": lambda: Response()}[kind]()


@C.family("independent", cases_many, "two response objects never share headers: editing one leaves the other as built")
def _(case, x):
    a, b = case
    for editfirst in (False, True):
        for mut in (lambda r: r.headers.append("x-edit", "1"), lambda r: r.set_cookie("k", "v"), lambda r: r.headers.__setitem__("content-type", "z/z")):
            ref = asgi.ok(mk(b), asgi.scope()).key()
            r1 = mk(a)
            if editfirst:
                mut(r1)
                r2 = mk(b)
            else:
                r2 = mk(b)
                mut(r1)
            got = asgi.ok(r2, asgi.scope()).key()
            x.eq(got, ref, "response %s after editing another response (%s)" % (b, a))
            asgi.ok(r1, asgi.scope())
            got = asgi.ok(mk(b), asgi.scope()).key()
            x.eq(got, ref, "fresh response %s after sending another (%s)" % (b, a))
            x.outcome((a, b, got))


SHARED = {
    "dict": lambda: {"X-A": "1", "x-b": "2"},
    "dict-type": lambda: {"Content-Type": "a/b"},
    "headers": lambda: Headers({"x-a": "1"}),
    "mutable": lambda: MutableHeaders({"x-a": "1"}),
    "mutable-raw": lambda: MutableHeaders(raw=[(b"x-a", b"1"), (b"x-a", b"2")]),
    "scope": lambda: Headers(scope={"headers": [(b"x-a", b"1")]}),
    "of-response": lambda: StreamingResponse([b"x"], headers={"x-a": "1"}).headers,
}
MAKERS = {
    "text": lambda h, n: PlainTextResponse("t" * n, headers=h), "json": lambda h, n: JSONResponse([n], headers=h), "redirect": lambda h, n: RedirectResponse("/" + "r" * n, headers=h),
    "stream": lambda h, n: StreamingResponse([b"s"] * n, headers=h), "html": lambda h, n: HTMLResponse("h" * n, headers=h), "plain": lambda h, n: Response(headers=h),
}


def shared_cases(tier):
    for src in SHARED:
        for a in MAKERS:
            for b in MAKERS:
                yield src, a, b


@C.family("shared-headers", shared_cases, "every pair of responses built from one headers object (mappings of five kinds), with edits of the first or of the object in between: the second is as if built alone, the object unchanged")
def _(case, x):
    src, a, b = case
    for n1, n2 in itertools.product((0, 3, 11), repeat=2):
        for edit in range(4):
            ref = asgi.ok(MAKERS[b](SHARED[src](), n2), asgi.scope()).key()
            ref1 = asgi.ok(MAKERS[a](SHARED[src](), n1), asgi.scope()).key()
            h = SHARED[src]()
            before = list(h.items()), list(getattr(h, "raw", ()))
            r1 = MAKERS[a](h, n1)
            if edit == 1:
                r1.headers["x-a"] = "changed"
            if edit == 2:
                r1.set_cookie("a", "b")
            if edit == 3:
                asgi.ok(r1, asgi.scope())
            x.eq((list(h.items()), list(getattr(h, "raw", ()))), before, "the caller's headers after a response was built from them: %r" % (case,))
            r2 = MAKERS[b](h, n2)
            x.eq(asgi.ok(r2, asgi.scope()).key(), ref, "the second response of %r" % (case,))
            if not edit:
                x.eq(asgi.ok(r1, asgi.scope()).key(), ref1, "the first response of %r" % (case,))
            x.outcome((case, n1, n2, edit))
