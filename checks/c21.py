"""C21 Form limits are exact and failed parses leak nothing."""
from __future__ import annotations

import asyncio
import itertools
import sys
import tempfile
import weakref

import anyio

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.datastructures import Headers
from starlette.exceptions import HTTPException
from starlette.formparsers import MultiPartException, MultiPartParser
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route

C = Check("C21", [
    "a body that simply ends early is not an error (what arrived whole is the form); the file of its unfinished part belongs to nobody",
    "temporary files are made with tempfile.SpooledTemporaryFile",
])

TRACK = None
FAIL = None  # [n]: the n-th write to a tracked file fails
_init = tempfile.SpooledTemporaryFile.__init__
_write = tempfile.SpooledTemporaryFile.write


def setup():
    def init(self, *a, **kw):
        _init(self, *a, **kw)
        if TRACK is not None:
            TRACK.append(self)

    def write(self, *a):
        if FAIL is not None:
            FAIL[0] -= 1
            if FAIL[0] < 0:
                raise OSError(28, "No space left on device")
        return _write(self, *a)

    tempfile.SpooledTemporaryFile.__init__ = init
    tempfile.SpooledTemporaryFile.write = write


def teardown():
    tempfile.SpooledTemporaryFile.__init__ = _init
    tempfile.SpooledTemporaryFile.write = _write


class tracking:
    def __init__(self, spool=None, fail=None):
        self.spool, self.fail = spool, fail

    def __enter__(self):
        global TRACK, FAIL
        TRACK = []
        FAIL = [self.fail] if self.fail is not None else None
        self.old = MultiPartParser.spool_max_size
        if self.spool is not None:
            MultiPartParser.spool_max_size = self.spool
        return TRACK

    def __exit__(self, *a):
        global TRACK, FAIL
        for f in TRACK:
            f.close()
        TRACK = FAIL = None
        MultiPartParser.spool_max_size = self.old


B = b"bb"
CT = b"multipart/form-data; boundary=bb"


def pname(naming, k, i):
    return "%s%d" % (k, i) if naming is None else naming


def encode(parts, naming=None):
    """parts: (kind "f"/"t", content)."""
    out = b""
    for i, (k, c) in enumerate(parts):
        out += b'--bb\r\nContent-Disposition: form-data; name="%s"' % pname(naming, k, i).encode()
        out += b'; filename="n"\r\n\r\n' if k == "f" else b"\r\n\r\n"
        out += c + b"\r\n"
    return out + b"--bb--\r\n"


def sized(body, n):
    return [body[i:i + n] for i in range(0, len(body), n)] or [b""]


def messages(chunks):
    return [{"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)]


def request(msgs, in_app=False):
    it = iter(msgs)

    async def receive():
        m = next(it)
        if isinstance(m, BaseException):
            raise m
        return m

    sc = asgi.scope("/", "POST", headers=[(b"content-type", CT)])
    if in_app:
        sc["app"] = object()
    return Request(sc, receive)


async def contents(form):
    out = []
    for k, v in form.multi_items():
        out.append((k, v.encode() if isinstance(v, str) else await v.read()))
    return out


def verdict(x, parts, limits, in_app, res, files, what, naming=None):
    """res: ("form", items, states inside) or the exception."""
    mf, mt, ms = limits
    nf = sum(k == "f" for k, _ in parts)
    nt = sum(k == "t" for k, _ in parts)
    ok = nf <= mf and nt <= mt and all(len(c) <= ms for k, c in parts if k == "t")
    x.outcome((what, ok))
    if ok:
        x.check(isinstance(res, tuple), "%s was rejected: %r" % (what, res))
        want = [(pname(naming, k, i), c) for i, (k, c) in enumerate(parts)]
        x.check(res[1] == want, "%s gave %s" % (what, short(res[1])))
        x.check(not any(res[2]), "%s: a file was closed inside the context: %s" % (what, res[2]))
        x.eq(len(files), nf, "temporary files of " + what)
    else:
        x.check(isinstance(res, HTTPException if in_app else MultiPartException), "%s ended with %s" % (what, short(res)))
        if in_app:
            x.eq(res.status_code, 400, "status of " + what)
    x.check(all(f.closed for f in files), "%s: %d of %d temporary files left open" % (what, sum(not f.closed for f in files), len(files)), short(res))


async def parse(req, files, how, **kw):
    try:
        if how == "with":
            async with req.form(**kw) as form:
                return ("form", await contents(form), [f.closed for f in files])
        elif how == "close":
            form = await req.form(**kw)
            r = ("form", await contents(form), [f.closed for f in files])
            x = await req.form()
            assert x is form
            await req.close()
            return r
        else:
            try:
                async with req.form(**kw) as form:
                    r = ("form", await contents(form), [f.closed for f in files])
                    raise ZeroDivisionError
            except ZeroDivisionError:
                return r
    except (MultiPartException, HTTPException) as e:
        return e


def run(main):
    with rt.vthreads("inline"):
        return asgi.result(rt.run(main))


def limit_cases(tier):
    for mf, mt in itertools.product(range(4), repeat=2):
        for spool in (None, 0):
            yield (mf, mt, spool, 4 if tier == "quick" else 6)


@C.family("counts", limit_cases, "limits of 0-3 files x 0-3 fields x every order of up to 4 (6) fields and files x chunkings x with/without application x ways of leaving; one parse after another")
def counts(case, x):
    mf, mt, spool, depth = case
    for n in range(0, depth + 1):
        for kinds in itertools.product("ft", repeat=n):
            parts = [(k, b"v%d" % i) for i, k in enumerate(kinds)]
            for in_app, how, ch, naming in itertools.product((False, True), ("with", "close", "raise"), (1 << 20, 1, 40), (None, "", "x")):
                if ch == 1 and how != "with" or naming is not None and (in_app or ch == 1):
                    continue
                body = encode(parts, naming)
                with tracking(spool) as files:
                    res = run(lambda: parse(request(messages(sized(body, ch)), in_app), files, how, max_files=mf, max_fields=mt))
                    verdict(x, parts, (mf, mt, 1 << 20), in_app, res, files, "%s with limits %d/%d in chunks of %d (%s)" % ("".join(kinds), mf, mt, ch, how), naming)
                x.step()


def size_cases(tier):
    for ms in (0, 1, 2, 5):
        for spool in (None, 0, 3):
            yield (ms, spool)


@C.family("sizes", size_cases, "max_part_size x fields and files at -1/0/+1 of it, in every order x every single cut, byte by byte")
def sizes(case, x):
    ms, spool = case
    pool = [(k, b"x" * n) for k in "tf" for n in sorted({0, max(ms - 1, 0), ms, ms + 1})] + [("f", b"y" * (3 * ms + 7)), ("t", b"\r\n" * (ms // 2))]
    for n in (1, 2):
        for parts in itertools.product(pool, repeat=n):
            body = encode(parts)
            at = [i for i in range(len(body)) if n == 1 or i % 9 == 0]
            splits = [[body], sized(body, 1), sized(body, 7)] + [[body[:i], body[i:]] for i in at]
            for chunks in splits:
                with tracking(spool) as files:
                    res = run(lambda: parse(request(messages(chunks)), files, "with", max_part_size=ms))
                    verdict(x, parts, (9, 9, ms), False, res, files, "parts %s with max_part_size %d cut as %s" % (parts, ms, short(chunks)))
                x.step()


def default_cases(tier):
    M = 1 << 20
    for size in (M - 1, M, M + 1):
        for ch in (1 << 16, 1 << 20, 3 << 20, 99999):
            yield ("t", size, ch)
    yield ("f", M + 1, 1 << 16)
    yield ("f", 3 * M, 1 << 20)
    for n in (999, 1000, 1001):
        yield ("fields", n, 1 << 16)
        yield ("files", n, 1 << 16)
        yield ("inf", n, 1 << 16)


@C.family("defaults", default_cases, "the default limits: 1000 fields, 1000 files, 1 MiB parts, and infinite ones")
def defaults(case, x):
    kind, n, ch = case
    kw = {}
    if kind in "tf":
        parts = [("t", b"a"), (kind, b"z" * n), ("t", b"b" * 9)]
    elif kind == "inf":
        kw = {"max_files": float("inf"), "max_fields": float("inf")}
        parts = [("tf"[i % 2], b"") for i in range(2 * n)]
    else:
        parts = [("t" if kind == "fields" else "f", b"")] * n + [("f" if kind == "fields" else "t", b"1")] * 3
    body = encode(parts)
    with tracking() as files:
        res = run(lambda: parse(request(messages(sized(body, ch)), True), files, "with", **kw))
        verdict(x, parts, (9999, 9999, 1 << 20) if kw else (1000, 1000, 1 << 20), True, res, files, "%s" % (case,))
    with tracking() as files:
        async def direct():
            async def stream():
                for c in sized(body, ch):
                    yield c

            try:
                form = await MultiPartParser(Headers({"Content-Type": CT.decode()}), stream(), **kw).parse()
            except MultiPartException as e:
                return e
            r = ("form", await contents(form), [f.closed for f in files])
            await form.close()
            return r

        res = run(direct)
        verdict(x, parts, (9999, 9999, 1 << 20) if kw else (1000, 1000, 1 << 20), False, res, files, "%s given to the parser" % (case,))


# ---------------------------------------------------------------- failures everywhere

FAULTY = [("f", b"first"), ("t", b"text"), ("f", b"second\r\n-"), ("t", b"")]


class Boom(Exception):
    pass


def fault_cases(tier):
    for spool in (None, 0, 3):
        for kind in ("disconnect", "raise", "garbage", "colon", "cr", "drop", "disk", "boundary", "noname"):
            for step in (1, 13, 1000):
                yield (spool, kind, step)


@C.family("faults", fault_cases, "a body of files and fields failing at every byte: client gone, transport error, byte replaced or dropped, full disk, missing names; in memory and on disk x chunk sizes: whatever the error, no temporary file stays open")
def faults(case, x):
    spool, kind, step = case
    body = encode(FAULTY)
    kinds = set()
    for at in range(0, len(body) + 1):
        fail = None
        bad = body
        tail = []
        if kind in ("disconnect", "raise"):
            bad = body[:at]
            tail = [{"type": "http.disconnect"} if kind == "disconnect" else Boom()]
        elif kind in ("garbage", "colon", "cr"):
            bad = body[:at] + {"garbage": b"\x00", "colon": b":", "cr": b"\r"}[kind] + body[at + 1:]
        elif kind == "drop":
            bad = body[:at] + body[at + 1:]
        elif kind == "disk":
            fail = at
            if at > 20:
                break
        elif kind == "boundary":
            bad = body[:at] + b"\r\n--bb\r\n" + body[at:]
        else:
            bad = body[:at] + b'\r\n--bb\r\nContent-Disposition: form-data\r\n\r\nx' + body[at:]
        chunks = sized(bad, step)
        msgs = messages(chunks)
        if tail:
            msgs[-1]["more_body"] = True
            msgs += tail
        for in_app in (False, True) if step == 13 else (True,):
            with tracking(spool, fail) as files:
                async def main():
                    try:
                        async with request(msgs, in_app).form() as form:
                            uploads = [v.file for k, v in form.multi_items() if not isinstance(v, str)]
                            assert not any(f.closed for f in uploads)
                        return uploads
                    except Exception as e:
                        return e

                res = run(main)
                what = "%s at %d in chunks of %d, spool %s" % (kind, at, step, spool)
                kinds.add(type(res).__name__)
                if isinstance(res, list):
                    x.check(all(f.closed for f in res), "%s: files of the form left open" % what)
                else:
                    x.check(all(f.closed for f in files), "%s: %r left %d of %d temporary files open" % (what, res, sum(not f.closed for f in files), len(files)))
                if kind in ("disconnect", "raise"):
                    x.check(type(res).__name__ == {"disconnect": "ClientDisconnect", "raise": "Boom"}[kind], "%s ended with %r" % (what, res))
                if isinstance(res, (MultiPartException, HTTPException)):
                    x.check(isinstance(res, HTTPException) == in_app, "%s ended with %r" % (what, res))
                x.step()
    x.outcome((case, tuple(sorted(kinds))))


def cancel_cases(tier):
    for spool in (None, 0, 3):
        for step in (30, 1000):
            for backend in ("asyncio", "trio"):
                for where in ("parse", "use"):
                    yield (spool, step, backend, where)


@C.family("cancelled", cancel_cases, "the task is cancelled at every point of parsing or using the form, while data arrives and is written in any order: no temporary file stays open")
def cancelled(case, x):
    spool, step, backend, where = case
    body = encode(FAULTY)

    def go(ch):
        env = rt.Env(ch, early=1)
        with tracking(spool) as files:
            done = []

            async def main():
                srv = asgi.Server(messages(sized(body, step)), env=env, gate="r")
                req = Request(asgi.scope("/", "POST", headers=[(b"content-type", CT)]), srv.receive)
                with anyio.CancelScope() as cs:
                    env.add("cancel", cs.cancel, background=True)
                    async with req.form() as form:
                        done.append("parsed")
                        if where == "use":
                            await rt.Gate(env).wait("use")
                        done.append("used")
                return cs.cancelled_caught

            with rt.vthreads("env"):
                caught = asgi.result(rt.run(main, env=env, backend=backend))
            x.outcome((caught, tuple(done), len(files)))
            x.check(all(f.closed for f in files), "%d of %d temporary files left open" % (sum(not f.closed for f in files), len(files)), "cancelled %s, %s, fired %s" % (caught, done, env.fired))

    x.explore(go, 1 if x.tier == "quick" else 2, cap=3000 if x.tier == "quick" else 60000)


class generators:
    """The asynchronous generators first iterated inside, and those of them left to the garbage collector."""

    def __enter__(self):
        self.old = sys.get_asyncgen_hooks()
        self.live, self.dropped = [], []
        sys.set_asyncgen_hooks(self._first, self._final)
        return self

    def _first(self, g):
        self.live.append(weakref.ref(g))
        if self.old.firstiter:
            self.old.firstiter(g)

    def _final(self, g):
        self.dropped.append(g.__qualname__)
        if self.old.finalizer:
            self.old.finalizer(g)

    def __exit__(self, *a):
        sys.set_asyncgen_hooks(*self.old)
        self.dropped += [g().__qualname__ for g in self.live if g() is not None and g().ag_frame is not None]


def stream_cases(tier):
    for backend in ("asyncio", "trio"):
        for bad in ("files", "fields", "size", "name", "boundary", "garbage", "disk", "fine"):
            yield (backend, bad)


@C.family("streams", stream_cases, "each way a form can fail x chunk sizes x with/without application x both event loops: the request's body stream is not left suspended to the garbage collector")
def streams(case, x):
    backend, bad = case
    body = encode([("f", b"12345"), ("t", b"123"), ("f", b"")])
    ct, kw, fail = CT, {}, None
    if bad == "files":
        kw = {"max_files": 1}
    elif bad == "fields":
        kw = {"max_fields": 0}
    elif bad == "size":
        kw = {"max_part_size": 2}
    elif bad == "name":
        body = b"--bb\r\nContent-Disposition: form-data\r\n\r\n1\r\n" + body
    elif bad == "boundary":
        ct = b"multipart/form-data"
    elif bad == "garbage":
        body = body.replace(b"Content", b"\x00ontent")
    elif bad == "disk":
        fail = 0
    for step in range(1, len(body) + 1):
        for in_app in (False, True):
            with tracking(None, fail) as files:
                async def main():
                    req = request(messages(sized(body, step)), in_app)
                    req.scope["headers"] = [(b"content-type", ct)]
                    with generators() as gens:
                        try:
                            async with req.form(**kw) as form:
                                res = list(form)
                        except Exception as e:
                            res = e.with_traceback(None)
                            e.__context__ = e.__cause__ = None
                    return res, gens.dropped

                with rt.vthreads("inline"):
                    res, dropped = asgi.result(rt.run(main, backend=backend))
                x.check(isinstance(res, list) == (bad == "fine"), "%s in chunks of %d: %r" % (bad, step, res))
                x.check(not dropped, "%s in chunks of %d ended with %s and left %s suspended" % (bad, step, short(res), dropped))
                x.outcome((type(res).__name__, bool(files)))
                x.step()


# ---------------------------------------------------------------- inside applications

def app_cases(tier):
    for wrap in ("app", "mount", "subapp", "router"):
        for limit in ("files", "fields", "size", "name", "noboundary", "fine"):
            yield (wrap, limit)


@C.family("apps", app_cases, "exceeding each limit behind an application, a mount, a sub-application and a bare router: 400, or the exception; the next request is counted afresh")
def apps(case, x):
    wrap, limit = case

    async def endpoint(request):
        async with request.form(max_files=1, max_fields=1, max_part_size=3) as form:
            return PlainTextResponse(",".join(form))

    routes = [Route("/", endpoint, methods=["POST"])]
    if wrap == "app":
        app = Starlette(routes=routes)
    elif wrap == "mount":
        app = Starlette(routes=[Mount("/m", routes=routes)])
    elif wrap == "subapp":
        app = Starlette(routes=[Mount("/m", app=Starlette(routes=routes))])
    else:
        from starlette.routing import Router

        app = Router(routes)
    path = "/" if wrap in ("app", "router") else "/m/"
    good = encode([("f", b"12345"), ("t", b"123")])
    bad = {"files": encode([("f", b"1"), ("f", b"")]), "fields": encode([("t", b""), ("f", b"1"), ("t", b"")]), "size": encode([("f", b"1"), ("t", b"1234")]), "name": b'--bb\r\nContent-Disposition: form-data\r\n\r\n1\r\n--bb--\r\n', "noboundary": good, "fine": good}[limit]
    ct = b"multipart/form-data" if limit == "noboundary" else CT

    async def one(body, ct, ch):
        srv = asgi.Server(messages(sized(body, ch)))
        try:
            await app(asgi.scope(path, "POST", headers=[(b"content-type", ct)]), srv.receive, srv.send)
        except MultiPartException as e:
            return e
        return asgi.judge(srv.sent)

    with tracking(0) as files:
        async def main():
            return [await one(good, CT, 9), await one(bad, ct, 1), await one(good, CT, 1), await one(bad, ct, 999), await one(good, CT, 999)]

        res = run(main)
        for i in (0, 2, 4):
            x.check(res[i].status == 200 and res[i].body == b"f0,t1", "good form %d got %r" % (i, res[i]))
        for i in (1, 3):
            if limit == "fine":
                x.check(res[i].status == 200, "got %r" % res[i])
            elif wrap == "router":
                x.check(isinstance(res[i], MultiPartException), "got %r" % res[i])
            else:
                x.check(not isinstance(res[i], Exception) and res[i].status == 400, "got %r" % res[i])
        x.check(all(f.closed for f in files), "temporary files left open")
    x.outcome(case)
