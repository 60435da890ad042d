"""C28 Sessions round-trip and cannot be forged."""
from __future__ import annotations

import base64
import copy
import itertools
import json

import anyio
import itsdangerous.timed

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.datastructures import Secret
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute

C = Check("C28", [
    "session data is JSON; a cookie is signed with the key by this middleware only; max_age is None or not negative",
    "the encoding of a signature has unused bits: a cookie whose signature decodes to the same bytes is the same cookie; so is one with white space around it",
    "changes are stored when they are made before the response starts and the response comes from the application inside the middleware",
])

NOW = [1_700_000_000]


class _Time:
    @staticmethod
    def time():
        return NOW[0]


def setup():
    itsdangerous.timed.time = _Time


def teardown():
    import time

    itsdangerous.timed.time = time


# ---------------------------------------------------------------- the application

OPS = {
    "read": lambda s: None,
    "a1": lambda s: s.__setitem__("a", 1),
    "a2": lambda s: s.__setitem__("a", "2\xe9\u20ac\";, \\"),
    "nest": lambda s: s.__setitem__("n", {"l": [1, {"x": None}], "f": 1.5, "": True}),
    "deep": lambda s: s["n"]["l"].append("z") if "n" in s else s.update(n={"l": []}),
    "del": lambda s: s.pop("a", None),
    "clear": lambda s: s.clear(),
    "replace": lambda s: (s.clear(), s.update(b=[0])),
    "default": lambda s: s.setdefault("d", 0),
    "false": lambda s: s.update({"a": False, "z": None}),
    "bounce": lambda s: (s.__setitem__("t", 1), s.pop("t")),
}


def endpoint(kind):
    async def view(request):
        before = copy.deepcopy(dict(request.session))
        OPS[request.query_params["op"]](request.session)
        if kind == "json":
            return JSONResponse(before)
        if kind == "stream":
            return StreamingResponse(iter([json.dumps(before)]))
        if kind == "cookies":
            r = JSONResponse(before)
            r.set_cookie("other", "1")
            r.delete_cookie("gone")
            return r
        if kind == "error":
            raise HTTPException(418, json.dumps(before))
        if kind == "redirect":
            return RedirectResponse("/x", headers={"x-before": json.dumps(before)})

    return view


KINDS = ["json", "stream", "cookies", "error", "redirect", "raw"]


async def raw(scope, receive, send):
    before = copy.deepcopy(dict(scope["session"]))
    OPS[scope["query_string"].decode().partition("=")[2]](scope["session"])
    await send({"type": "http.response.start", "status": 200})
    await send({"type": "http.response.body", "body": json.dumps(before).encode()})


async def ws_view(websocket):
    await websocket.accept()
    before = dict(websocket.session)
    OPS[websocket.query_params["op"]](websocket.session)
    await websocket.send_json(before)
    await websocket.close()


def make(cfg, place="middleware"):
    routes = [Route("/" + k, endpoint(k)) for k in KINDS[:-1]] + [Route("/raw", raw_endpoint), WebSocketRoute("/ws", ws_view)]
    if place == "around":
        return SessionMiddleware(Starlette(routes=routes), **cfg)
    if place == "mount":
        return Starlette(routes=[Mount("/m", app=SessionMiddleware(Starlette(routes=routes), **cfg))])
    if place == "base":
        async def through(request, call_next):
            return await call_next(request)

        return Starlette(routes=routes, middleware=[Middleware(SessionMiddleware, **cfg), Middleware(BaseHTTPMiddleware, dispatch=through)])
    return Starlette(routes=routes, middleware=[Middleware(SessionMiddleware, **cfg)])


class raw_endpoint:
    def __init__(self, scope, receive, send):
        self.a = (scope, receive, send)

    def __await__(self):
        return raw(*self.a).__await__()


# ---------------------------------------------------------------- the browser

def set_cookies(r):
    out = []
    for v in r.all("set-cookie"):
        first, *attrs = [p.strip() for p in v.decode("latin-1").split(";")]
        name, _, value = first.partition("=")
        d = {}
        for a in attrs:
            k, _, av = a.partition("=")
            if k.lower() in d:
                raise Violation("attribute %s twice: %r" % (k, v))
            d[k.lower()] = av
        out.append((name, value, d))
    return out


def check_cookie(cfg, attrs, expired):
    """The attributes are the configured ones."""
    want = {"path": cfg.get("path", "/"), "httponly": "", "samesite": cfg.get("same_site", "lax")}
    if cfg.get("https_only"):
        want["secure"] = ""
    if cfg.get("domain"):
        want["domain"] = cfg["domain"]
    got = dict(attrs)
    if expired:
        if got.pop("max-age", None) != "0" and got.pop("expires", None) != "Thu, 01 Jan 1970 00:00:00 GMT":
            raise Violation("the cookie is not expired: %s" % attrs)
        got.pop("expires", None)
    else:
        age = cfg.get("max_age", 14 * 24 * 3600)
        if age is not None:
            want["max-age"] = str(age)
    if got != want:
        raise Violation("cookie attributes %s, expected %s" % (got, want))


class Browser:
    def __init__(self, app, cfg, prefix=""):
        self.app, self.cfg, self.prefix = app, cfg, prefix
        self.name = cfg.get("session_cookie", "session")
        self.cookie = None
        self.log = []

    def headers(self, cookie):
        hs = [b"before=1"]
        if cookie is not None:
            hs.append((self.name + "=" + cookie).encode("latin-1"))
        hs.append(b"after=2")
        return [(b"cookie", b"; ".join(hs))]

    async def send(self, kind, op, cookie=None, srv=None):
        """-> (what the endpoint saw, set-cookie or None)"""
        if kind == "ws":
            ws = asgi.WSServer([{"type": "websocket.connect"}])
            await self.app(asgi.scope(self.prefix + "/ws", type="websocket", query=b"op=" + op.encode(), headers=self.headers(cookie)), ws.receive, ws.send)
            text = [m["text"] for m in ws.sent if m["type"] == "websocket.send"]
            return json.loads(text[0]), None
        srv = srv or asgi.Server()
        await self.app(asgi.scope(self.prefix + "/" + kind, query=b"op=" + op.encode(), headers=self.headers(cookie)), srv.receive, srv.send)
        r = asgi.judge(srv.sent)
        mine = [c for c in set_cookies(r) if c[0] == self.name]
        others = [c[0] for c in set_cookies(r) if c[0] != self.name]
        if len(mine) > 1 or others != (["other", "gone"] if kind == "cookies" else []):
            raise Violation("cookies set: %s" % r.all("set-cookie"))
        status = {"error": 418, "redirect": 307}.get(kind, 200)
        if r.status != status:
            raise Violation("%s answered %r" % (kind, r))
        before = json.loads(r.get("x-before") if kind == "redirect" else r.body)
        return before, (mine[0] if mine else None)

    async def step(self, kind, op, model):
        """One request; returns the model after it."""
        before, cookie = await self.send(kind, op, self.cookie)
        if before != model or json.dumps(before, sort_keys=True) != json.dumps(model, sort_keys=True):
            raise Violation("%s %s saw %s, expected %s" % (kind, op, short(before), short(model)))
        if kind == "ws":
            return model
        after = copy.deepcopy(model)
        OPS[op](after)
        if not after and not model:
            if cookie is not None and self.cookie is None:
                raise Violation("an untouched empty session set the cookie %s" % (cookie,))
        if after:
            if cookie is None:
                raise Violation("%s %s: the session %s was not stored" % (kind, op, short(after)))
            check_cookie(self.cfg, cookie[2], False)
            self.cookie = cookie[1]
        elif model:
            if cookie is None:
                raise Violation("%s %s: the cookie of the cleared session was not expired" % (kind, op))
            check_cookie(self.cfg, cookie[2], True)
            self.cookie = None
        return after


DEFAULT = {"secret_key": "k"}
CONFIGS = [
    DEFAULT,
    {"secret_key": Secret("k"), "session_cookie": "sid", "max_age": None, "path": "/app", "same_site": "strict"},
    {"secret_key": "\xe9 long key" * 9, "max_age": 1, "https_only": True, "same_site": "none", "domain": "example.org"},
    {"secret_key": "x", "session_cookie": "before2", "max_age": 100, "domain": ".e.org", "path": "/"},
    {"secret_key": "k", "https_only": True, "max_age": None, "same_site": "lax"},
]


def history_cases(tier):
    for c in range(len(CONFIGS)):
        for first in OPS:
            for kind in KINDS:
                yield (c, first, kind, (4 if kind == "json" and c == 0 else 3) + (tier != "quick"))


@C.family("histories", history_cases, "every history of 3-4 (4-5) requests out of 11 session operations x configurations x ways of responding: each sees what the one before stored; the cookie is set, renewed, expired and formed as configured")
def histories(case, x):
    c, first, kind, depth = case
    cfg = CONFIGS[c]

    async def main():
        app = make(cfg)
        for rest in itertools.product(OPS, repeat=depth - 1):
            if depth > 3 and kind != "json" and len(set(rest)) > 2:
                continue
            b = Browser(app, cfg)
            model = {}
            for i, op in enumerate((first,) + rest):
                try:
                    model = await b.step(kind if i % 2 == 0 else "json", op, model)
                except Violation as e:
                    x.fail("%s (in %s)" % (e, (first,) + rest))
            x.step(depth)
            x.outcome(json.dumps(model, sort_keys=True))

    asgi.result(rt.run(main))


def place_cases(tier):
    for place in ("middleware", "around", "mount", "base"):
        for c in range(len(CONFIGS)):
            yield (place, c)


@C.family("places", place_cases, "the middleware in an application, around one, on a mounted one, outside other middleware x every sequence of 3 ways of responding, websockets included")
def places(case, x):
    place, c = case
    cfg = CONFIGS[c]

    async def main(first, second):
        app = make(cfg, place)
        for kinds in itertools.product([first], [second], KINDS + ["ws"]):
            for ops in (("a1", "deep", "read"), ("nest", "clear", "read"), ("read", "false", "clear"), ("a2", "read", "del")):
                b = Browser(app, cfg, "/m" if place == "mount" else "")
                model = {}
                for kind, op in zip(kinds, ops):
                    try:
                        model = await b.step(kind, op, model)
                    except Violation as e:
                        x.fail("%s (in %s %s)" % (e, kinds, ops))
                x.step(3)

    for first, second in itertools.product(KINDS + ["ws"], repeat=2):
        asgi.result(rt.run(lambda: main(first, second)))
    x.outcome(case)


# ---------------------------------------------------------------- forgery

def same(a, b):
    """Is b the same cookie as a, as far as any decoder can tell?"""
    if a == b.strip():
        return True
    pa, _, sa = a.rpartition(".")
    pb, sep, sb = b.strip().rpartition(".")
    if pa != pb or not sep:
        return False
    try:
        raw_ = sb.encode("utf-8")
        return base64.urlsafe_b64decode(raw_ + b"=" * (-len(raw_) % 4)) == base64.urlsafe_b64decode(sa + "=" * (-len(sa) % 4))
    except Exception:
        return False


ALPHA = [chr(c) for c in range(33, 127)] + ["\xe9", "\t", " "]


def variants(v, other, tier):
    yield ""
    for i in range(len(v)):
        for ch in ALPHA if tier != "quick" or i % 5 == 0 or i > len(v) - 4 else "Aa0.=_-/+\"\\;, ":
            if ch != v[i]:
                yield v[:i] + ch + v[i + 1:]
        yield v[:i]
        yield v[i:] if i else "x"
        yield v[:i] + v[i + 1:]
        if i + 1 < len(v) and v[i] != v[i + 1]:
            yield v[:i] + v[i + 1] + v[i] + v[i + 2:]
    for i in range(len(v) + 1):
        for ch in ("A", ".", "=", "\xe9", "\"", "-", "%"):
            yield v[:i] + ch + v[i:]
    a, b = v.split("."), other.split(".")
    for mix in itertools.product((0, 1), repeat=3):
        yield ".".join((b if m else a)[i] for i, m in enumerate(mix))
    for perm in itertools.permutations(a):
        yield ".".join(perm)
    yield ".".join(a[:2])
    yield ".".join(a[1:])
    yield a[0]
    yield v + "." + a[2]
    yield a[0] + "." + v
    yield v + v
    yield '"%s"' % a[0]
    for junk in ("null", "{}", "e30=", "a.b", "a.b.c", "..", "...", "%00", "\"", "\"\"", "=", "eyJhIjogMX0=", "\\073"):
        yield junk
    for payload in ({}, {"admin": 1}, [], None, "x"):
        p = base64.b64encode(json.dumps(payload).encode()).decode()
        yield ".".join([p] + a[1:])
        yield p


def forge_cases(tier):
    for c in range(len(CONFIGS)):
        for op in ("a1", "nest"):
            for part in range(8):
                yield (c, op, part)


@C.family("forged", forge_cases, "every single-character change (all printable characters), deletion, insertion, transposition, truncation, and recombination of valid cookies, other payloads, other keys: an empty session, never an error, on http and websockets; and no cookie is set for it")
def forged(case, x):
    c, op, part = case
    cfg = CONFIGS[c]

    async def main():
        NOW[0] = 1_700_000_000
        app = make(cfg)
        b = Browser(app, cfg)
        _, cookie = await b.send("json", op)
        NOW[0] += 1
        _, other = await b.send("json", "false")
        b2 = Browser(make({**cfg, "secret_key": "another"}), cfg)
        _, foreign = await b2.send("json", op)
        real = (await b.send("json", "read", cookie[1]))[0]
        x.check(bool(real), "the valid cookie gave %s" % real)
        n = 0
        for i, v in enumerate([foreign[1]] + sorted(set(variants(cookie[1], other[1], x.tier)))):
            if i % 8 != part or v == other[1]:
                continue
            is_same = same(cookie[1], v.partition(";")[0]) or same(other[1], v.partition(";")[0])
            for kind in ("json", "ws"):
                got, new = await b.send(kind, "read", v)
                if got != {}:
                    x.check(is_same and got in (real, {"a": False, "z": None}), "the cookie %r gave the session %s (%r gives %s)" % (v, got, cookie[1], real))
                else:
                    x.check(new is None, "the cookie %r set %s" % (v, new))
                n += 1
            if n % 40 == 0:
                got, new = await b.send("json", "a1", v)
                x.check(got == {} and new is not None or is_same, "the cookie %r: %s" % (v, got))
        x.step(n)

    asgi.result(rt.run(main))
    x.outcome(case)


def age_cases(tier):
    for c in range(len(CONFIGS)):
        yield c
    yield "zero"


@C.family("age", age_cases, "cookies presented at every second around their age limit and long after, re-issued at each: valid up to max_age after they were last set, then empty; for ever without max_age")
def age(case, x):
    if case == "zero":
        # No age at all: whatever the cookie looks like, the session is over when time has passed.
        cfg = {"secret_key": "k", "max_age": 0}

        async def zero():
            b = Browser(make(cfg), cfg)
            NOW[0] = 1_700_000_000
            _, cookie = await b.send("json", "a1")
            for d in (1, 2, 60, 86400):
                for kind in ("json", "ws", "raw"):
                    NOW[0] = 1_700_000_000 + d
                    got, _ = await b.send(kind, "read", cookie[1])
                    x.check(got == {}, "after %d seconds (max_age 0): %s" % (d, got))

        asgi.result(rt.run(zero))
        x.outcome(case)
        return
    cfg = CONFIGS[case]
    limit = cfg.get("max_age", 14 * 24 * 3600)

    async def main():
        start = 1_700_000_000
        app = make(cfg)
        b = Browser(app, cfg)
        NOW[0] = start
        _, cookie = await b.send("json", "a1")
        steps = [0, 1] + ([limit - 1, limit, limit + 1, limit + 2, 2 * limit, limit + 10 ** 6] if limit else [10 ** 6, 10 ** 9])
        for d in steps:
            for kind in ("json", "ws", "raw"):
                NOW[0] = start + d
                got, new = await b.send(kind, "read", cookie[1])
                ok = limit is None or d <= limit
                x.check(got == ({"a": 1} if ok else {}), "after %d seconds (max_age %s): %s" % (d, limit, got))
                if kind == "ws":
                    continue
                x.check((new is not None) == ok, "after %d seconds: cookie %s" % (d, new))
                if ok:
                    for d2 in steps:
                        NOW[0] = start + d + d2
                        got, _ = await b.send("json", "read", new[1])
                        x.check(got == ({"a": 1} if limit is None or d2 <= limit else {}), "renewed after %d, used after %d more: %s" % (d, d2, got))
                        x.step()
        NOW[0] = start - 1000
        if limit is not None:
            got, _ = await b.send("json", "read", cookie[1])
            x.check(got in ({}, {"a": 1}), "a cookie of the future: %s" % got)

    try:
        asgi.result(rt.run(main))
    finally:
        NOW[0] = 1_700_000_000
    x.outcome(case)


# ---------------------------------------------------------------- several clients

def parallel_cases(tier):
    for a in ("a1", "clear", "deep", "read"):
        for b in ("a2", "clear", "nest", "read"):
            for share in (False, True):
                for kinds in (("json", "json"), ("raw", "stream")):
                    yield (a, b, share, kinds)


@C.family("parallel", parallel_cases, "two requests at the same time, of one client or two, every order of their sends: each starts from its cookie and stores its own changes")
def parallel(case, x):
    a, b, share, kinds = case

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)
        out = [None, None]
        starts = []

        async def main():
            NOW[0] = 1_700_000_000
            app = make(DEFAULT)
            br = Browser(app, DEFAULT)
            _, c1 = await br.send("json", "nest")
            _, c2 = await br.send("json", "default") if not share else (None, c1)
            starts.extend([{"n": {"l": [1, {"x": None}], "f": 1.5, "": True}}, {"d": 0}])
            if share:
                starts[1] = copy.deepcopy(starts[0])

            async def one(i, op, cookie):
                out[i] = await br.send(kinds[i], op, cookie[1], asgi.Server(env=env, gate="rs", name=str(i)))

            async with anyio.create_task_group() as tg:
                tg.start_soon(one, 0, a, c1)
                tg.start_soon(one, 1, b, c2)
            for i, op in enumerate((a, b)):
                before, cookie = out[i]
                x.check(before == starts[i], "request %d saw %s" % (i, before))
                after = copy.deepcopy(starts[i])
                OPS[op](after)
                if after:
                    got, _ = await br.send("json", "read", cookie[1])
                    x.check(got == after, "request %d stored %s, expected %s" % (i, got, after))
                else:
                    check_cookie(DEFAULT, cookie[2], True)

        with rt.vthreads("inline"):
            asgi.result(rt.run(main, env=env))
        x.outcome(case)

    x.explore(go, 1 if x.tier == "quick" else 2, cap=4000 if x.tier == "quick" else 40000)
