"""C13 Requests dispatch to the first matching route."""
from __future__ import annotations

import functools
import itertools
import uuid

import anyio

from mc import asgi, rt
from mc.core import Check, short
from mc.refroute import ADMIT, CONVERT, Entry, dispatch

from starlette.applications import Starlette
from starlette.convertors import Convertor, register_url_convertor
from starlette.middleware import Middleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

C = Check("C13", [
    "patterns whose text can be read in several ways may give any of those readings",
    "a path convertor does not admit line breaks (its documented form is any text of a URL path)",
    "host matching is by the name before the port, with the letter case the application declared",
])


class Hex(Convertor):
    regex = "0x[0-9a-f]+"

    def convert(self, value):
        return int(value, 16)

    def to_string(self, value):
        return hex(value)


def setup():
    register_url_convertor("hex", Hex())
    ADMIT["hex"] = lambda s: len(s) > 2 and s[:2] == "0x" and all(c in "0123456789abcdef" for c in s[2:])
    CONVERT["hex"] = lambda s: int(s, 16)


# -- building an application and its reference from one description --------------------

R, W, M, A, H = "route", "ws", "mount", "app", "host"

POOL = [
    (R, "/a", None),
    (R, "/a", ["POST"]),
    (R, "/a", ["get", "PUT"]),
    (R, "/a/", None),
    (R, "/", None),
    (R, "/{x}", None),
    (R, "/{x}", ["DELETE"]),
    (R, "/{x:int}", None),
    (R, "/{x:float}", ["POST", "GET"]),
    (R, "/{x:path}", ["PUT"]),
    (R, "/a/{y}", None),
    (R, "/{x}/b", ["POST"]),
    (R, "/{x}.{y}", None),
    (R, "/{u:uuid}", None),
    (R, "/a.b+(c)$|*", None),
    (R, "/a", "any"),
    (W, "/a", None),
    (W, "/{x}", None),
    (M, "/a", [(R, "/", None), (R, "/b", ["POST"]), (W, "/b", None)]),
    (M, "/{m}", [(R, "/{y}", None), (M, "/b", [(R, "/", None), (R, "/{x:int}", None)])]),
    (M, "", [(R, "/a", ["GET"]), (R, "/z", ["GET"])]),
    (A, "/a", None),
    (A, "/{x:int}/", None),
    (H, "one.org", [(R, "/a", None), (R, "/z", None)]),
    (H, "{sub}.org", [(R, "/{x}", ["POST"]), (W, "/a", None)]),
    (H, "one.org:8000", [(R, "/z", ["PUT"])]),
]
EXTRA = [
    (R, "/{h:hex}", None),
    (R, "/x{x}", None),
    (R, "/{a}-{b}", None),
    (R, "/{x:int}/{y:path}", ["GET"]),
    (R, "/{x}/", ["PATCH"]),
    (R, "/caf\u00e9", None),
    (R, "/{x y}", None),
    (R, "/{x:int", None),
    (R, "/{p:path}/end", None),
    (R, "/%7Bx%7D", None),
    (R, "/A", None),
    (R, "/{x:path}", None),
    (R, "/{x:float}", None),
    (R, "/a", ["custom", "HEAD"]),
    (R, "/a", ["GET", "POST"]),
    (W, "/a/", None),
    (W, "/{x:int}", None),
    (M, "/a/", [(R, "/", None)]),
    (M, "/a", [(M, "/", [(R, "/b", None)]), (R, "/c", None)]),
    (M, "/a/b", [(R, "/", None)]),
    (M, "/{m:int}", [(R, "/{m}", None)]),
    (H, "{s}", [(R, "/a", None)]),
]
PATHS = ["/", "/a", "/a/", "/b", "/a/b", "/a/b/", "/5", "/5/", "/5.25", "/a.b", "/z", "/b/b", "/b/b/7", "/a.b+(c)$|*", "/12345678-1234-5678-1234-567812345678", "//", "/aa", "/\u00e9", "", "/a//b"]
MORE_PATHS = ["/0x1f", "/0x", "/0X1F", "/x", "/xy", "/p-q", "/p-q-r", "/-q", "/5/a/b", "/5/", "/5/5", "/caf\u00e9", "/cafe\u0301", "/{x y}", "/{x:int", "/w/end", "/w/v/end", "/end", "//end", "/%7Bx%7D", "/{x}", "/A",
              "/a b", "/a?b", "/a#", "/a%2Fb", "/a;b", "/a\n", "/\n", "/a/\n", "/a/c", "/a/b/b", "/005", "/-5", "/+5", "/5.", "/.5", "/1e5", "/5.5.5", "/\u0665", "/5\u0665", "/12345678123456781234567812345678",
              "/12345678-1234-5678-1234-56781234567", "/ABCDEF12-1234-5678-1234-567812345678", "/g2345678-1234-5678-1234-567812345678", "/1-2345678-1234-5678-1234-56781234567", "/a/a/", "/5/7", "/5/x", "a", "/aXb+(c)$|*", "/a.b+(c)", "/ a"]
HOSTS = [b"one.org", b"two.org:80", b"localhost"]
METHODS = ["GET", "POST", "HEAD", "PUT"]


class App:
    """A plain ASGI endpoint that records the scope it was given."""

    def __init__(self, id, log):
        self.id, self.log = id, log

    async def __call__(self, scope, receive, send):
        self.log.append((self.id, dict(scope), self))
        if scope["type"] == "websocket":
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.close", "code": 1000})
        else:
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body", "body": b""})


class Built:
    def __init__(self, fn=False):
        self.log = []
        self.fn = fn
        self.refused = []
        self.endpoints = {}
        self.n = 0

    def make(self, d):
        """description -> (starlette route, reference entry)"""
        kind, path, arg = d
        self.n += 1
        id = "%d:%s %s %s" % (self.n, kind, path, arg if not isinstance(arg, list) or kind in (R, W) else "")
        ep = App(id, self.log)
        if kind == R:
            if arg == "any":
                self.endpoints[id] = ep
                return Route(path, ep, methods=None), Entry(R, path, None, id=id)
            if self.fn:
                async def f(request):
                    self.log.append((id, dict(request.scope), f))
                    assert request.path_params == request.scope["path_params"]
                    return PlainTextResponse("")

                self.endpoints[id] = f
                if arg is None:  # a function endpoint defaults to GET
                    return Route(path, f), Entry(R, path, ["GET"], id=id)
                return Route(path, functools.partial(f) if self.n % 2 else f, methods=list(arg)), Entry(R, path, arg, id=id)
            self.endpoints[id] = ep
            return Route(path, ep, methods=list(arg) if arg else ["GET"]), Entry(R, path, arg or ["GET"], id=id)
        if kind == W:
            if self.fn:
                async def g(ws):
                    self.log.append((id, dict(ws.scope), g))
                    await ws.accept()
                    await ws.close()

                self.endpoints[id] = g
                return WebSocketRoute(path, g), Entry(W, path, id=id)
            self.endpoints[id] = ep
            return WebSocketRoute(path, ep), Entry(W, path, id=id)
        if kind == A:
            self.endpoints[id] = ep
            return Mount(path, app=ep), Entry(A, path, id=id)
        subs = [self.make(c) for c in arg]
        ents = [e for _, e in subs]
        routes = [r for r, _ in subs]
        if kind == M:
            if self.n % 2:
                return Mount(path, routes=routes), Entry(M, path, children=ents, id=id)
            return Mount(path, app=Router(routes)), Entry(M, path, children=ents, id=id)
        return Host(path, app=Router(routes)), Entry(H, path, children=ents, id=id)


KEEP = ["type", "asgi", "http_version", "scheme", "path", "raw_path", "query_string", "headers", "client", "server", "method", "subprotocols"]


def verdict(x, b, sc, orig, srv, want, root="", default=False, log=None, ctx=None):
    log = b.log if log is None else log
    kinds = {w[0] for w in want}
    msgs = srv.sent
    if log:
        x.check(len(log) == 1, "several endpoints ran for one request: %s" % [l[0] for l in log], ctx)
        id, seen, ep = log[0]
        params = seen.get("path_params")
        got = ("hit", id, params, seen.get("root_path", ""))
        ok = [w for w in want if w[0] == "hit" and w[1] == id and w[2] == params and w[3] == seen.get("root_path", "")
              and [type(v) for v in w[2].values()] == [type(params[k]) for k in w[2]]]
        x.check(ok, "wrong endpoint or parameters", "got %s" % (got,), "want %s" % (want[:5],), ctx)
        for k, v in orig.items():
            x.check(seen.get(k) == v, "scope[%r] of the chosen endpoint is %r, the request's is %r" % (k, seen.get(k), v), ctx)
        extra = set(seen) - set(orig) - {"path_params", "endpoint", "root_path", "app_root_path", "router", "app", "state", "starlette.exception_handlers"}
        x.check(not extra, "traces in the scope: %s" % extra, ctx)
        x.check(seen.get("endpoint") is ep or getattr(seen.get("endpoint"), "func", None) is ep, "scope['endpoint'] is not the chosen endpoint", ctx)
        return ("hit", id, repr(params))
    if sc["type"] == "websocket":
        x.check("default" in kinds, "websocket reached no endpoint", "want %s" % (want[:5],), "sent %s" % short(msgs), ctx)
        x.check([m["type"] for m in msgs] == ["websocket.close"], "websocket without a route: %s" % msgs, ctx)
        return ("close",)
    r = asgi.judge(msgs)
    if r.status == 405:
        w = [w for w in want if w[0] == "405"]
        x.check(w, "unexpected 405", "want %s" % (want[:5],), ctx)
        allow = {a.strip() for a in (r.get("allow") or b"").decode().split(",")}
        x.check(any(allow == v[1] for v in w) and len(r.all("allow")) == 1, "Allow is %s, the route's methods are %s" % (allow, w[0][1]), ctx)
        if ctx and "(starlette)" in ctx:
            x.check(len(b.refused) == 1, "the 405 handler ran %d times" % len(b.refused), ctx)
            seen = b.refused[0]
            x.check(any(v[3] == seen.get("path_params") and v[4] == seen.get("root_path", "") and (b.endpoints[v[2]] is seen.get("endpoint") or b.endpoints[v[2]] is getattr(seen.get("endpoint"), "func", None))
                        for v in w), "the 405 handler saw the scope of another route: %s" % {k: seen.get(k) for k in ("path_params", "endpoint", "root_path")}, "want %s" % (w,), ctx)
        return ("405", tuple(sorted(allow)))
    if r.status == 307:
        x.check("redirect" in kinds, "unexpected redirect to %r" % r.get("location"), "want %s" % (want[:5],), ctx)
        return ("redirect",)
    x.check("default" in kinds and r.status == (299 if default else 404), "status %s" % r.status, "want %s" % (want[:5],), ctx)
    return ("default",)


def run_table(x, descs, paths, methods, hosts, kinds=("http", "websocket"), fn=False, shape="starlette", redirect=True, twice=False):
    b = Built(fn)
    pairs = [b.make(d) for d in descs]
    routes, entries = [p[0] for p in pairs], [p[1] for p in pairs]

    async def default(scope, receive, send):
        if scope["type"] == "websocket":
            await send({"type": "websocket.close", "code": 1000})
            return
        await send({"type": "http.response.start", "status": 299, "headers": []})
        await send({"type": "http.response.body"})

    app = make_app(shape, routes, redirect, default, b)
    # a custom default belongs to the outer router only; inner routers keep theirs
    reqs = [(k, m, h, p) for k in kinds for p in paths for h in hosts for m in (methods if k == "http" else methods[:1])]

    def play(reqs):
        async def main():
            for k, m, h, p in reqs:
                sc = asgi.scope(p, m, headers=[(b"host", h)], type=k)
                orig = {q: sc[q] for q in KEEP if q in sc}
                del b.log[:]
                del b.refused[:]
                srv = asgi.Server() if k == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                await app(sc, srv.receive, srv.send)
                want = dispatch(entries, k, m, h.decode(), p, redirect=redirect)
                ctx = "request %s %s %r host %s on %s (%s)" % (k, m, p, h, [d[:3] for d in descs], shape)
                x.outcome((k, m, h, p, verdict(x, b, sc, orig, srv, want, default=shape == "default", ctx=ctx)))

        out = rt.run(main)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc

    play(reqs)
    if twice:
        play(reqs[::-1])
    x.step(len(reqs))


def make_app(shape, routes, redirect=True, default=None, b=None):
    if shape == "starlette":
        def refuse(request, exc):
            b.refused.append(dict(request.scope))
            return PlainTextResponse("no", 405, exc.headers)

        async def refuse_async(request, exc):
            return refuse(request, exc)

        app = Starlette(routes=routes, exception_handlers={405: refuse_async} if b is not None else None)
        app.router.redirect_slashes = redirect
        return app
    if shape == "router":
        return Router(routes, redirect_slashes=redirect)
    if shape == "default":
        return Router(routes, redirect_slashes=redirect, default=default)
    if shape == "added":
        app = Starlette()
        app.router.redirect_slashes = redirect
        for r in routes:
            app.router.routes.append(r)
        return app
    raise AssertionError(shape)


def cases_pairs(tier):
    allp = POOL + EXTRA
    for d in allp:
        for shape in ("starlette", "router", "default", "added"):
            yield ([d], shape, True, True)
            yield ([d], shape, False, False)
    for d1, d2 in itertools.permutations(allp, 2):
        yield ([d1, d2], "starlette", True, False)


@C.family("tables", cases_pairs, "every table of one or two entries x every path x methods x hosts x http/websocket, in two request orders")
def _(case, x):
    descs, shape, redirect, fn = case
    if shape == "default" and any(d[0] in (M, H) for d in descs):
        shape = "router"
    single = len(descs) == 1
    x.sample = dict(routes=[d[:2] for d in descs], shape=shape)
    hosts = HOSTS if any(d[0] == H for d in descs) else HOSTS[:1]
    run_table(x, descs, PATHS + MORE_PATHS, METHODS if single or x.tier != "quick" else ["GET", "POST"], hosts, fn=fn, shape=shape, redirect=redirect, twice=single)


def cases_triples(tier):
    pool = POOL if tier != "quick" else [d for i, d in enumerate(POOL) if i not in (3, 8, 13, 14, 22, 25)]
    n = 0
    for t in itertools.permutations(pool, 3):
        n += 1
        yield (t, n % 2 == 0)


@C.family("triples", cases_triples, "every ordered table of three different entries")
def _(case, x):
    descs, fn = case
    x.sample = dict(routes=[d[:2] for d in descs])
    paths = PATHS if x.tier != "quick" else ["/", "/a", "/a/", "/b", "/a/b", "/5", "/a.b", "/z", "/b/b"]
    hosts = HOSTS if any(d[0] == H for d in descs) else HOSTS[:1]
    run_table(x, descs, paths, ["GET", "POST"] if x.tier == "quick" else METHODS, hosts[:2] if x.tier == "quick" else hosts, fn=fn, shape="starlette" if fn else "router")


# -- the patterns themselves, character by character -----------------------------------

PATTERNS = ["/{x}", "/{x:int}", "/{x:float}", "/{x:path}", "/a{x}", "/{x}a", "/{x:int}a", "/{x:int}.{y:int}", "/{x}/{y}", "/{x}{y}", "/a/{x:path}", "/{x:path}/a", "/{x:float}/", "/.", "/a.", "/{x:hex}", "/1{x:int}", "/{x:str}.0"]


def cases_chars(tier):
    n = 4 if tier == "quick" else 6
    alpha = ["a", "/", ".", "0", "1", "-", "\n"]
    if tier == "quick":
        alpha = ["a", "/", ".", "0", "-", "\n"]
    for p in PATTERNS:
        for first in alpha:
            yield (p, alpha, first, n)


@C.family("patterns", cases_chars, "every path up to 4 (thorough: 6) characters over {a / . 0 1 - newline} against each pattern")
def _(case, x):
    p, alpha, first, n = case
    b = Built()
    r, e = b.make((R, p, ["GET"]))
    app = Router([r], redirect_slashes=False)
    x.sample = dict(pattern=p, first=first)

    async def main():
        for k in range(0, n):
            for rest in itertools.product(alpha, repeat=k):
                path = "/" + first + "".join(rest)
                sc = asgi.scope(path)
                orig = {q: sc[q] for q in KEEP if q in sc}
                del b.log[:]
                srv = asgi.Server()
                await app(sc, srv.receive, srv.send)
                want = dispatch([e], "http", "GET", "x", path, redirect=False)
                x.outcome((p, path, verdict(x, b, sc, orig, srv, want, ctx="pattern %r path %r" % (p, path))))

    out = rt.run(main)
    if out.exc is not None:
        raise out.exc


HOST_PATTERNS = ["one.org", "{s}.org", "{s}", "{a}.{b}.org", "api-{v:int}.org", "one.org:8000", "{s}.org:1", "x{s}.org", "o.e"]
HOST_HEADERS = ["one.org", "one.org:80", "one.org:8000", "xone.org", "one.org.evil", "org", ".org", "a.b.org", "a.b.c.org", "api-5.org", "api-x.org", "", ":80", "one.org:", "x.org", "oneXorg", "o.e", "oxe", "a/b.org", "one.org\n"]


def cases_hosts(tier):
    for p in HOST_PATTERNS:
        for q in [None] + HOST_PATTERNS:
            yield (p, q)


@C.family("hosts", cases_hosts, "host patterns (alone and in pairs) x host headers, absent and present")
def _(case, x):
    p, q = case
    descs = [(H, h, [(R, "/a", None), (W, "/w", None), (R, "/{x}", ["POST"])]) for h in case if h is not None]
    b = Built()
    pairs = [b.make(d) for d in descs] + [b.make((R, "/a", ["PUT"]))]
    for shape in ("starlette", "router"):
        app = make_app(shape, [r for r, _ in pairs])

        async def main():
            for h in HOST_HEADERS + [None]:
                for k, m, path in (("http", "GET", "/a"), ("http", "POST", "/b"), ("http", "PUT", "/a"), ("websocket", "GET", "/w"), ("websocket", "GET", "/n")):
                    sc = asgi.scope(path, m, headers=[(b"host", h.encode())] if h is not None else [], host=None, type=k)
                    orig = {w: sc[w] for w in KEEP if w in sc}
                    del b.log[:]
                    srv = asgi.Server() if k == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                    await app(sc, srv.receive, srv.send)
                    want = dispatch([e for _, e in pairs], k, m, h or "", path)
                    x.outcome((case, shape, h, k, m, verdict(x, b, sc, orig, srv, want, ctx="hosts %s, host header %r, %s %s %s" % (case, h, k, m, path))))

        out = rt.run(main)
        if out.exc is not None:
            raise out.exc
    x.sample = dict(hosts=case)


# -- a route used as an application of its own --------------------------------------------

def cases_alone(tier):
    for d in POOL + EXTRA:
        yield (d,)


@C.family("standalone", cases_alone, "each route called directly as an ASGI application")
def _(case, x):
    d = case[0]
    b = Built()
    r, e = b.make(d)

    async def main():
        for k in ("http", "websocket"):
            for p in PATHS + MORE_PATHS:
                for m in METHODS if k == "http" else ["GET"]:
                    for h in HOSTS if d[0] == H else HOSTS[:1]:
                        sc = asgi.scope(p, m, headers=[(b"host", h)], type=k)
                        orig = {w: sc[w] for w in KEEP if w in sc}
                        del b.log[:]
                        srv = asgi.Server() if k == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                        await r(sc, srv.receive, srv.send)
                        want = dispatch([e], k, m, h.decode(), p, redirect=False)
                        if srv.sent and srv.sent[0].get("status") == 307:
                            continue  # an inner router of a mount or host redirects
                        want = want + dispatch([e], k, m, h.decode(), p, redirect=True) if d[0] in (M, H) else want
                        x.outcome((d[:2], k, p, m, verdict(x, b, sc, orig, srv, want, ctx="%s alone: %s %s %r" % (d[:2], k, m, p))))

    out = rt.run(main)
    if out.exc is not None:
        raise out.exc


# -- histories and concurrency --------------------------------------------------------------

SMALL = [(R, "/a", None), (R, "/{x}", ["POST"]), (R, "/{x:int}", None), (M, "/a", [(R, "/{y}", None)]), (M, "/{m}", [(R, "/{x}", None), (R, "/b", ["PUT"])]), (H, "{s}.org", [(R, "/z", None)]), (W, "/{x}", None)]
REQS = [("http", "GET", b"one.org", "/a"), ("http", "POST", b"x", "/b"), ("http", "PUT", b"x", "/a/b"), ("http", "GET", b"x", "/a/q"), ("http", "GET", b"x", "/7"), ("websocket", "GET", b"x", "/w"), ("http", "GET", b"two.org", "/z")]


def cases_grow(tier):
    for t in itertools.permutations(range(len(SMALL)), 3):
        yield t


@C.family("growing", cases_grow, "routes added one at a time, with requests before and after each addition, behave as if declared so")
def _(case, x):
    descs = [SMALL[i] for i in case]
    for how in ("append", "methods"):
        b = Built(fn=how == "methods")
        app = Starlette()
        entries = []

        async def main():
            for n in range(len(descs) + 1):
                for k, m, h, p in REQS:
                    sc = asgi.scope(p, m, headers=[(b"host", h)], type=k)
                    orig = {w: sc[w] for w in KEEP if w in sc}
                    del b.log[:]
                    srv = asgi.Server() if k == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                    await app(sc, srv.receive, srv.send)
                    want = dispatch(entries, k, m, h.decode(), p)
                    x.outcome((case, n, p, verdict(x, b, sc, orig, srv, want, ctx="after %s: %s %s %r" % ([d[:2] for d in descs[:n]], k, m, p))))
                if n == len(descs):
                    break
                d = descs[n]
                r, e = b.make(d)
                entries.append(e)
                if how == "append":
                    app.router.routes.append(r)
                elif d[0] == R:
                    app.add_route(d[1], r.endpoint, methods=d[2])
                elif d[0] == W:
                    app.add_websocket_route(d[1], r.endpoint)
                elif d[0] == M:
                    app.mount(d[1], r.app)
                else:
                    app.host(d[1], r.app)

        out = rt.run(main)
        if out.exc is not None:
            raise out.exc
    x.sample = dict(order=[d[:2] for d in descs])


def cases_conc(tier):
    n = 0
    for t in itertools.permutations(range(len(SMALL)), 3):
        n += 1
        if n % 3 and tier == "quick":
            continue
        yield t


@C.family("concurrent", cases_conc, "two requests in flight through one application: every order in which the endpoints and the server proceed")
def _(case, x):
    descs = [SMALL[i] for i in case]
    for q1, q2 in itertools.combinations_with_replacement(range(len(REQS)), 2):
        def run(ch):
            env = rt.Env(ch, early=1)
            b = Built()
            pairs = [b.make(d) for d in descs]
            for id, ep in b.endpoints.items():
                def wrap(ep):
                    async def call(scope, receive, send):
                        await rt.Gate(env).wait("ep" + scope["client"][0])
                        mine = [dict(scope)]
                        await rt.Gate(env).wait("ep2" + scope["client"][0])
                        b.log.append((ep.id, mine[0], scope["endpoint"]))
                        x.check(dict(scope) == mine[0], "the scope of a request changed while another one ran")
                        await send({"type": "http.response.start", "status": 200, "headers": []} if scope["type"] == "http" else {"type": "websocket.accept"})
                        await send({"type": "http.response.body"} if scope["type"] == "http" else {"type": "websocket.close"})

                    return call
                ep.run = wrap(ep)
            app = Starlette(routes=[r for r, _ in pairs])
            for ep in b.endpoints.values():
                ep.gated = True
            results = {}

            async def one(tag, q):
                k, m, h, p = REQS[q]
                sc = asgi.scope(p, m, headers=[(b"host", h)], type=k, client=(tag, 1))
                orig = {w: sc[w] for w in KEEP if w in sc}
                srv = asgi.Server(env=env, gate="", name=tag) if k == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                await app(sc, srv.receive, srv.send)
                results[tag] = (sc, orig, srv)

            async def main():
                async with anyio.create_task_group() as tg:
                    tg.start_soon(one, "1", q1)
                    tg.start_soon(one, "2", q2)

            out = rt.run(main, env)
            asgi.settled(out)
            if out.exc is not None:
                raise out.exc
            key = []
            for tag, q in (("1", q1), ("2", q2)):
                sc, orig, srv = results[tag]
                k, m, h, p = REQS[q]
                want = dispatch([e for _, e in pairs], k, m, h.decode(), p)
                log = [l for l in b.log if l[1]["client"][0] == tag]
                key.append(verdict(x, b, sc, orig, srv, want, log=log, ctx="request %s of %s and %s on %s, schedule %s" % (tag, REQS[q1], REQS[q2], [d[:2] for d in descs], env.fired)))
            x.outcome((case, q1, q2, tuple(key), tuple(env.fired)))

        x.explore(run, bound=2)
    x.sample = dict(routes=[d[:2] for d in descs])


_plain = App.__call__


async def _call(self, scope, receive, send):
    if getattr(self, "gated", False):
        await self.run(scope, receive, send)
    else:
        await _plain(self, scope, receive, send)


App.__call__ = _call
