"""C16 Slash redirects preserve the URL and only occur when useful."""
from __future__ import annotations

import itertools
from urllib.parse import quote, unquote, urlsplit

from mc import asgi, rt
from mc.core import Check, short
from mc.refroute import Entry, dispatch

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

C = Check("C16", [
    "requests carry a Host header or the server knows its address",
    "a location is compared after percent-decoding its path",
])

R, W, M, A, H = "route", "ws", "mount", "app", "host"
POOL = [
    (R, "/a", ["GET"]),
    (R, "/a/", ["GET"]),
    (R, "/a/", ["POST"]),
    (R, "/{x}", ["GET"]),
    (R, "/{x}/", ["GET"]),
    (R, "/{x:int}/", ["GET", "POST"]),
    (R, "/", ["GET"]),
    (R, "/a/b/", None),
    (R, "/{p:path}/end", ["GET"]),
    (R, "/{p:path}/", ["POST"]),
    (R, "/caf\u00e9 x/", ["GET"]),
    (R, "/q?%#/", ["GET"]),
    (R, "/a//", ["GET"]),
    (W, "/a/", None),
    (W, "/w", None),
    (M, "/a", [(R, "/", ["GET"]), (R, "/b/", ["GET"]), (R, "/c", ["POST"])]),
    (M, "/{m}", [(R, "/b", ["GET"]), (R, "/{y}/", ["GET"])]),
    (M, "", [(R, "/b/", ["GET"])]),
    (A, "/a", None),
    (A, "/s/t", None),
    (H, "ex.org", [(R, "/a/", ["GET"]), (R, "/h", ["GET"])]),
    (H, "{s}.org", [(M, "/a", [(R, "/b/", ["GET"])])]),
]
PATHS = ["/", "/a", "/a/", "/a//", "//", "/a/b", "/a/b/", "/a/b//", "/7", "/7/", "/z", "/z/", "/x/end", "/x/end/", "/w", "/w/", "/caf\u00e9 x", "/q?%#", "/q?%#/", "/a/c/", "/a/c", "/s/t", "/b", "/h/", "/h", "//a", "/b/", "/a\n", "/%2F", "/a/b/c"]


class Plain:
    def __init__(self, log, id):
        self.log, self.id = log, id

    async def __call__(self, scope, receive, send):
        self.log.append(self.id)
        if scope["type"] == "websocket":
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.close"})
        else:
            await PlainTextResponse("")(scope, receive, send)


def build(d, log, inner_redirect=True):
    kind, path, arg = d
    id = repr(d)
    if kind == R:
        return Route(path, Plain(log, id), methods=arg), Entry(R, path, arg, id=id)
    if kind == W:
        return WebSocketRoute(path, Plain(log, id)), Entry(W, path, id=id)
    if kind == A:
        return Mount(path, app=Plain(log, id)), Entry(A, path, id=id)
    subs = [build(c, log) for c in arg]
    rs, es = [r for r, _ in subs], [e for _, e in subs]
    if kind == M:
        return Mount(path, routes=rs), Entry(M, path, children=es, id=id)
    return Host(path, app=Router(rs)), Entry(H, path, children=es, id=id)


def play(x, app, log, sc):
    del log[:]
    srv = asgi.Server() if sc["type"] == "http" else asgi.WSServer([{"type": "websocket.connect"}])

    async def main():
        await app(sc, srv.receive, srv.send)

    return srv, main


SAFE = ":/%#?=@[]!$&'()*+,;"
ORIGINS = [("http", "ex.org", ("s", 80)), ("https", "ex.org:8443", ("s", 1)), ("http", None, ("srv", 8080)), ("https", None, ("srv", 443)), ("http", "a.org", ("s", 80)), ("http", None, ("::1", 81))]
QUERIES = [b"", b"a=1&b=%20%2F", b"next=/x/&u=http://e/?q", b"%3F=%23", b"a=\"<>|"]


def base_of(scheme, host, server):
    if host is not None:
        return "%s://%s" % (scheme, host)
    h, p = server
    return "%s://%s%s" % (scheme, "[%s]" % h if ":" in h else h, "" if p == {"http": 80, "https": 443}[scheme] else ":%d" % p)


def verdict(x, sc, srv, log, want, root, host, scheme, server, ctx):
    kinds = {w[0] for w in want}
    if sc["type"] == "websocket":
        x.check("redirect" not in kinds and all(m["type"] in ("websocket.accept", "websocket.close") for m in srv.sent), "a websocket got %s" % short(srv.sent), ctx)
        x.eq(bool(log), "hit" in kinds, "websocket reached an endpoint: " + ctx)
        return ("ws", bool(log))
    r = asgi.judge(srv.sent)
    if "redirect" not in kinds:
        x.check(r.status != 307 and r.get("location") is None, "redirected to %r for no reason" % r.get("location"), "expected %s" % (want[:3],), ctx)
        x.eq(bool(log), "hit" in kinds, "an endpoint ran: " + ctx)
        return (r.status,)
    x.check(r.status == 307 and not log, "no redirect but %r (ran %s)" % (r, log), "expected %s" % (want[:3],), ctx)
    x.eq(r.body, b"", "body of a redirect")
    x.eq(len(r.all("location")), 1, "location headers")
    loc = r.get("location").decode("ascii")
    base = base_of(scheme, host, server)
    x.check(loc.startswith(base + "/"), "location %r is not on %r" % (loc, base), ctx)
    p, q, qs = loc[len(base):].partition("?")
    x.check("#" not in loc, "location %r has a fragment" % loc, ctx)
    target = want[0][1]
    x.check(unquote(p, errors="strict") == target, "location %r leads to %r, not %r" % (loc, unquote(p), target), ctx)
    oq = sc["query_string"].decode("latin-1")
    x.check(qs in (oq, quote(oq, safe=SAFE)) and bool(q) == bool(oq), "query %r became %r" % (oq, qs), ctx)
    return ("redirect", loc, target)


def run(x, descs, paths, methods, origins, queries, roots, options=(True, False), follow=True, tops=("router", "starlette")):
    log = []
    pairs = [build(d, log) for d in descs]
    routes, entries = [p[0] for p in pairs], [p[1] for p in pairs]
    for top, option in itertools.product(tops, options):
        if top == "router":
            app = Router(routes, redirect_slashes=option)
        else:
            app = Starlette(routes=routes)
            app.router.redirect_slashes = option

        async def main(group):
            (scheme, host, server), query, root = group
            for path, method in itertools.product(paths, methods):
                kind = "websocket" if method == "WS" else "http"
                sch = "ws" if kind == "websocket" else scheme
                if root and path == "/" and method == "POST":
                    full, rel = root, ""  # the root path itself, without a slash
                else:
                    full, rel = root + path, path
                sc = asgi.scope(full, "GET" if method == "WS" else method, headers=[(b"host", host.encode())] if host else [], host=None, type=kind, scheme=sch, server=server, root_path=root, query=query)
                del log[:]
                srv = asgi.Server() if kind == "http" else asgi.WSServer([{"type": "websocket.connect"}])
                before = dict(sc)
                await app(sc, srv.receive, srv.send)
                want = dispatch(entries, kind, method, host or "", rel, root, redirect=option)
                ctx = "%s %r root %r query %r host %r server %s on %s (%s, option %s)" % (method, full, root, query, host, server, descs, top, option)
                got = verdict(x, sc, srv, log, want, root, host, scheme, server, ctx)
                x.outcome((method, full, root, query, host, got))
                if got[0] == "redirect" and follow:
                    x.check(got[2].rstrip("/") == full.rstrip("/") and got[2] != full, "the location differs in more than its trailing slashes: %s" % ctx)
                    sc2 = asgi.scope(got[2], method, headers=before["headers"], host=None, scheme=sch, server=server, root_path=root, query=query)
                    srv2 = asgi.Server()
                    del log[:]
                    await app(sc2, srv2.receive, srv2.send)
                    want2 = dispatch(entries, kind, method, host or "", got[2][len(root):], root, redirect=option)
                    x.check({w[0] for w in want2} & {"hit", "405"} or want2[0][0] in ("default", "redirect"), "the redirect of %s leads nowhere" % ctx)
                    verdict(x, sc2, srv2, log, want2, root, host, scheme, server, "following " + ctx)

        for group in itertools.product(origins, queries, roots):
            out = rt.run(lambda: main(group))
            asgi.settled(out)
            if out.exc is not None:
                raise out.exc


def cases_one(tier):
    for d in POOL:
        yield ((d,), True)
    for t in itertools.permutations(POOL, 2):
        yield (t, False)


@C.family("tables", cases_one, "every table of one or two entries x paths with 0-2 trailing slashes x queries x hosts x servers x root paths x option x http/websocket")
def _(case, x):
    descs, single = case
    x.sample = dict(routes=[d[:2] for d in descs])
    if single:
        run(x, descs, PATHS, ["GET", "POST", "HEAD", "WS"], ORIGINS, QUERIES[1:2], ["", "/r", "/a", "/r s?"])
        run(x, descs, PATHS, ["GET"], ORIGINS[:2], QUERIES, ["", "/r s?"], tops=("router",), options=(True,))
    elif x.tier == "quick":
        run(x, descs, PATHS, ["GET", "WS"], ORIGINS[:1], QUERIES[1:2], [""], tops=("router",))
        run(x, descs, PATHS, ["POST"], ORIGINS[4:5], QUERIES[:1], ["/a"], options=(True,), tops=("starlette",))
    else:
        run(x, descs, PATHS, ["GET", "POST", "WS"], ORIGINS, QUERIES[:2], ["", "/a"])


def cases_three(tier):
    pool = [d for i, d in enumerate(POOL) if i in (0, 1, 3, 4, 9, 13, 15, 16, 20)] if tier == "quick" else POOL
    yield from itertools.permutations(pool, 3)


@C.family("triples", cases_three, "every ordered table of three entries x paths")
def _(case, x):
    run(x, case, PATHS[:20], ["GET", "POST"] if x.tier != "quick" else ["GET"], ORIGINS[:1], QUERIES[:1], [""], options=(True,), tops=("router",))
    x.sample = dict(routes=[d[:2] for d in case])


def cases_mw(tier):
    for i in range(len(POOL)):
        yield (i,)


@C.family("nested", cases_mw, "each entry mounted under each mount: redirects from inner routers keep the whole prefix")
def _(case, x):
    d = POOL[case[0]]
    for outer in ("/o", "/{q}", "/o/p", ""):
        o = outer.replace("{q}", "val")
        descs = ((M, outer, [d]), (R, "/fallback/", ["GET"]))
        if outer == "":
            descs = descs[::-1]
        run(x, descs, [o + p for p in PATHS] + [o, "/fallback", "/fallback/"] if o else PATHS + ["/fallback"], ["GET", "WS"], ORIGINS[:2], QUERIES[:2], ["", "/r"], options=(True,))
    x.sample = dict(inner=d[:2])
