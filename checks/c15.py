"""C15 Mounted applications see a consistent root path and URLs."""
from __future__ import annotations

import itertools
from urllib.parse import quote, unquote, urlsplit

import anyio

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket

C = Check("C15", [
    "the server's path includes its root_path, as the ASGI specification says",
    "url_for puts parameter values into the URL as they are: '%', '?' and '#' in values are the caller's to quote",
    "a URL is compared after percent-decoding its path: characters that need no quoting to be unambiguous may stay as they are",
    "url_for is used with a Host header or a server address",
])

PREFIXES = ["/a", "/{m}", "/b/c", "", "/{n:int}", "/{p:path}"]
VALUES = {"m": ["v", "a", "\u00e9 {n}"], "n": [7], "p": ["q", "q/r"], "v": ["w", "a.b \u00e9", "{m0}"]}
FLAVOURS = ["routes", "router", "starlette", "middleware", "base"]
ROOTS = ["", "/r", "/a", "/a/b/c", "/\u00e9 x", "/r%s"]


class Pass:
    def __init__(self, app):
        self.app = app

    async def __call__(self, scope, receive, send):
        await self.app(scope, receive, send)


class Tree:
    """A chain of mounts with an http route, a websocket route and a plain application at each level."""

    def __init__(self, prefixes, flavours, host=None, top="starlette", watch=False):
        self.prefixes = prefixes
        self.log = []
        self.watched = []
        levels = len(prefixes)
        routes = None
        for k in range(levels, -1, -1):
            rs = self.leaves(k)
            if routes is not None:
                p = self.prefix(k)
                f = flavours[k % len(flavours)]
                name = "m%d" % k
                if f == "routes":
                    rs.append(Mount(p, routes=routes, name=name))
                elif f == "router":
                    rs.append(Mount(p, app=Router(routes), name=name))
                elif f == "starlette":
                    rs.append(Mount(p, app=Starlette(routes=routes), name=name))
                elif f == "middleware":
                    rs.append(Mount(p, routes=routes, name=name, middleware=[Middleware(Pass)]))
                else:
                    rs.append(Mount(p + "/", routes=routes, name=name))
            routes = rs
        self.host = host
        if host:
            routes = [Host(host, app=Router(routes), name="h")]
        mw = [Middleware(self.watcher())] if watch else []
        self.app = Starlette(routes=routes, middleware=mw) if top == "starlette" else Router(routes)

    def watcher(self):
        outer = self

        class Watch:
            def __init__(self, app):
                self.app = app

            async def __call__(self, scope, receive, send):
                if scope["type"] == "lifespan":
                    return await self.app(scope, receive, send)
                before = HTTPConnection(scope)
                outer.watched.append(("before", str(before.url), str(before.base_url)))
                lazy = HTTPConnection(scope)
                await self.app(scope, receive, send)
                after = HTTPConnection(scope)
                for who, c in (("same", before), ("lazy", lazy), ("after", after)):
                    outer.watched.append((who, str(c.url), str(c.base_url)))

        return Watch

    def prefix(self, k):
        return self.prefixes[k].replace("{m}", "{m%d}" % k).replace("{n:", "{n%d:" % k).replace("{p:", "{p%d:" % k)

    def leaves(self, k):
        log = self.log

        async def ep(request):
            log.append(("http", k, dict(request.scope), request))
            self.call(request)
            return PlainTextResponse("")

        async def ws(websocket):
            log.append(("ws", k, dict(websocket.scope), websocket))
            self.call(websocket)
            await websocket.accept()
            await websocket.close()

        async def raw(scope, receive, send):
            conn = HTTPConnection(scope)
            log.append(("raw", k, dict(scope), conn))
            self.call(conn)
            if scope["type"] == "http":
                await PlainTextResponse("")(scope, receive, send)
            else:
                await send({"type": "websocket.close", "code": 1000})

        return [Route("/x%d/{v}" % k, ep, name="x%d" % k), WebSocketRoute("/w%d/{v}" % k, ws, name="w%d" % k), Mount("/raw%d" % k, app=raw, name="raw%d" % k), Route("/x%d" % k, ep, name="y%d" % k)]

    def call(self, conn):
        self.calls = getattr(self, "calls", [])
        self.calls.append(conn)
        if getattr(self, "on_call", None):
            self.on_call(conn)

    def fill(self, k, vals):
        """Concrete prefix of level k."""
        out = ""
        for i in range(k):
            p = self.prefix(i)
            for name, v in vals.items():
                p = p.replace("{%s}" % name, "\x00%s\x00" % name).replace("{%s:int}" % name, "\x00%s\x00" % name).replace("{%s:path}" % name, "\x00%s\x00" % name)
            for name, v in vals.items():
                p = p.replace("\x00%s\x00" % name, str(v))
            out += p
        return out

    def names(self, k):
        out = []
        for i in range(k):
            for c in "mnp":
                if "{%s" % c in self.prefixes[i]:
                    out.append("%s%d" % (c, i))
        return out

    def values(self, k, which):
        """A parameter assignment for levels < k."""
        return {n: VALUES[n[0]][which % len(VALUES[n[0]])] for n in self.names(k)}

    def full_name(self, k, leaf):
        return ("h:" if self.host else "") + "".join("m%d:" % i for i in range(k)) + leaf


def drive(app, path, kind="http", root="", headers=(), scheme=None, server=("srv", 80), query=b""):
    sc = asgi.scope(path, type=kind, headers=headers, host=None, root_path=root, scheme=scheme, server=server, query=query)
    srv = asgi.Server() if kind == "http" else asgi.WSServer([{"type": "websocket.connect"}])

    async def main():
        await app(sc, srv.receive, srv.send)

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    return sc, srv


def origin(scheme, host, server):
    if host is not None:
        return "%s://%s" % (scheme, host)
    h, p = server
    if ":" in h:
        h = "[%s]" % h
    return "%s://%s" % (scheme, h) + ("" if p == {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme] else ":%d" % p)


def url_matches(x, url, base, path, query, ctx):
    """`url` is a text that a client reads as exactly this base, path and query."""
    s = str(url)
    x.check(s.startswith(base), "URL %r is not on %r" % (s, base), ctx)
    rest = s[len(base):]
    p, q, qs = rest.partition("?")
    x.check("#" not in rest, "URL %r has a fragment" % s, ctx)
    x.check(unquote(p, errors="strict") == path, "URL %r has the path %r, the request's is %r" % (s, unquote(p), path), ctx)
    x.check(qs == query and bool(q) == bool(query), "URL %r has the query %r, the request's is %r" % (s, qs, query), ctx)


def cases_chain(tier):
    for depth in range(0, 4):
        for ps in itertools.product(PREFIXES[:5], repeat=depth):
            yield (ps,)


@C.family("chains", cases_chain, "every chain of up to three mounts x flavour of mounting x server root path x level x kind of endpoint x scheme and host: root_path, parameters, url, base_url, url_for and its dispatch")
def _(case, x):
    ps, = case
    x.sample = dict(mounts=ps)
    quick = x.tier == "quick"
    deep = len(ps) == 3 and quick
    h = sum(map(len, ps)) + len(ps)
    rots = [h % 5] if deep else [h % 5, (h + 2) % 5] if len(ps) == 2 and quick else range(len(FLAVOURS))
    for rot in rots:
        fl = FLAVOURS[rot:] + FLAVOURS[:rot]
        for vi, (host, top, watch) in enumerate(((None, "starlette", False), ("{sub}.h.org", "router", False), (None, "router", False), (None, "starlette", True))):
            if quick and (host and rot % 2 or (watch and rot) or len(ps) > 1 and vi == 2):
                continue
            t = Tree(ps, fl, host, top, watch)
            for root in (ROOTS if len(ps) < 2 or not quick else ROOTS[:3] if len(ps) == 2 else ROOTS[h % 2:2 + h % 2]):
                for k in range(len(ps) + 1):
                    for which in range(3 if k and t.names(k) else 1):
                        check_level(x, t, root, k, which, host, quick and (len(ps) > 1 or rot > 0))


ORIGINS = [("http", "ex.org", ("s", 80)), ("https", "ex.org:8443", ("s", 443)), ("http", None, ("srv", 8080)), ("https", None, ("srv", 443)), ("http", None, ("::1", 80))]


def check_level(x, t, root, k, which, host, light):
    vals = t.values(k, which)
    prefix = t.fill(k, vals)
    for kind, leaf in (("http", "x"), ("websocket", "w"), ("http", "raw"), ("websocket", "raw")):
        v = VALUES["v"][which % 3]
        rel = "/%s%d/%s" % (leaf, k, v)
        if leaf == "raw":
            rel += "/z"
        path = root + prefix + rel
        for oi, (scheme, hostname, server) in enumerate(ORIGINS):
            if light and oi != (k + which) % 2:
                continue
            if host:
                if hostname is None:
                    continue
                hostname = "su%d.h.org" % which + (":8443" if ":" in hostname else "")
            if kind == "websocket":
                scheme = {"http": "ws", "https": "wss"}[scheme]
            query = "q=1&%C3%A9=%20" if oi % 2 else ""
            base = origin(scheme, hostname, server)
            ctx = "%s %r root %r mounts %s host %s top-level %s" % (kind, path, root, t.prefixes, host, type(t.app).__name__)
            del t.log[:]
            del t.watched[:]
            urls = []
            t.on_call = lambda conn: urls.extend(collect(x, t, conn, root, scheme, base, host, which, ctx))
            headers = [(b"host", hostname.encode("latin-1"))] if hostname is not None else []
            sc, srv = drive(t.app, path, kind, root, headers, scheme, server, query.encode())
            x.check(len(t.log) == 1, "endpoints run: %s" % [(l[0], l[1]) for l in t.log], ctx, short(srv.sent))
            got, lvl, seen, conn = t.log[0]
            x.eq((got, lvl), ({"x": "http", "w": "ws", "raw": "raw"}[leaf], k), "endpoint: " + ctx)
            wroot = root + prefix + ("/raw%d" % k if leaf == "raw" else "")
            x.eq(seen["root_path"], wroot, "root_path: " + ctx)
            x.eq(seen["path"], path, "path: " + ctx)
            params = dict(vals)
            if leaf != "raw":
                params["v"] = v
            if host:
                params["sub"] = "su%d" % which
            x.check(seen["path_params"] == params and conn.path_params == params, "path_params %s, expected %s" % (seen["path_params"], params), ctx)
            url_matches(x, conn.url, base, path, query, "request.url: " + ctx)
            url_matches(x, conn.base_url, base, root + "/", "", "base_url: " + ctx)
            for who, u, b in t.watched:
                url_matches(x, u, base, path, query, "url seen by a middleware (%s): " % who + ctx)
                url_matches(x, b, base, root + "/", "", "base_url seen by a middleware (%s): " % who + ctx)
            x.outcome((kind, path, root, str(conn.url), str(conn.base_url)))
            # each URL leads to the route it names
            t.on_call = None
            for u, leaf2, k2, params2 in urls[:: 1 if not light else 3]:
                lead(x, t, u, leaf2, k2, params2, root, server, ctx)


def collect(x, t, conn, root, scheme, base, host, which, ctx):
    """Every url_for an endpoint can make."""
    out = []
    secure = scheme in ("https", "wss")
    for k in range(len(t.prefixes) + 1):
        vals = t.values(k, which + 1)
        for leaf in ("x", "w", "raw", "y"):
            params = dict(vals)
            rel = "/%s%d" % ({"y": "x"}.get(leaf, leaf), k)
            if leaf in "xw":
                params["v"] = VALUES["v"][(which + 1) % 3]
                rel += "/" + params["v"]
            elif leaf == "raw":
                params["path"] = ("/deep/er", "/deep//er/", "/a//", "/deep//er/")[(which + k) % 4]
                rel += params["path"]
            if host:
                params["sub"] = "other"
            name = t.full_name(k, "%s%d" % (leaf, k))
            u = conn.url_for(name, **params)
            if leaf == "raw":
                want_scheme = scheme  # a mount is reached over either protocol
            else:
                want_scheme = {"w": ("ws", "wss")}.get(leaf, ("http", "https"))[secure]
            b = want_scheme + base[len(scheme):]
            if host:
                b = want_scheme + "://other.h.org"
            x.check(str(u).startswith(b + "/"), "url_for(%r) is %r, not on %r" % (name, str(u), b), ctx)
            url_matches(x, u, b, unquote(root if "%" not in root else quote(root)) + t.fill(k, vals) + rel, "", "url_for(%r): " % name + ctx)
            out.append((str(u), leaf, k, params))
    if not host:
        for bad in ("x0", "nope"):
            try:
                u = conn.url_for(bad)
            except NoMatchFound:
                pass
            else:
                x.fail("url_for(%r) without its parameters gave %r" % (bad, str(u)), ctx)
    return out


def lead(x, t, u, leaf, k, params, root, server, ctx):
    parts = urlsplit(u)
    path = unquote(parts.path)
    kind = "websocket" if parts.scheme in ("ws", "wss") else "http"
    del t.log[:]
    drive(t.app, path, kind, root, [(b"host", parts.netloc.encode("latin-1"))], parts.scheme, server)
    x.check(len(t.log) == 1 and t.log[0][0] == {"x": "http", "y": "http", "w": "ws", "raw": "raw"}[leaf] and t.log[0][1] == k, "the URL %r made for %s%d leads to %s" % (u, leaf, k, [(l[0], l[1]) for l in t.log]), ctx)
    want = {n: v for n, v in params.items() if n != "path"}
    x.eq(t.log[0][2]["path_params"], want, "parameters when requesting %r: %s" % (u, ctx))


# -- segment boundaries -----------------------------------------------------------------

def cases_bound(tier):
    for p in ("/a", "/ab", "/{m}", "/{n:int}", "/a/b", "/{m}/b", "/{n:int}x"):
        for q in ("/a", "/{m}", "/{n:int}", "/a/b", ""):
            yield (p, q)


SEGS = ["a", "ab", "b", "aa", "7", "7x", "", "a.b"]


@C.family("boundaries", cases_bound, "two nested mounts x every path of up to three segments x server root: only whole segments match, and root_path + rest == path")
def _(case, x):
    p, q = case
    seen = []

    def leaf(tag):
        async def app(scope, receive, send):
            seen.append((tag, scope["root_path"], scope["path"], dict(scope["path_params"])))
            await PlainTextResponse("")(scope, receive, send)

        return app

    q = q.replace("m", "k").replace("n:", "l:").replace("ikt", "int")
    app = Router([Mount(p, routes=[Mount(q + "/in", app=leaf("in")), Mount(q, app=leaf("q"))])], redirect_slashes=False)
    import re

    def rx(s):
        s = re.sub(r"\{\w+:int\}", "(?:[0-9]+)", s)
        return re.sub(r"\{\w+\}", "(?:[^/]+)", s)

    for root in ("", "/a", "/r/s"):
        for n in range(0, 4 if x.tier == "quick" else 5):
            for segs in itertools.product(SEGS, repeat=n):
                for tail in ("", "/", "/in", "/in/"):
                    path = "/".join(("",) + segs) + tail
                    if not path:
                        path = "/"
                    del seen[:]
                    sc, srv = drive(app, root + path, root=root)
                    ctx = "path %r root %r mounts %s" % (root + path, root, (p, q))
                    m1 = re.match(rx(p) + "(?=/)", path)
                    want = None
                    if m1:
                        rest = path[m1.end():]
                        m2 = re.match(rx(q) + "/in(?=/)", rest)
                        m3 = re.match(rx(q) + "(?=/)", rest)
                        if m2:
                            want = ("in", m1.end() + m2.end())
                        elif m3:
                            want = ("q", m1.end() + m3.end())
                    if want is None:
                        x.check(not seen, "reached %s: %s" % (seen, ctx))
                        x.outcome((case, path, None))
                        continue
                    x.check(len(seen) == 1 and seen[0][0] == want[0], "reached %s, expected %s: %s" % (seen, want, ctx))
                    _, r, full, params = seen[0]
                    x.eq((r, full), (root + path[:want[1]], root + path), "root_path and path: " + ctx)
                    x.check((full[len(r):] or "/")[0] == "/", "root_path does not end at a segment boundary: " + ctx)
                    x.outcome((case, path, tuple(params.items())))


# -- request.url and base_url for any request ---------------------------------------------

URLPATHS = ["/", "/a", "/a/b/", "//", "//x", "/a//b", "/a b", "/\u00e9", "/a%b", "/a%20b", "/100%", "/a?b", "/a?b=c&d", "/a#b", "/?", "/#", "/a;p=1", "/a:b@c", "/[x]", "/a\\b", "/\U0001f600", "/a+b", "/..", "/%", "/%3F", "/a%2Fb?x#y", "/a\n", "/\ta\r"]
QUERIES = ["", "a=1", "a=1&b=%20%3F", "?", "a=b?c", "/", "%23", "a=1&a=2", "=", "&&"]


def cases_url(tier):
    for p in URLPATHS:
        for root in ("", "/r", "/r ?"):
            yield (p, root)


@C.family("request-url", cases_url, "request.url and base_url over paths with reserved characters x queries x hosts x servers x schemes x mounting")
def _(case, x):
    p, root = case
    got = []

    async def leaf(scope, receive, send):
        c = HTTPConnection(scope)
        got.append((str(c.url), str(c.base_url), c))
        if scope["type"] == "http":
            await PlainTextResponse("")(scope, receive, send)
        else:
            await send({"type": "websocket.close"})

    apps = [("bare", leaf, ""), ("mounted", Router([Mount("/mm", app=leaf)]), "/mm"), ("deep", Starlette(routes=[Mount("/mm", routes=[Mount("/{z}", app=leaf)])]), "/mm/zz")]
    for tag, app, pre in apps[:1] if "\n" in p else apps:
        for qs in QUERIES:
            for scheme, host, server in [("http", "h", ("s", 80)), ("https", "h:81", ("s", 1)), ("http", None, ("s", 80)), ("http", None, ("s", 443)), ("https", None, ("s", 443)), ("https", None, ("s", 80)), ("ws", None, ("s", 80)), ("wss", None, ("s", 443)),
                                         ("wss", "h", None), ("http", None, ("127.0.0.1", 8000)), ("http", None, ("::1", 8000)), ("http", "[::1]:80", ("s", 80)), ("http", "H.Org", ("s", 80))]:
                if qs not in QUERIES[:3] and host != "h":
                    continue
                del got[:]
                full = root + pre + p
                sc, srv = drive(app, full, "websocket" if scheme in ("ws", "wss") else "http", root, [(b"host", host.encode())] if host is not None else [], scheme, server, qs.encode())
                ctx = "path %r root %r query %r scheme %s host %r server %r (%s)" % (full, root, qs, scheme, host, server, tag)
                x.check(len(got) == 1, "not reached: " + ctx)
                base = origin(scheme, host, server)
                u, b, c = got[0]
                url_matches(x, u, base, full, qs, "request.url: " + ctx)
                url_matches(x, b, base, root + "/", "", "base_url: " + ctx)
                x.check(c.url is c.url or str(c.url) == u, "url is stable")
                x.eq((c.url.scheme, c.url.netloc, c.url.query, unquote(c.url.path)), (scheme, base.split("://")[1], qs, full), "components: " + ctx)
                x.eq(c.url.is_secure, scheme in ("https", "wss"), "is_secure")
                x.outcome((u, b))
    x.sample = dict(path=p, root=root)


# -- a server that strips its root path, and parameters of the same name ---------------------

def cases_strip(tier):
    for root in ("", "/api", "/a", "/a/b", "/\u00e9"):
        yield (root,)


@C.family("not-under-root", cases_strip, "a path that is not below the root path at a segment boundary is routed as it stands; one that is, without the root")
def _(case, x):
    root, = case
    seen = []

    async def leaf(request):
        seen.append(dict(request.scope))
        return PlainTextResponse("")

    app = Router([Route("/{rest:path}", leaf)], redirect_slashes=False)
    segs = ["api", "a", "b", "apiary", "ab", "x", "\u00e9", ""]
    paths = ["/".join(("",) + s) or "/" for n in range(0, 4) for s in itertools.product(segs, repeat=n)]
    # the root followed by any other character but a slash (path parameters hold no newlines)
    paths += [root + chr(c) + rest for c in [*range(256), 0x2044, 0x2215, 0xff0f] if chr(c) not in "/\n" for rest in ("", "x", "/", "/x") if root]
    for path in paths:
        del seen[:]
        drive(app, path, root=root)
        under = root and path.startswith(root) and path[len(root):][:1] == "/"
        if root and path == root:
            x.check(not seen, "the empty path matched a route")
            continue
        rel = path[len(root):] if under else path
        x.check(len(seen) == 1 and "/" + seen[0]["path_params"]["rest"] == rel, "path %r root %r was routed as %s, expected %r" % (path, root, [d["path_params"] for d in seen], rel))
        x.eq((seen[0]["path"], seen[0]["root_path"]), (path, root), "path and root_path of a route")
        x.outcome((root, path))


def cases_same(tier):
    for outer in ("mount", "host"):
        for mid in (None, "mount", "mount2"):
            for inner in ("route", "ws", "raw"):
                yield (outer, mid, inner)


@C.family("same-name", cases_same, "a parameter name used at several levels: the innermost value is the one seen, its neighbours stay")
def _(case, x):
    outer, mid, inner = case
    t = []

    async def ep(conn):
        t.append((conn.path_params, dict(conn.scope)))
        if isinstance(conn, WebSocket):
            await conn.accept()
            await conn.close()
            return
        return PlainTextResponse("")

    async def http(request):
        return await ep(request)

    async def raw(scope, receive, send):
        t.append((scope["path_params"], dict(scope)))
        await PlainTextResponse("")(scope, receive, send)

    want = {"a": "3", "only": "o"}
    r = {"route": Route("/{a}", http), "ws": WebSocketRoute("/{a}", ep), "raw": Mount("/{a}", app=raw)}[inner]
    path = "/3" + ("/" if inner == "raw" else "")
    if mid:
        r = Mount("/{a:int}/{b}", routes=[r]) if mid == "mount" else Mount("/{b}", app=Starlette(routes=[r]))
        path = ("/2/bb" if mid == "mount" else "/bb") + path
        want["b"] = "bb"
    host = None
    if outer == "mount":
        r = Mount("/{a}/{only}", routes=[r])
        path = "/1/o" + path
    else:
        r = Host("{a}.{only}.org", app=Router([r]))
        host = "1.o.org"
    drive(Router([r]), path, "websocket" if inner == "ws" else "http", headers=[(b"host", (host or "h").encode())])
    x.check(len(t) == 1, "not reached: %s %s" % (case, path))
    x.eq(t[0][0], want, "path parameters of %s at %r" % (case, path))
    x.outcome((case, tuple(t[0][0].items())))


# name: (kind, pattern, own parameters, matched text)
LINKS = {
    "mount-param": ("mount", "/{a%d}", "a", "/v%d"),
    "mount-int": ("mount", "/{i%d:int}/k", "i", "/%d/k"),
    "mount-static": ("mount", "/s%d", None, "/s%d"),
    "mount-empty": ("mount", "", None, ""),
    "host-param": ("host", "{h%d}.host.org", "h", "sub"),
    "host-two": ("host", "{g%d}.{t}.org", "gt", "sub"),
    "host-static": ("host", "sub.host.org", None, ""),
}


def mixed_cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for chain in itertools.product(LINKS, repeat=n):
            if not any(c.startswith("host") for c in chain) or chain.count("host-two") > 1:
                continue
            yield chain


@C.family("mixed", mixed_cases, "every chain of up to three (four) mounts and hosts in any order x flavour x server root x http and websocket: parameters of every level, root_path, url, base_url; with one host: url_for and its dispatch")
def _(case, x):
    n = len(case)
    hosts = sum(c.startswith("host") for c in case)
    for flavour in ("routes", "router", "starlette"):
        for root in ("", "/r"):
            for kind in ("http", "websocket"):
                t = []

                async def http(request):
                    t.append((dict(request.path_params), request.scope["root_path"], str(request.url), str(request.base_url), links(request)))
                    return PlainTextResponse("")

                async def ws(websocket):
                    t.append((dict(websocket.path_params), websocket.scope["root_path"], str(websocket.url), str(websocket.base_url), links(websocket)))
                    await websocket.accept()
                    await websocket.close()

                names, want, text = [], {}, ""
                r = [Route("/e/{x}", http, name="e"), WebSocketRoute("/w/{x}", ws, name="w")]
                for i in range(n - 1, -1, -1):
                    k, pattern, own, _ = LINKS[case[i]]
                    p = pattern % i if "%d" in pattern else pattern
                    names.insert(0, "n%d" % i)
                    if k == "host":
                        r = [Host(p, app=Router(r) if flavour != "starlette" else Starlette(routes=r), name="n%d" % i)]
                    elif flavour == "routes":
                        r = [Mount(p, routes=r, name="n%d" % i)]
                    else:
                        r = [Mount(p, app=Router(r) if flavour == "router" else Starlette(routes=r), name="n%d" % i)]
                for i in range(n):
                    k, pattern, own, matched = LINKS[case[i]]
                    text += (matched % i if "%d" in matched else matched) if k == "mount" else ""
                    if own == "a":
                        want["a%d" % i] = "v%d" % i
                    elif own == "i":
                        want["i%d" % i] = i
                    elif own == "h":
                        want["h%d" % i] = "sub"
                    elif own == "gt":
                        want.update({"g%d" % i: "sub", "t": "host"})
                want["x"] = "X"

                def links(conn):
                    if hosts != 1:
                        return None
                    out = [str(conn.url_for(":".join(names + [leaf]), **want)) for leaf in "ew"]
                    return out

                app = Starlette(routes=r) if flavour != "router" else Router(r)
                path = root + text + ("/e/X" if kind == "http" else "/w/X")
                scheme = "http" if kind == "http" else "ws"
                drive(app, path, kind, headers=[(b"host", b"sub.host.org")], root=root)
                x.check(len(t) == 1, "not reached: %r %r (%d)" % (case, path, len(t)))
                host = "sub.host.org"
                expected = (want, root + text, "%s://%s%s" % (scheme, host, path), "%s://%s%s/" % (scheme, host, root),
                            None if hosts != 1 else ["%s://%s%s%s/%s/X" % (s, host, root, text, leaf) for s, leaf in (("http", "e"), ("ws", "w"))])
                x.eq(t[0], expected, "what the endpoint sees behind %r (%s, root %r)" % (case, flavour, root))
                if hosts == 1:
                    # the URLs lead where they say
                    for u, k2 in zip(t[0][4], ("http", "websocket")):
                        parts = urlsplit(u)
                        before = len(t)
                        drive(app, unquote(parts.path), k2, headers=[(b"host", parts.netloc.encode())], root=root)
                        x.check(len(t) == before + 1, "url_for gave %r, which leads nowhere" % u)
                        x.eq(t[-1][0], want, "parameters at %r" % u)
                x.outcome((case, flavour, root, kind))
