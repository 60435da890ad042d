"""C29 Host and scheme enforcement lets nothing else through."""
from __future__ import annotations

import itertools
from urllib.parse import quote

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Route

C = Check("C29", [
    "TrustedHostMiddleware: hosts are names or IPv4 addresses, compared as they are written (no case folding)",
    "the Host header can be parsed as the authority of a URL; a redirect needs a Host header or a server address",
    "scopes without scheme are http (what a redirect of a websocket without scheme says is not specified)",
])

SAFE = ":/%#?=@[]!$&'()*+,;"


class App:
    def __init__(self):
        self.seen = []

    async def __call__(self, scope, receive, send):
        self.seen.append(scope)
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body", "body": b"in"})
        elif scope["type"] == "websocket":
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.close"})


async def exchange(x, mw, app, sc, what):
    """("in",) or ("refused", status, location)."""
    app.seen.clear()
    before = {k: (list(v) if k == "headers" else v) for k, v in sc.items()}
    sent = []

    async def receive():
        return {"type": "websocket.connect"} if sc["type"] == "websocket" else {"type": "http.request"}

    async def send(m):
        sent.append(asgi.snap(m))

    await mw(sc, receive, send)
    if app.seen:
        x.check(len(app.seen) == 1 and {k: (list(v) if k == "headers" else v) for k, v in app.seen[0].items() if k != "app"} == before, "%s: the application saw %s" % (what, short(app.seen)))
        x.check([m["type"] for m in sent] == (["http.response.start", "http.response.body"] if sc["type"] == "http" else ["websocket.accept", "websocket.close"] if sc["type"] == "websocket" else []), "%s: sent %s" % (what, sent))
        return ("in",)
    r = asgi.judge(sent, prefix="websocket.http.response" if sc["type"] == "websocket" else "http.response")
    loc = r.get("location")
    return ("refused", r.status, loc.decode() if loc is not None else None)


def location(scheme, netloc, path, query):
    path = "".join("%%%02X" % ord(c) if c in "%?#" else c for c in path)
    return quote("%s://%s%s%s" % (scheme, netloc, path, "?" + query.decode() if query else ""), safe=SAFE)


PATTERNS = ["a.org", "www.a.org", "*.a.org", "www.b.org", "*", "b.org", "1.2.3.4", "a.org.evil", "localhost", "*.com", "www.localhost", ""]
HOSTNAMES = ["a.org", "www.a.org", "x.a.org", "x.y.a.org", "evila.org", "a.org.evil", "a.or", ".a.org", "b.org", "www.b.org", "www.www.a.org", "1.2.3.4", "localhost", "org", "www.localhost", "x.com", "com", "*.a.org", "*", ""]
PORTS = ["", ":80", ":8000", ":"]


def decide(patterns, redirect, host):
    h = host.split(":")[0]
    if "*" in patterns or h in [p for p in patterns if not p.startswith("*")] or any(p.startswith("*.") and h.endswith(p[1:]) for p in patterns):
        return "in"
    if redirect and "www." + h in [p for p in patterns if not p.startswith("*")]:
        return "www"
    return "no"


def host_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for ps in itertools.permutations(PATTERNS, n):
            if n < 3 or tier != "quick" and n < 4 or ps == tuple(sorted(ps)) or ps == tuple(sorted(ps, reverse=True)):
                yield ps


@C.family("hosts", host_cases, "every allow-list of up to 3 (4) of 12 patterns, pairs in every order x redirecting x 20 host names (near suffixes, sub-domains, prefixes, empty, missing) x ports x http/websocket x schemes, paths and queries: in, redirected or refused exactly as the rules say")
def hosts(case, x):
    async def main(patterns, redirect):
        app = App()
        kw = {} if redirect is None else {"www_redirect": redirect}
        mw = TrustedHostMiddleware(app, allowed_hosts=patterns, **kw)
        patterns = list(case)
        n = 0
        for hi, (name, port) in enumerate(itertools.product(HOSTNAMES + [None], PORTS)):
            if name is None and port:
                continue
            host = None if name is None else name + port
            want = decide(patterns, redirect is not False, host or "")
            for i, (typ, scheme, path, query) in enumerate((("http", "http", "/", b""), ("http", "https", "/a b/\xe9?#%", b"x=1&y=%20"), ("websocket", "ws", "/w", b""), ("websocket", "wss", "//x", b"q"))):
                if want == "in" and i != hi % 4 and i != 0:
                    continue
                sc = asgi.scope(path, scheme=scheme, type=typ, query=query, host=host.encode() if host is not None else None, headers=[(b"x", b"y"), (b"x-forwarded-host", b"a.org"), (b"hosts", b"a.org")], server=("srv", 99))
                what = "%s %r for %s" % (typ, host, patterns)
                got = await exchange(x, mw, app, sc, what)
                if want == "in":
                    exp = ("in",)
                elif want == "www":
                    exp = ("refused", 307, location(scheme, "www." + (host if host is not None else "srv:99"), path, query))
                else:
                    exp = ("refused", 400, None)
                x.check(got == exp, "%s: %s, expected %s" % (what, got, exp))
                n += 1
        for typ in ("lifespan",):
            app.seen.clear()
            sc = {"type": "lifespan"}
            await mw(sc, None, None)
            x.check(app.seen == [sc] and app.seen[0] is sc, "lifespan")
        x.step(n)

    for redirect in (None, True, False):
        asgi.result(rt.run(lambda: main(list(case), redirect)))
    asgi.result(rt.run(lambda: main(case, None)))
    x.outcome(case)


def invalid_cases(tier):
    yield ()


@C.family("patterns", invalid_cases, "all patterns of up to 4 symbols: those with a wildcard other than '*' or a leading '*.' are refused at construction, alone and beside others, the rest work; lists changed later; several instances; no list at all")
def patterns(case, x):
    for n in range(1, 5):
        for t in itertools.product("*.aw", repeat=n):
            p = "".join(t)
            ok = p == "*" or "*" not in p or p.startswith("*.") and "*" not in p[1:]
            for ps in ([p], ["b.org", p], [p, "*"], (p, "b.org")):
                try:
                    TrustedHostMiddleware(None, allowed_hosts=ps)
                    x.check(ok, "the pattern %r is accepted" % p)
                except (AssertionError, ValueError):
                    x.check(not ok, "the pattern %r is refused" % p)
            x.step()

    async def main():
        app = App()
        hosts_ = ["a.org"]
        mw = TrustedHostMiddleware(app, allowed_hosts=hosts_)
        other = TrustedHostMiddleware(app, allowed_hosts=["b.org"])
        hosts_.append("c.org")
        hosts_[0] = "d.org"
        for m, good in ((mw, b"a.org"), (other, b"b.org"), (mw, b"a.org")):
            for h in (b"a.org", b"b.org", b"c.org", b"d.org"):
                got = await exchange(x, m, app, asgi.scope("/", host=h), "changed list")
                x.check((got == ("in",)) == (h == good), "%s after the list was changed: %s" % (h, got))
        mw = TrustedHostMiddleware(app)
        for h in HOSTNAMES:
            x.check(await exchange(x, mw, app, asgi.scope("/", host=h.encode()), "no list") == ("in",), "host %r without a list" % h)
        first = TrustedHostMiddleware(app, allowed_hosts=["a.org"])
        for a, b in ((b"a.org", b"evil"), (b"evil", b"a.org")):
            got = await exchange(x, first, app, asgi.scope("/", host=None, headers=[(b"host", a), (b"host", b)]), "two hosts")
            x.check(got == ("in",) if a == b"a.org" else got[0] == "refused", "hosts %s, %s: %s" % (a, b, got))

    asgi.result(rt.run(main))


# ---------------------------------------------------------------- https

HOSTS = ["a.org", "a.org:80", "a.org:443", "a.org:8080", "A.org:81", "[::1]", "[::1]:80", "[::1]:443", "[::1]:8443", "1.2.3.4:80", "1.2.3.4", "a.org:", "a80", "a.org:8", "a.org:44", "x:4430", None]
SERVERS = [("srv", 80), ("srv", 443), ("srv", 8080), ("::1", 80), ("::1", 8080)]
PATHS = [("/", b""), ("/a/b", b"x=1&y=2"), ("/a b", b"q=%20+"), ("/\xe9?#%", b""), ("//evil.org", b"a"), ("", b""), ("/p:80", b"u=http://x:80/")]


def scheme_cases(tier):
    for h in HOSTS:
        for s in SERVERS if h is None else SERVERS[:1]:
            yield (h, s)


@C.family("https", scheme_cases, "every scheme x host (ports, default ports, IPv6) or server address x path and query x http/websocket: secure ones pass unchanged, every other gets a 307 to the same URL, secure, without default port and keeping others")
def https(case, x):
    host, server = case

    async def main():
        app = App()
        mw = HTTPSRedirectMiddleware(app)
        for typ, scheme in (("http", "http"), ("http", "https"), ("websocket", "ws"), ("websocket", "wss"), ("http", None)):
            for path, query in PATHS:
                for headers in ([], [(b"x-forwarded-proto", b"https"), (b"host2", b"z")]):
                    for root in ("", "/root"):
                        sc = asgi.scope(path, scheme=scheme, type=typ, query=query, root_path=root, headers=headers, host=host.encode() if host is not None else None, server=server)
                        if scheme is None:
                            del sc["scheme"]
                        what = "%s %s %s %s" % (typ, scheme, host or server, path)
                        got = await exchange(x, mw, app, sc, what)
                        if scheme in ("https", "wss"):
                            exp = ("in",)
                        else:
                            default = 443 if scheme in ("https", "wss") else 80
                            net = host
                            if net is None:
                                net = ("[%s]" % server[0] if ":" in server[0] else server[0]) + ("" if server[1] == default else ":%d" % server[1])
                            for p in (":80", ":443"):
                                if net.endswith(p) and not net[:-len(p)].endswith(":"):
                                    net = net[:-len(p)]
                            exp = ("refused", 307, location("wss" if typ == "websocket" else "https", net, path, query))
                        x.check(got == exp, "%s: %s, expected %s" % (what, got, exp))
                        x.step()
        app.seen.clear()
        sc = {"type": "lifespan"}
        await mw(sc, None, None)
        x.check(app.seen == [sc] and app.seen[0] is sc, "lifespan")

    asgi.result(rt.run(main))
    x.outcome(case)


def both_cases(tier):
    yield "trusted first"
    yield "https first"


@C.family("together", both_cases, "both in one application, in both orders, every host and scheme in a row: nothing untrusted or insecure gets in, and following the redirects of a good client does")
def together(case, x):
    def app():
        mws = [Middleware(TrustedHostMiddleware, allowed_hosts=["www.a.org", "*.b.org"]), Middleware(HTTPSRedirectMiddleware)]
        return Starlette(routes=[Route("/{p:path}", lambda r: PlainTextResponse(str(r.url)))], middleware=mws if case == "trusted first" else mws[::-1])

    async def main():
        a = app()
        for name in HOSTNAMES:
            for scheme in ("http", "https"):
                host, sch, hops = name, scheme, 0
                while True:
                    srv = asgi.Server()
                    await a(asgi.scope("/q r", scheme=sch, query=b"x=%20", host=host.encode()), srv.receive, srv.send)
                    r = asgi.judge(srv.sent)
                    if r.status != 307:
                        break
                    u = r.get("location").decode()
                    sch, _, rest = u.partition("://")
                    host, _, tail = rest.partition("/")
                    x.check(tail == "q%20r?x=%20", "redirected to %s" % u)
                    hops += 1
                    x.check(hops <= 2, "redirected too often")
                good = name in ("www.a.org", "a.org") or name.endswith(".b.org")
                x.check(r.status == (200 if good else 400), "%s %s ended with %r" % (scheme, name, r))
                if good:
                    x.check(r.body.decode().startswith("https://"), "served %s" % r.body)
                    x.eq(hops, (scheme == "http") + (name == "a.org"), "redirects for %s %s" % (scheme, name))
                x.step()

    with rt.vthreads("inline"):
        asgi.result(rt.run(main))
    x.outcome(case)
