"""C26 CORS headers grant exactly the configured policy."""
from __future__ import annotations

import copy
import itertools
import re

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.cors import CORSMiddleware
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Route

C = Check("C26", [
    "a request has at most one Origin and one access-control-request-* header of each kind",
    "the application sets no access-control-allow-* headers of its own, and a new message for every response",
    "whether a refused origin is told the credentials and expose headers, and '*' or the origin itself for a request without cookie under allow-all with credentials, is not specified",
])

SAFE = {"accept", "accept-language", "content-language", "content-type"}
ALL = {"DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"}

ORIGINS = [(), ("https://a.org",), ("https://a.org", "https://b.org:8"), ("*",), ("https://a.org", "*"), ["null"]]
REGEXES = [None, r"https://.*\.c\.org", r"https://a\.org|http://x", r""]
METHODS = [("GET",), ("POST", "PUT"), ("*",), (), ("GET", "X-Y")]
HEADERS = [(), ("X-A",), ("x-a", "X-B", "Content-Type"), ("*",), ("X-A", "*")]

REQ_ORIGINS = ["https://a.org", "https://b.org:8", "https://x.c.org", "", "null", "HTTPS://A.ORG", "https://a.org/", "https://a.org.evil", "http://a.org", "https://b.org", "https://x.c.org.evil", "evilhttps://x.c.org", "https://xc.org", "https://x.c.org\n", "*", "http://x", "a.org", "https://a.org, https://evil", "https://\xe9.c.org"]
REQ_METHODS = ["GET", "POST", "get", "DELETE", "X-Y", "", "*", "GET, POST"]
REQ_HEADERS = [None, "x-a", "X-A, x-b", "x-a,x-b,content-type", "accept,Accept-Language , CONTENT-LANGUAGE", "x-a, bad", "bad", "*", " X-A ", "", ",", "x-a,,x-b", "x-a x-b", "xx-a"]


def allowed(cfg, origin):
    return "*" in cfg["allow_origins"] or origin in cfg["allow_origins"] or cfg["allow_origin_regex"] is not None and re.fullmatch(cfg["allow_origin_regex"], origin) is not None


class Text:
    """A response with text headers."""

    def __init__(self, r):
        self.status, self.body, self.r = r.status, r.body, r
        self.headers = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in r.headers]

    def all(self, name):
        return [v for k, v in self.headers if k == name]

    def key(self):
        return self.r.key()

    def __repr__(self):
        return repr(self.r)


def tokens(r, name):
    return [t.strip() for v in r.all(name) for t in v.split(",") if t.strip()]


def text(r, name):
    v = r.all(name)
    assert len(v) <= 1, "%s repeated: %s" % (name, v)
    return v[0] if v else None


def judge_preflight(cfg, req, r):
    """None, or what is wrong."""
    origin, method, headers = req["origin"], req["method"], req["headers"]
    bad = set()
    if not allowed(cfg, origin):
        bad.add("origin")
    if "*" in cfg["allow_methods"]:
        if method not in ALL:
            bad.add("method")
    elif method not in cfg["allow_methods"]:
        bad.add("method")
    names = [h.strip().lower() for h in (headers or "").split(",") if h.strip()]
    if "*" not in cfg["allow_headers"]:
        if any(n not in SAFE and n not in [h.lower() for h in cfg["allow_headers"]] for n in names):
            bad.add("headers")
    if r.status != (400 if bad else 200):
        return "status %d, expected %s" % (r.status, sorted(bad) or "ok")
    if bad:
        said = {w for w in ("origin", "method", "headers") if w in r.body.decode().replace("Disallowed CORS", "")}
        if said != bad:
            return "names %s, expected %s" % (said, bad)
    problem = judge_origin(cfg, req, r, True)
    if problem:
        return problem
    if "origin" not in bad:
        if set(tokens(r, "access-control-allow-methods")) != (ALL if "*" in cfg["allow_methods"] else set(cfg["allow_methods"])):
            return "allow-methods %r" % tokens(r, "access-control-allow-methods")
        got = {t.lower() for t in tokens(r, "access-control-allow-headers")}
        if "*" in cfg["allow_headers"]:
            if headers is not None and got != set(names):
                return "allow-headers %r" % got
        elif got != SAFE | {h.lower() for h in cfg["allow_headers"]}:
            return "allow-headers %r" % got
        if text(r, "access-control-max-age") != str(cfg["max_age"]):
            return "max-age %r" % r.all("access-control-max-age")


def judge_origin(cfg, req, r, preflight):
    acao = text(r, "access-control-allow-origin")
    origin = req["origin"]
    ok = allowed(cfg, origin)
    star = "*" in cfg["allow_origins"]
    cred = text(r, "access-control-allow-credentials")
    if not ok:
        if acao is not None:
            return "allow-origin %r for a refused origin" % acao
        if cred is not None and not cfg["allow_credentials"]:
            return "allow-credentials %r" % cred
        return
    if not star:
        want = [origin]
    elif preflight:
        want = [origin] if cfg["allow_credentials"] else ["*"]
    elif req["cookie"]:
        want = [origin]
    else:
        want = ["*", origin] if cfg["allow_credentials"] else ["*"]
    if acao not in want:
        return "allow-origin %r, expected %s" % (acao, want)
    if acao != "*" or origin == "*" and not star:
        if "origin" not in [t.lower() for t in tokens(r, "vary")]:
            return "allow-origin %r without Vary: Origin (%r)" % (acao, r.all("vary"))
    if cred != ("true" if cfg["allow_credentials"] else None):
        return "allow-credentials %r" % cred


APP_HEADERS = {"plain": [(b"content-length", b"2"), (b"x-app", b"1")], "vary": [(b"content-length", b"2"), (b"vary", b"Accept"), (b"x", b"1"), (b"x", b"2")], "varies": [(b"vary", b"A"), (b"content-length", b"2"), (b"vary", b"Cookie")], "none": None, "tuple": ((b"content-length", b"2"), (b"x", b"1"))}


class App:
    """Answers in its own way; remembers what it got."""

    def __init__(self, kind="plain"):
        self.kind, self.seen = kind, []

    async def __call__(self, scope, receive, send):
        self.seen.append(copy.deepcopy({k: v for k, v in scope.items() if k != "app"}))
        if scope["type"] != "http":
            return
        self.body = (await receive())["body"]
        m = {"type": "http.response.start", "status": 203}
        if APP_HEADERS[self.kind] is not None:
            m["headers"] = copy.copy(APP_HEADERS[self.kind])
        await send(m)
        await send({"type": "http.response.body", "body": b"o", "more_body": True})
        await send({"type": "http.response.body", "body": b"k"})


def judge_simple(cfg, req, r, app, sc):
    if len(app.seen) != 1 or app.seen[0] != sc or app.body != b"in":
        return "the application saw %s" % short(app.seen)
    app.seen.clear()
    if r.status != 203 or r.body != b"ok":
        return "answered %r" % r
    own = [(k.decode(), v.decode()) for k, v in APP_HEADERS[app.kind] or ()]
    rest = [(k, v) for k, v in r.headers if not k.startswith("access-control-") and k != "vary"]
    if rest != [(k, v) for k, v in own if k != "vary"]:
        return "headers %s" % r.headers
    vary = tokens(r, "vary")
    for k, v in own:
        if k == "vary" and v not in vary:
            return "lost Vary: %s (%s)" % (v, vary)
    if req["origin"] is None:
        if r.headers != own:
            return "headers without Origin: %s" % r.headers
        return
    extra = set(vary) - {v for k, v in own if k == "vary"} - {"Origin"}
    if extra:
        return "Vary %s" % extra
    problem = judge_origin(cfg, req, r, False)
    if problem:
        return problem
    expose = tokens(r, "access-control-expose-headers")
    if allowed(cfg, req["origin"]) and expose != list(cfg["expose_headers"]):
        return "expose-headers %r" % expose
    others = {k for k, v in r.headers if k.startswith("access-control-")} - {"access-control-allow-origin", "access-control-allow-credentials", "access-control-expose-headers"}
    if others:
        return "headers %s" % others


def request(origin, method="GET", acrm=None, acrh=None, cookie=False):
    hs = [(b"x-first", b"1")]
    if origin is not None:
        hs.append((b"origin", origin.encode("latin-1")))
    if acrm is not None:
        hs.append((b"access-control-request-method", acrm.encode()))
    if acrh is not None:
        hs.append((b"access-control-request-headers", acrh.encode()))
    if cookie:
        hs.append((b"cookie", b"a=1"))
    pre = origin is not None and method == "OPTIONS" and acrm is not None
    return {"origin": origin, "preflight": pre, "method": acrm, "headers": acrh, "cookie": cookie, "scope": asgi.scope("/p", method, headers=hs)}


async def exchange(mw, req, env=None, gate="", name=""):
    srv = asgi.Server([{"type": "http.request", "body": b"in", "more_body": False}], env=env, gate=gate, name=name)
    sc = copy.deepcopy(req["scope"])
    await mw(sc, srv.receive, srv.send)
    return Text(asgi.judge(srv.sent, framing=False))


def verdict(x, cfg, req, r, app, what=""):
    try:
        problem = judge_preflight(cfg, req, r) if req["preflight"] else judge_simple(cfg, req, r, app, req["scope"])
        if req["preflight"] and app.seen:
            problem = "a preflight reached the application"
    except AssertionError as e:
        problem = str(e)
    if problem:
        x.fail("%s%s %s %s cookie=%s: %s" % (what, req["scope"]["method"], req["origin"], (req["method"], req["headers"]), req["cookie"], problem), cfg, r)


def config(o, g, m, h, i):
    return {"allow_origins": ORIGINS[o], "allow_origin_regex": REGEXES[g], "allow_methods": METHODS[m], "allow_headers": HEADERS[h], "allow_credentials": bool(i & 1), "expose_headers": ((), ("X-E",), ("X-E", "X-F"), [])[i & 3], "max_age": (600, 5, 0, 86400)[i & 3]}


def policy_cases(tier):
    for o, g, m, h in itertools.product(range(len(ORIGINS)), range(len(REGEXES)), range(len(METHODS)), range(len(HEADERS))):
        yield (o, g, m, h)


@C.family("policies", policy_cases, "6 origin lists x 4 regexes x 5 method lists x 5 header lists x credentials/expose/max-age: every preflight and plain request over 19 origins (near misses included), 8 requested methods, 14 requested header lists, cookies; one middleware for all of them in a row, judged by a reference policy")
def policies(case, x):
    o, g, m, h = case
    some = [(o + g + m + h + j) % 4 for j in ((0, 1) if x.tier == "quick" else (0, 1, 2, 3))]
    for i in some:
        cfg = config(o, g, m, h, i)

        async def main():
            app = App(list(APP_HEADERS)[(o + m + h + i) % len(APP_HEADERS)])
            mw = CORSMiddleware(app, **cfg)
            n = 0
            for origin in [None] + REQ_ORIGINS:
                for acrm in [None] + REQ_METHODS:
                    if x.tier == "quick" and acrm in ("*", "GET, POST") and origin != "https://a.org":
                        continue
                    for acrh in REQ_HEADERS:
                        if acrm is None and acrh not in (None, "x-a", "bad"):
                            continue
                        if x.tier == "quick" and origin not in (None, "https://a.org", "https://x.c.org", "") and acrh not in (None, "bad", "X-A, x-b"):
                            continue
                        for cookie in (False, True):
                            req = request(origin, "OPTIONS", acrm, acrh, cookie)
                            if req["preflight"] and cookie and acrh != "x-a":
                                continue
                            verdict(x, cfg, req, await exchange(mw, req), app)
                            n += 1
                for method in ("GET", "HEAD", "POST", "options", "X-Y"):
                    for acrm in (None, "GET"):
                        for cookie in (False, True):
                            req = request(origin, method, acrm, None, cookie)
                            verdict(x, cfg, req, await exchange(mw, req), app)
                            n += 1
            x.step(n)

        asgi.result(rt.run(main))
    x.outcome(case)


# ------------------------------------------------------------- expressions

ATOMS = ["a", "b", ".", r"\.", "[ab]", "^a", "a$", r"\ba"]
REAL = [r"https://a\.org", r"https://a\.org:?", r"https://a\.org(:\d+)?", r"https?://a\.org", r"https://(a|aa)\.org", r"https://a\.org|https://b\.org", r"(https://a\.org|https://b\.org)/?", r"https://.*\.org", r".*a\.org", r"https://[a-z]+\.org", r"(?i)https://a\.org", r"https://a.org", r"^https://a\.org$", r"https://a\.org.*?", r"https://(?!evil)\w+\.org", r".*", r"", r"null"]
PIECES = (["", "x", "http://", "https://", "HTTPS://", "https://evil"], ["a", "aa", "b", "evil", "A", "a.org@b"], [".org", "xorg", "-org", ".ORG"], ["", ":", ":8", ":443", ".", "/", "/x", ".evil", "\n"])


def expression_cases(tier):
    ops = ["", "?", "*", "+", "{2}"]
    ones = [a + o for a in ATOMS for o in (ops if a[-1] not in "$" and a[0] != "^" else [""])]
    for one in ones:
        yield ("small", one)
    for r in REAL:
        yield ("real", r)


def shortest(n, alphabet="ab."):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


@C.family("expressions", expression_cases, "allow_origin_regex: every sequence, alternative and optional group of two of 32 atoms x every origin of up to 4 letters of an alphabet of 3; 18 realistic expressions x 1,296 origins: allowed exactly if the whole origin matches")
def expressions(case, x):
    kind, one = case
    if kind == "small":
        exprs = [one, "(%s)" % one, "(?:%s)?" % one]
        for _, two in expression_cases("quick"):
            if _ == "small":
                exprs += [one + two, one + "|" + two, "(%s)?%s" % (one, two)]
                if x.tier == "thorough":
                    exprs += ["(%s%s)*" % (one, two), "(%s|%s){1,2}" % (one, two), "%s(?=%s)%s" % (one, two, two)]
        origins = list(shortest(4 if x.tier == "quick" else 6))
    else:
        exprs, origins = [one], ["".join(t) for t in itertools.product(*PIECES)] + ["null", ""]

    async def main():
        n = 0
        for expr in exprs:
            try:
                pattern = re.compile(expr)
            except re.error:
                continue
            app = App()
            mw = CORSMiddleware(app, allow_origin_regex=expr, allow_origins=["https://z.org"])
            got = set()
            for i, origin in enumerate(origins):
                yes = pattern.fullmatch(origin) is not None
                sent = []

                async def receive():
                    return {"type": "http.request", "body": b"in", "more_body": False}

                async def send(m):
                    sent.append(m)

                pre = (i + n) % 3 == 0
                hs = [(b"origin", origin.encode("latin-1"))] + ([(b"access-control-request-method", b"GET")] if pre else [])
                await mw(asgi.scope("/p", "OPTIONS" if pre else "GET", headers=hs), receive, send)
                acao = [v.decode("latin-1") for k, v in sent[0]["headers"] if k.lower() == b"access-control-allow-origin"]
                app.seen.clear()
                if acao != ([origin] if yes else []):
                    x.fail("expression %r, origin %r (%s): allowed %s" % (expr, origin, "preflight" if pre else "request", acao))
                if pre and sent[0]["status"] != (200 if yes else 400):
                    x.fail("expression %r, origin %r: preflight answered %d" % (expr, origin, sent[0]["status"]))
                got.add((yes, pre))
            n += 1
            x.step(len(origins))
            x.outcome((expr, tuple(sorted(got))))

    asgi.result(rt.run(main))


REQS = [("https://a.org",), ("https://b.org:8", "POST"), ("https://evil", "GET"), (None,), ("https://a.org", "GET", None, None, True), ("https://evil", "GET", None, None, True), ("https://a.org", "OPTIONS", "GET", "x-a"), ("https://a.org", "OPTIONS", "GET", "x-secret"), ("https://evil", "OPTIONS", "GET", None), ("https://x.c.org", "OPTIONS", "PUT", "x-b", True), ("https://x.c.org", "GET"), ("*",)]
CONFS = [(2, 1, 2, 3, 1), (1, 0, 0, 1, 0), (3, 0, 2, 3, 0), (3, 0, 0, 2, 1), (0, 1, 1, 0, 2), (0, 0, 3, 0, 0), (4, 1, 4, 4, 3)]


def history_cases(tier):
    for c in CONFS:
        for kind in APP_HEADERS:
            for first in range(len(REQS)):
                yield (c, kind, first, 2 if tier == "quick" else 4)


@C.family("histories", history_cases, "all sequences of up to 2 (4) of 12 requests to one middleware: every answer equals that of a new middleware")
def histories(case, x):
    c, kind, first, depth = case
    cfg = config(*c)
    reqs = [request(*r) for r in REQS]

    async def main():
        fresh = []
        for req in reqs:
            app = App(kind)
            r = await exchange(CORSMiddleware(app, **cfg), req)
            verdict(x, cfg, req, r, app)
            fresh.append(r.key())
        for n in range(depth):
            for rest in itertools.product(range(len(reqs)), repeat=n):
                app = App(kind)
                mw = CORSMiddleware(app, **copy.deepcopy(cfg))
                for i in (first,) + rest:
                    r = await exchange(mw, reqs[i])
                    if r.key() != fresh[i]:
                        x.fail("%s after %s: %r, expected %r" % (REQS[i], [REQS[j] for j in (first,) + rest], r, fresh[i]))
                x.step()

    asgi.result(rt.run(main))
    x.outcome(case)


def concurrent_cases(tier):
    for c in CONFS:
        for a in range(len(REQS)):
            for b in range(a, len(REQS)):
                yield (c, a, b)


@C.family("concurrent", concurrent_cases, "every pair of the 12 requests at the same time, receive and send in every order: each answer is the one it gets alone")
def concurrent(case, x):
    c, a, b = case
    cfg = config(*c)
    reqs = [request(*REQS[a]), request(*REQS[b])]
    import anyio

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)
        apps = {}

        async def app(scope, receive, send):
            await apps[scope["path"]](scope, receive, send)

        mw = CORSMiddleware(app, **cfg)
        for i, req in enumerate(reqs):
            req["scope"]["path"] = "/%d" % i
            apps["/%d" % i] = App("vary")
        out = [None, None]

        async def one(i):
            out[i] = await exchange(mw, reqs[i], env, "rs", str(i))

        async def main():
            async with anyio.create_task_group() as tg:
                tg.start_soon(one, 0)
                tg.start_soon(one, 1)

        asgi.result(rt.run(main, env=env))
        for i in (0, 1):
            verdict(x, cfg, reqs[i], out[i], apps["/%d" % i], "concurrently: ")
        x.outcome((case, out[0].status, out[1].status))

    x.explore(go, 1 if x.tier == "quick" else 2, cap=4000)


def place_cases(tier):
    for c in CONFS:
        yield c


@C.family("places", place_cases, "in an application and around one, around streaming responses, for websocket and lifespan scopes: the same policy; what is not http passes untouched")
def places(case, x):
    cfg = config(*case)

    async def plain(request):
        return PlainTextResponse("ok", 203, headers={"x-app": "1"})

    async def stream(request):
        return StreamingResponse(iter(["o", "k"]), 203, headers={"Vary": "Accept"})

    async def main():
        inner = Starlette(routes=[Route("/p", plain, methods=["GET", "POST", "OPTIONS"]), Route("/s", stream, methods=["GET", "POST", "OPTIONS"])], middleware=[Middleware(CORSMiddleware, **cfg)])
        outer = CORSMiddleware(Starlette(routes=inner.routes), **cfg)
        for app in (inner, outer):
            for path in ("/p", "/s", "/missing"):
                for r in REQS:
                    req = request(*r)
                    req["scope"]["path"] = path
                    got = await exchange(app, req)
                    try:
                        problem = judge_preflight(cfg, req, got) if req["preflight"] else judge_origin(cfg, req, got, False) if req["origin"] is not None else None
                    except AssertionError as e:
                        problem = str(e)
                    x.check(problem is None, "%s on %s: %s" % (r, path, problem), got)
                    if not req["preflight"]:
                        x.check(got.status == (404 if path == "/missing" else 203), "%s on %s: %r" % (r, path, got))
                        if path == "/s":
                            x.check("Accept" in tokens(got, "vary"), "Vary %s" % got.all("vary"))
                        if r[0] is None:
                            x.check(not any(k.startswith("access-control") for k, _ in got.headers), "%r" % got)
                    x.step()
        for typ in ("websocket", "lifespan"):
            app = App()
            mw = CORSMiddleware(app, **cfg)
            sc = asgi.scope("/", type="websocket", headers=[(b"origin", b"https://evil")]) if typ == "websocket" else {"type": "lifespan"}
            want = copy.deepcopy(sc)
            given = []

            async def seen(scope, receive, send):
                given.append((scope, receive, send))

            mw.app = seen
            rcv, snd = object(), object()
            await mw(sc, rcv, snd)
            x.check(given[0][0] is sc and given[0][1:] == (rcv, snd) and sc == want, "%s scope was changed" % typ)

    asgi.result(rt.run(main))
    x.outcome(case)
