"""C42 Every way of declaring an application builds the same one."""
from __future__ import annotations

import itertools
import warnings

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator

C = Check("C42", ["the reference is the application built from route objects handed to the constructor; that it behaves as it should is judged by C07, C09, C10 and C13"])


# ------------------------------------------------------------------------ items

class Item:
    """One declaration: what, and the arguments."""

    def __init__(self, kind, path, methods=None, name=None, schema=True, flavour="async"):
        self.kind, self.path, self.methods, self.name, self.schema, self.flavour = kind, path, methods, name, schema, flavour


POOL = [
    Item("http", "/a"),
    Item("http", "/a", ["POST"], "post_a", flavour="sync"),
    Item("http", "/b/{x:int}", ["get", "PUT"], "b", False),
    Item("http", "/c", flavour="class"),
    Item("http", "/c", ["DELETE"], "c", flavour="asgi"),
    Item("ws", "/a"),
    Item("ws", "/w/{y}", name="w"),
    Item("mount", "/a", name="m"),
    Item("mount", "", name=None),
    Item("host", "h.example", name="h"),
]


def endpoint(item, tag):
    if item.kind == "ws":
        async def ws(websocket):
            await websocket.accept()
            await websocket.send_text("%s %r" % (tag, sorted(websocket.path_params.items())))
            await websocket.close()
        ws.__name__ = "ws%d" % tag
        return ws
    if item.kind in ("mount", "host"):
        async def sub(request):
            return PlainTextResponse("%s sub %s %r" % (tag, request.method, sorted(request.path_params.items())))
        return Router(routes=[Route("/s", sub, name="s", methods=["GET", "POST"]), Route("/s/{z}", sub, name="z")])
    if item.flavour == "class":
        class View(HTTPEndpoint):
            async def get(self, request):
                """get: yes"""
                return PlainTextResponse("%s class get" % tag)

            def post(self, request):
                return PlainTextResponse("%s class post" % tag)
        View.__name__ = "View%d" % tag
        return View
    if item.flavour == "asgi":
        class Asgi:
            async def __call__(self, scope, receive, send):
                await PlainTextResponse("%s asgi %s" % (tag, scope["method"]))(scope, receive, send)
        return Asgi()
    if item.flavour == "sync":
        def f(request):
            return PlainTextResponse("%s sync %s %r" % (tag, request.method, sorted(request.path_params.items())))
    else:
        async def f(request):
            return PlainTextResponse("%s async %s %r" % (tag, request.method, sorted(request.path_params.items())))
    f.__name__ = "f%d" % tag
    f.__doc__ = "summary: f%d" % tag
    return f


def route(item, ep):
    if item.kind == "http":
        return Route(item.path, ep, methods=item.methods, name=item.name, include_in_schema=item.schema)
    if item.kind == "ws":
        return WebSocketRoute(item.path, ep, name=item.name)
    if item.kind == "mount":
        return Mount(item.path, app=ep, name=item.name)
    return Host(item.path, app=ep, name=item.name)


MANNERS = ("object", "add", "deco")


def declare(x, target, item, ep, how):
    """Declare `item` on an application or router."""
    kw = {}
    if item.name is not None:
        kw["name"] = item.name
    if item.kind in ("http",):
        if item.methods is not None:
            kw["methods"] = item.methods
        if not item.schema:
            kw["include_in_schema"] = False
    if how == "append":
        target.routes.append(route(item, ep))
    elif item.kind == "http":
        if how == "add":
            target.add_route(item.path, ep, **kw)
        elif how == "positional":
            target.add_route(item.path, ep, item.methods, item.name, item.schema)
        else:
            x.check(target.route(item.path, **kw)(ep) is ep, "the decorator replaces what it decorates")
    elif item.kind == "ws":
        if how == "add":
            target.add_websocket_route(item.path, ep, **kw)
        elif how == "positional":
            target.add_websocket_route(item.path, ep, item.name)
        else:
            x.check(target.websocket_route(item.path, **kw)(ep) is ep, "the decorator replaces what it decorates")
    elif how == "positional":
        getattr(target, item.kind)(item.path, ep, item.name)
    else:
        getattr(target, item.kind)(item.path, app=ep, **kw)


PROBES = [("http", m, p, "testserver") for p in ("/a", "/b/5", "/c", "/a/s") for m in ("GET", "POST", "HEAD", "PUT", "DELETE")] + [
    ("http", "GET", "/b/x", "testserver"), ("http", "GET", "/zz", "testserver"), ("http", "GET", "/a/", "testserver"), ("http", "POST", "/s", "testserver"), ("http", "OPTIONS", "/a", "testserver"),
    ("http", "GET", "/s", "h.example"), ("http", "GET", "/a", "h.example"), ("http", "GET", "/s/q", "h.example"),
    ("websocket", None, "/a", "testserver"), ("websocket", None, "/w/q", "testserver"), ("websocket", None, "/a/s", "testserver"), ("websocket", None, "/none", "testserver")]
NAMES = [("f0", {}), ("f1", {}), ("f2", {}), ("post_a", {}), ("b", {"x": 7}), ("c", {}), ("View0", {}), ("View1", {}), ("View2", {}), ("Asgi", {}), ("ws0", {}), ("ws1", {}), ("ws2", {}), ("w", {"y": "v"}), ("w", {}),
         ("m", {"path": "/p"}), ("m:s", {}), ("m:z", {"z": "k"}), ("s", {}), ("z", {"z": "k"}), ("h", {"path": "/p"}), ("h:s", {}), ("h:z", {"z": "k"})]


def look(routes):
    return [(type(r).__name__, getattr(r, "path", None) if not isinstance(r, Host) else r.host, r.name, sorted(r.methods or ()) if isinstance(r, Route) else None, getattr(r, "include_in_schema", None),
             id(getattr(r, "endpoint", None) or getattr(r, "app", None))) for r in routes]


async def answers(app, probes=PROBES):
    out = []
    for kind, method, path, host in probes:
        try:
            if kind == "http":
                srv = asgi.Server()
                await app(asgi.scope(path, method, [(b"host", host.encode())]), srv.receive, srv.send)
                r = asgi.judge(srv.sent)
                out.append((r.status, sorted((k, b",".join(sorted(v.split(b", ")))) if k == b"allow" else (k, v) for k, v in r.headers), r.body))
            else:
                srv = asgi.WSServer([{"type": "websocket.connect"}])
                await app(asgi.scope(path, headers=[(b"host", host.encode())], type="websocket"), srv.receive, srv.send)
                out.append(repr(srv.sent))
        except Exception as exc:
            out.append("%s %s" % (type(exc).__name__, exc))
    return out


def names(app):
    out = []
    for name, params in NAMES:
        try:
            url = app.url_path_for(name, **params)
            out.append((str(url), url.protocol, url.host))
        except NoMatchFound:
            out.append(None)
    return out


def observe(x, app):
    async def main():
        return await answers(app)

    with rt.vthreads("inline"):
        out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.step(len(PROBES))
    schema = SchemaGenerator({}).get_schema(app.routes)
    return {"answers": out.value, "names": names(app), "routes": look(app.routes), "schema": schema}


def same(x, got, want, what):
    for k in want:
        if got[k] != want[k]:
            pairs = [(a, b) for a, b in zip(got[k], want[k]) if a != b] if isinstance(want[k], list) else (got[k], want[k])
            i = next((i for i, (a, b) in enumerate(zip(got[k], want[k])) if a != b), None) if k in ("answers", "names") else None
            x.fail("%s: %s differ from those of the application built by its constructor%s: %s" % (
                what, k, "" if i is None else " at %r" % ((PROBES if k == "answers" else NAMES)[i],), short(pairs, 1500)))


def route_cases(tier):
    hows = ["ctor", "add", "deco", "positional", "append"]
    n = len(POOL)
    for container in ("app", "app.router", "router"):
        for i in range(n):
            for h in hows:
                yield (container, (i,), (h,))
        for pair in itertools.product(range(n), repeat=2):
            for hs in itertools.product(hows, repeat=2):
                if container != "app" and tier == "quick" and hs[0] == hs[1]:
                    continue
                yield (container, pair, hs)
    for t in itertools.permutations(range(n), 3):
        for hs in (("ctor", "add", "deco"), ("deco", "add", "deco"), ("add", "ctor", "add"), ("add", "add", "add"), ("positional", "deco", "add")):
            if tier == "quick" and (t[0] + 2 * t[1] + 3 * t[2] + len(hs[0]) + len(hs[1])) % 4:
                continue
            yield ("app", t, hs)


@C.family("routes", route_cases, "all sequences of up to 3 declarations (http function, class and ASGI endpoints, websocket, mount, host) x manner (constructor, add_*, decorator, positional, routes list) x application, its router, plain router: "
          "answers, reversed names, route list and schema equal those of the constructor's application")
def _(case, x):
    container, which, hows = case
    items = [POOL[i] for i in which]
    eps = [endpoint(it, n) for n, it in enumerate(items)]
    order = [n for n in range(len(items)) if hows[n] == "ctor"] + [n for n in range(len(items)) if hows[n] != "ctor"]
    make = Router if container == "router" else Starlette
    ref = make(routes=[route(items[n], eps[n]) for n in order])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        app = make(routes=[route(items[n], eps[n]) for n in order if hows[n] == "ctor"])
        target = app.router if container == "app.router" else app
        for n in order:
            if hows[n] != "ctor":
                declare(x, target, items[n], eps[n], hows[n])
    same(x, observe(x, app), observe(x, ref), "%s declared %s on %s" % ([(i.kind, i.path) for i in items], hows, container))
    x.outcome(case)


# --------------------------------------------------------------------- handlers

class Mine(Exception):
    pass


class Sub(Mine):
    pass


KEYS = [404, 405, 418, 500, HTTPException, Mine, Sub, Exception]
RAISE = {"/mine": Mine, "/sub": Sub, "/http": lambda: HTTPException(418), "/other": KeyError}


def handler(tag, flavour):
    if flavour:
        async def h(request, exc):
            return PlainTextResponse("%s %s" % (tag, type(exc).__name__), 499)
    else:
        def h(request, exc):
            return PlainTextResponse("%s %s" % (tag, type(exc).__name__), 499)
    return h


def handler_cases(tier):
    hows = ("ctor", "add", "deco")
    for k in (1, 2):
        for keys in itertools.product(range(len(KEYS)), repeat=k):
            for hs in itertools.product(hows, repeat=k):
                yield (keys, hs)
    for keys in itertools.product((1, 3, 5, 7) if tier == "quick" else range(len(KEYS)), repeat=3):
        for hs in (("ctor", "add", "deco"), ("add", "deco", "add"), ("deco", "deco", "ctor"), ("add", "add", "add")):
            yield (keys, hs)


@C.family("handlers", handler_cases, "all sequences of up to 3 exception handler registrations (repeated keys included) x constructor, add_exception_handler, decorator: the last one for a key counts, answers equal those of the constructor's application")
def _(case, x):
    keys, hows = case

    def raiser(make):
        async def f(request):
            raise make()
        return f

    routes = [Route(p, raiser(m)) for p, m in RAISE.items()]
    order = [n for n in range(len(keys)) if hows[n] == "ctor"] + [n for n in range(len(keys)) if hows[n] != "ctor"]
    hs = [handler(n, n % 2) for n in range(len(keys))]
    first = {}
    final = {}
    for n in order:
        final[KEYS[keys[n]]] = hs[n]
        if hows[n] == "ctor":
            first[KEYS[keys[n]]] = hs[n]
    given = dict(first)
    app = Starlette(routes=routes, exception_handlers=first)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in order:
            if hows[n] == "add":
                app.add_exception_handler(KEYS[keys[n]], hs[n])
            elif hows[n] == "deco":
                x.check(app.exception_handler(KEYS[keys[n]])(hs[n]) is hs[n], "the decorator replaces what it decorates")
    x.eq(first, given, "the dict handed in was changed")
    ref = Starlette(routes=routes, exception_handlers=final)
    probes = [("http", "GET", p, "testserver") for p in RAISE] + [("http", "GET", "/zz", "testserver"), ("http", "POST", "/mine", "testserver")]

    async def main():
        return await answers(app, probes), await answers(ref, probes)

    with rt.vthreads("inline"):
        out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    x.step(len(probes))
    x.eq(out.value[0], out.value[1], "handlers for %s registered %s" % ([KEYS[k] for k in keys], hows))
    x.outcome(case)


# ------------------------------------------------------------------- middleware

class Wrap:
    def __init__(self, app, log, *args, **kw):
        self.app, self.log, self.tag = app, log, (args, tuple(sorted(kw.items())))

    async def __call__(self, scope, receive, send):
        self.log.append(("in", self.tag))
        await self.app(scope, receive, send)
        self.log.append(("out", self.tag))


def dispatcher(log, tag):
    async def dispatch(request, call_next):
        log.append(("in", tag))
        response = await call_next(request)
        log.append(("out", tag))
        return response
    return dispatch


def mw_cases(tier):
    hows = ("ctor", "add", "base", "base-ctor", "deco")
    for k in range(1, 4 if tier == "quick" else 5):
        for hs in itertools.product(hows, repeat=k):
            yield hs


@C.family("middleware", mw_cases, "all sequences of up to 3 (thorough 4) middleware declarations (constructor, add_middleware, BaseHTTPMiddleware with dispatch, decorator): the later added the further out, arguments as given, the constructor's innermost in order")
def _(case, x):
    log, ref_log = [], []
    async def ok(request):
        return PlainTextResponse("ok")

    def entry(n, how, log):
        if how in ("base", "base-ctor", "deco"):
            return Middleware(BaseHTTPMiddleware, dispatch=dispatcher(log, n))
        return Middleware(Wrap, log, n, key=n)

    given = [entry(n, h, log) for n, h in enumerate(case) if h in ("ctor", "base-ctor")]
    copy = list(given)
    app = Starlette(routes=[Route("/", ok)], middleware=given)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n, h in enumerate(case):
            if h == "add":
                app.add_middleware(Wrap, log, n, key=n)
            elif h == "base":
                app.add_middleware(BaseHTTPMiddleware, dispatch=dispatcher(log, n))
            elif h == "deco":
                d = dispatcher(log, n)
                x.check(app.middleware("http")(d) is d, "the decorator replaces what it decorates")
    x.check(given == copy and len(given) == len(copy), "the list handed in was changed")
    order = [n for n in reversed(range(len(case))) if case[n] not in ("ctor", "base-ctor")] + [n for n in range(len(case)) if case[n] in ("ctor", "base-ctor")]
    for backend in ("asyncio", "trio"):
        del log[:]

        async def main():
            srv = asgi.Server()
            await app(asgi.scope("/"), srv.receive, srv.send)
            return asgi.judge(srv.sent)

        with rt.vthreads("inline"):
            out = rt.run(main, None, backend)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        x.eq(out.value.body, b"ok", "the answer")
        tags = [n if case[n] in ("base", "base-ctor", "deco") else ((n,), (("key", n),)) for n in order]
        x.eq([t for k, t in log if k == "in"], tags, "order of the middleware declared %s" % (case,))
        x.eq(sorted(map(repr, [t for k, t in log if k == "out"])), sorted(map(repr, tags)), "middleware left")
        x.step(len(log))
    x.eq(len(app.user_middleware), len(case), "user_middleware")
    x.outcome(case)


# ----------------------------------------------------------------- independence

ACTIONS = ["add_route", "route", "websocket", "mount", "host", "middleware", "handler", "startup", "shutdown", "router.add_route", "routes.append"]


def act(x, app, action, log):
    async def late(request):
        return PlainTextResponse("late")

    async def late_ws(websocket):
        await websocket.close(4999)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if action == "add_route":
            app.add_route("/late", late)
        elif action == "route":
            app.route("/late")(late)
        elif action == "websocket":
            app.add_websocket_route("/late", late_ws)
        elif action == "mount":
            app.mount("/late", Router(routes=[Route("/", late)]))
        elif action == "host":
            app.host("late.example", Router(routes=[Route("/", late)]))
        elif action == "middleware":
            app.add_middleware(Wrap, log, "late")
        elif action == "handler":
            app.add_exception_handler(404, late_handler)
        elif action in ("startup", "shutdown"):
            app.add_event_handler(action, lambda: log.append("late " + action))
        elif action == "router.add_route":
            app.router.add_route("/late", late)
        else:
            app.routes.append(Route("/late", late))


async def late_handler(request, exc):
    return PlainTextResponse("late", 404)


LATE = [("http", "GET", "/late", "testserver"), ("http", "GET", "/late/", "testserver"), ("http", "GET", "/", "late.example"), ("http", "GET", "/zz", "testserver"), ("http", "GET", "/first", "testserver"),
        ("websocket", None, "/late", "testserver")]


def twin_cases(tier):
    for shared in ("given", "absent", "empty"):
        for k in (1, 2):
            for acts in itertools.permutations(ACTIONS, k):
                yield (shared, acts)


@C.family("independent", twin_cases, "two applications built from the same (given, absent or empty) lists and dicts: what is declared on one (all sequences of up to 2 declarations) shows up neither in the other, nor in a new one, nor in the caller's objects")
def _(case, x):
    shared, acts = case
    log = []

    async def first(request):
        return PlainTextResponse("first")

    objs = {"given": dict(routes=[Route("/first", first)], middleware=[Middleware(Wrap, log, "first")], exception_handlers={500: late_handler},
                          on_startup=[lambda: log.append("up")], on_shutdown=[lambda: log.append("down")]),
            "empty": dict(routes=[], middleware=[], exception_handlers={}, on_startup=[], on_shutdown=[]), "absent": {}}[shared]
    before = {k: list(v.items()) if isinstance(v, dict) else list(v) for k, v in objs.items()}

    def make():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Starlette(**objs)

    def seen(app):
        del log[:]

        async def main():
            res = [await answers(app, LATE)]
            msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

            async def receive():
                return msgs.pop(0)

            async def send(m):
                log.append(m["type"])
            await app({"type": "lifespan", "state": {}}, receive, send)
            return res

        with rt.vthreads("inline"):
            out = rt.run(main)
        asgi.settled(out)
        if out.exc is not None:
            raise out.exc
        return out.value + [list(log), len(app.routes), len(app.user_middleware), sorted(map(str, app.exception_handlers))]

    want = seen(make())
    one, two = make(), make()
    for a in acts:
        act(x, one, a, log)
    got = seen(one)
    x.check(got != want, "declarations %s have no effect" % (acts,))
    x.eq(seen(two), want, "the other application after %s" % (acts,))
    x.eq(seen(make()), want, "a new application after %s" % (acts,))
    x.eq({k: list(v.items()) if isinstance(v, dict) else list(v) for k, v in objs.items()}, before, "the objects handed in")
    x.step(3 * len(LATE))
    x.outcome(case)


# --------------------------------------------------------------------- equality

def f1(request):
    pass


def f2(request):
    pass


async def asgi1(scope, receive, send):
    pass


async def asgi2(scope, receive, send):
    pass


R1, R2 = Router(routes=[Route("/x", f1)]), Router(routes=[Route("/y", f1)])
ROUTES = [
    (("route", "/a", f1, ("GET", "HEAD")), lambda: Route("/a", f1)), (("route", "/a", f1, ("GET", "HEAD")), lambda: Route("/a", f1, methods=["GET"])),
    (("route", "/a", f1, ("POST",)), lambda: Route("/a", f1, methods=["post"])), (("route", "/a", f2, ("GET", "HEAD")), lambda: Route("/a", f2)), (("route", "/b", f1, ("GET", "HEAD")), lambda: Route("/b", f1)),
    (("ws", "/a", f1), lambda: WebSocketRoute("/a", f1)), (("ws", "/a", f2), lambda: WebSocketRoute("/a", f2)), (("ws", "/b", f1), lambda: WebSocketRoute("/b", f1)),
    (("mount", "/a", "R1"), lambda: Mount("/a", app=R1)), (("mount", "/a", "R1"), lambda: Mount("/a/", app=R1)), (("mount", "/a", "R2"), lambda: Mount("/a", app=R2)), (("mount", "/b", "R1"), lambda: Mount("/b", app=R1)),
    (("mount", "/a", "R1"), lambda: Mount("/a", routes=[Route("/x", f1)])),
    (("mount", "/a", "A1"), lambda: Mount("/a", app=asgi1)), (("mount", "/a", "A2"), lambda: Mount("/a", app=asgi2)), (("mount", "", "A1"), lambda: Mount("/", app=asgi1)),
    (("mount", "/a", "E"), lambda: Mount("/a", routes=[])), (("host", "a", "A1"), lambda: Host("a", app=asgi1)), (("host", "a", "A2"), lambda: Host("a", asgi2)),
    (("host", "a", "R1"), lambda: Host("a", app=R1)), (("host", "a", "R2"), lambda: Host("a", app=R2)), (("host", "b", "R1"), lambda: Host("b", app=R1)),
    (("other", 0), lambda: "/a"), (("other", 1), lambda: None),
]


def eq_cases(tier):
    return list(range(len(ROUTES)))


@C.family("equality", eq_cases, "all pairs of routes, and of routers of up to 2 routes: equal exactly if kind, path or host, endpoint or application, and methods are; in order")
def _(case, x):
    ka, ma = ROUTES[case]
    for kb, mb in ROUTES:
        a, b = ma(), mb()
        x.eq(bool(a == b), ka == kb, "%r == %r" % (ka, kb))
        x.eq(bool(a != b), ka != kb, "%r != %r" % (ka, kb))
        if ka[0] != "other" and kb[0] != "other":
            for (kc, mc), (kd, md) in itertools.product(ROUTES[:-2:2], repeat=2):
                x.eq(Router(routes=[a, mc()]) == Router(routes=[b, md()]), (ka, kc) == (kb, kd), "routers %r and %r" % ((ka, kc), (kb, kd)))
            x.eq(Router(routes=[a, b]) == Router(routes=[a]), False, "a router and a shorter one")
            x.eq(Router(routes=[a]) == [a], False, "a router and a list")
        x.step()
        x.outcome((ka, kb))


# ---------------------------------------------------------------------- refused

SEG = ["/a", "/{x}", "/{x:int}", "/{y:path}", "/{x:nope}", "/{y:INT}", "/{x}-{y:float}", "b", "/{path}", ""]
MANNERS = ["Route", "WebSocketRoute", "Mount", "Host", "add_route", "add_websocket_route", "mount", "host", "@route", "@websocket_route", "router.add_route", "router.add_websocket_route", "router.mount", "router.host", "Mount of Route", "Mount of Mount"]


def attempt(app, manner, path):
    """Make the declaration; returns the route objects it made."""
    before = len(app.router.routes)
    if manner in ("Route", "WebSocketRoute", "Mount", "Host"):
        r = {"Route": lambda: Route(path, f1), "WebSocketRoute": lambda: WebSocketRoute(path, f1), "Mount": lambda: Mount(path, app=asgi1), "Host": lambda: Host(path, app=asgi1)}[manner]()
        app.router.routes.append(r)
    elif manner == "Mount of Route":
        app.router.routes.append(Mount("/m", routes=[Route(path, f1)]))
    elif manner == "Mount of Mount":
        app.router.routes.append(Mount("/m", routes=[Mount(path, routes=[])]))
    else:
        target = app.router if manner.startswith("router.") else app
        what = manner.replace("router.", "")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what.startswith("@"):
                getattr(target, what[1:])(path)(f1)
            elif what.startswith("add"):
                getattr(target, what)(path, f1)
            else:
                getattr(target, what)(path, asgi1)
    return app.router.routes[before:]


def refused_cases(tier):
    paths = sorted({"".join(p) for n in (1, 2, 3) for p in itertools.product(SEG, repeat=n)})
    return [(m, paths[i::4]) for m in MANNERS for i in range(4)]


@C.family("refused", refused_cases, "path patterns of up to 3 segments with known and unknown convertors, repeated parameter names, without the leading slash, declared in 16 manners: refused exactly if bad, and then nothing is declared; else it is there with its path")
def _(case, x):
    manner, paths = case
    import re
    for path in paths:
        params = [(n, t or "str") for n, t in re.findall(r"\{(\w+)(?::(\w+))?\}", path)]
        kind = "mount" if "ount" in manner and manner != "Mount of Route" else "host" if manner.lower().endswith("host") else "route"
        names = [n for n, _ in params] + (["path"] if kind == "mount" else [])
        bad = set()
        if any(t not in ("str", "int", "float", "path", "uuid") for _, t in params):
            bad.add("AssertionError")
        if len(set(names)) < len(names):
            bad.add("ValueError")
        if not path.startswith("/") and (kind == "route" or kind == "mount" and path):
            bad.add("AssertionError")
        if kind == "host" and path.startswith("/"):
            bad.add("AssertionError")
        app = Starlette(routes=[Route("/first", f1)])
        before = list(app.routes)
        try:
            made = attempt(app, manner, path)
        except (AssertionError, ValueError) as e:
            x.check(type(e).__name__ in bad, "%s of %r was refused: %r" % (manner, path, e), sorted(bad))
            x.eq(list(app.routes), before, "routes after the refused %s of %r" % (manner, path))
        else:
            x.check(not bad, "%s of %r was accepted" % (manner, path), sorted(bad))
            x.eq([len(app.routes), len(made)], [len(before) + 1, 1], "routes after %s of %r" % (manner, path))
        x.step()
        x.outcome((manner, sorted(bad)))
