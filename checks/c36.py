"""C36 Class endpoints dispatch by method and answer the rest 405."""
from __future__ import annotations

import functools
import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse, Response
from starlette.routing import Host, Mount, Route, Router

C = Check("C36", [
    "request methods are upper-case tokens; Allow is judged over the seven methods the class lists (GET HEAD POST PUT PATCH DELETE OPTIONS)",
    "a callable attribute of a subclass whose name is a request method defines that method",
    "methods=[] is not explored",
])

STD = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"]
# other verbs, names of attributes every endpoint has, of a subclass's plain attributes, of builtins
OTHER = ["TRACE", "CONNECT", "PROPFIND", "X", "GE", "GETS", "DISPATCH", "METHOD_NOT_ALLOWED", "__INIT__", "__AWAIT__", "SCOPE", "RECEIVE", "SEND",
         "_ALLOWED_METHODS", "__CLASS__", "__DOC__", "__DICT__", "__MODULE__", "__REPR__", "__EQ__", "__HASH__", "__INIT_SUBCLASS__", "TITLE",
         "COUNT", "CACHE", "NOTHING"]
FLAVOURS = ["sync", "async", "mixed", "static", "class", "partial", "object", "inherited", "assigned"]


class Rec:
    def __init__(self):
        self.calls = []
        self.instances = []


def make(defined, flavour, rec, off=()):
    """An HTTPEndpoint subclass that defines the methods in `defined`."""

    def note(self, name, request):
        rec.calls.append((self, name, request))
        if self is not None:
            self.seen = getattr(self, "seen", 0) + 1
        return PlainTextResponse("%s %s" % (name, request.method), status_code=222, headers={"x-by": name})

    def one(name, kind):
        if kind == "sync":
            def m(self, request):
                return note(self, name, request)
        elif kind == "async":
            async def m(self, request):
                return note(self, name, request)
        elif kind == "static":
            @staticmethod
            async def m(request):
                return note(None, name, request)
        elif kind == "class":
            @classmethod
            def m(cls, request):
                return note(None, name, request)
        elif kind == "partial":
            async def impl(self, who, request):
                return note(self, who, request)

            m = functools.partialmethod(impl, name)
        elif kind == "object":
            class Obj:
                def __call__(self, request):
                    return note(None, name, request)

            m = Obj()
        return m

    attrs = {"title": "text", "count": 3, "cache": {}, "nothing": None, "__doc__": "A view."}
    methods = {}
    for i, n in enumerate(defined):
        kind = {"mixed": ("sync", "async")[i % 2], "inherited": "async", "assigned": "sync"}.get(flavour, flavour)
        methods[n.lower()] = one(n, kind)
    for n in off:
        attrs[n.lower()] = None

    def init(self, scope, receive, send):
        HTTPEndpoint.__init__(self, scope, receive, send)
        rec.instances.append(self)

    attrs["__init__"] = init
    if flavour == "inherited":
        half = len(methods) // 2
        items = list(methods.items())
        Base = type("Base", (HTTPEndpoint,), dict(items[:half]))
        Mixin = type("Mixin", (), dict(items[half:]))
        return type("View", (Mixin, Base), attrs)
    if flavour == "assigned":
        View = type("View", (HTTPEndpoint,), attrs)
        for k, v in methods.items():
            setattr(View, k, v)
        return View
    attrs.update(methods)
    return type("View", (HTTPEndpoint,), attrs)


PLACES = ["plain", "starlette", "router", "route", "mount", "mounted app", "host", "partial", "restricted"]


def place(where, View, methods=None):
    """-> (application, path, is it inside an application)"""
    if where == "plain":
        async def app(scope, receive, send):
            await View(scope, receive, send)

        return app, "/", False
    if where == "starlette":
        return Starlette(routes=[Route("/v", View)]), "/v", True
    if where == "router":
        return Router([Route("/v", View)]), "/v", False
    if where == "route":
        return Route("/v", View), "/v", False
    if where == "mount":
        return Starlette(routes=[Mount("/m", routes=[Route("/{a}/v", View)])]), "/m/1/v", True
    if where == "mounted app":
        return Starlette(routes=[Mount("/m", app=View)]), "/m/x", True
    if where == "host":
        return Starlette(routes=[Host("testserver", app=Router([Route("/v", View)]))]), "/v", True
    if where == "partial":
        app = Starlette()
        app.add_route("/v", View)
        return app, "/v", True
    if where == "restricted":
        return Starlette(routes=[Route("/v", View, methods=methods)]), "/v", True
    raise AssertionError(where)


def allow(r):
    hs = r.all("allow")
    if len(hs) != 1:
        return None
    items = [a.strip() for a in hs[0].decode().split(",")] if hs[0] else []
    return items


def judge(x, r, exc, rec, defined, method, what, custom=()):
    effective = method if method in defined or method in custom else ("GET" if method == "HEAD" and "GET" in defined else None)
    x.check(exc is None, "exception: %s" % short(exc), what)
    if effective is None:
        x.check(r.status == 405, "status %s" % r.status, what)
        got = allow(r)
        x.check(got is not None and sorted(got) == sorted(set(defined)), "Allow: %r, defined: %r" % (got, defined), what)
        x.check(not rec.calls, "a handler ran", what, rec.calls)
        return "405"
    x.check(r.status == 222 and r.body == ("%s %s" % (effective, method)).encode() and r.get("x-by") == effective.encode(), "answer of another method", what, r)
    x.eq(len(rec.calls), 1, "calls: %r" % (what,))
    return effective


def drive(reqs, backend="asyncio"):
    """[(app, scope)] -> [(sent, exception)] one after another"""
    out = []

    async def main():
        with rt.vthreads("inline"):
            for before, app, sc in reqs:
                before()
                srv = asgi.Server()
                try:
                    await app(sc, srv.receive, srv.send)
                    exc = None
                except Exception as e:
                    exc = e
                out.append((srv, exc))

    asgi.result(rt.run(main, None, backend))
    return out


def subset_cases(tier):
    for k in range(2 ** 7):
        yield k


@C.family("subsets", subset_cases, "all 128 subsets of the standard methods x ways of defining them x places x standard, custom and internal-name request methods: "
                                   "who answers, with what, 405 with exactly the defined methods")
def _(case, x):
    defined = [m for i, m in enumerate(STD) if case >> i & 1]
    combos = [(f, p) for f in FLAVOURS for p in PLACES[:-1]]
    if x.tier != "thorough":
        combos = [c for i, c in enumerate(combos) if (i + case) % 4 == 0]
    for flavour, where in combos:
        rec = Rec()
        View = make(defined, flavour, rec)
        app, path, in_app = place(where, View)
        methods = STD + OTHER
        for m in methods:
            (srv, exc), = drive([(lambda: (rec.calls.clear(), rec.instances.clear()), app, asgi.scope(path, m))])
            what = (defined, flavour, where, m)
            r = asgi.judge(srv.sent)
            x.step()
            res = judge(x, r, exc, rec, defined, m, what)
            x.eq(len(rec.instances), 1, "instances made for one request: %r" % (what,))
            inst = rec.instances[0]
            x.check(inst.scope["method"] == m and ("app" in inst.scope) == in_app, "scope of the instance", what)
            if rec.calls:
                self, _, request = rec.calls[0]
                x.check(self is None or (self is inst and self.seen == 1), "the instance was not fresh", what)
                x.check(isinstance(request, Request) and request.scope is inst.scope and request.method == m, "the request", what)
            x.outcome((res, where))


def off_cases(tier):
    for k in range(2 ** 7):
        yield k


@C.family("off", off_cases, "methods switched off with None in a subclass x custom methods: off is 405 and not in Allow, custom ones are dispatched")
def _(case, x):
    off = [m for i, m in enumerate(STD) if case >> i & 1]
    for flavour in ("sync", "async", "partial"):
        for where in ("plain", "starlette"):
            rec = Rec()
            Base = make(STD + ["PROPFIND", "LOCK"], flavour, rec)
            View = type("Off", (Base,), {m.lower(): None for m in off})
            on = [m for m in STD if m not in off]
            app, path, _ = place(where, View)
            for m in STD + ["PROPFIND", "LOCK", "UNLOCK", "SCOPE"]:
                if m == "HEAD" and "HEAD" in off and "GET" in on:
                    continue  # (switched off, or falls back)
                (srv, exc), = drive([(lambda: (rec.calls.clear(), rec.instances.clear()), app, asgi.scope(path, m))])
                x.step()
                r = asgi.judge(srv.sent)
                judge(x, r, exc, rec, on, m, (off, flavour, where, m), custom=("PROPFIND", "LOCK"))


# ----------------------------------------------------------- 405 as an exception

def exc_cases(tier):
    for where in ("starlette", "mount", "mounted app", "host", "partial"):
        for handler in ("405", "HTTPException", "HTTPException async"):
            yield where, handler


@C.family("handlers", exc_cases, "405 inside an application: the exception handlers see an HTTPException with the Allow header; outside there is none")
def _(case, x):
    where, handler = case
    for k in range(2 ** 7):
        defined = [m for i, m in enumerate(STD) if k >> i & 1]
        rec = Rec()
        seen = []

        def handle(request, exc):
            seen.append((request, exc))
            return JSONResponse({"custom": exc.status_code}, status_code=exc.status_code, headers={**(exc.headers or {}), "x-h": "1"})

        async def ahandle(request, exc):
            return handle(request, exc)

        View = make(defined, "mixed", rec)
        app, path, _ = place(where, View)
        app.exception_handlers = {405: handle} if handler == "405" else {HTTPException: handle if handler == "HTTPException" else ahandle}
        app.middleware_stack = None
        for m in STD + ["TRACE", "DISPATCH"]:
            seen.clear()
            (srv, exc), = drive([(lambda: (rec.calls.clear(), rec.instances.clear()), app, asgi.scope(path, m))])
            x.step()
            r = asgi.judge(srv.sent)
            res = judge(x, r, exc, rec, defined, m, (defined, case, m))
            if res == "405":
                x.check(len(seen) == 1 and isinstance(seen[0][1], HTTPException) and seen[0][1].status_code == 405 and r.get("x-h") == b"1", "the handler was not asked", case, m)
                x.check(seen[0][0].method == m, "the handler got another request", case, m)
            else:
                x.check(not seen, "the handler was asked", case, m)


# ------------------------------------------------------------- function routes

def spell(m, how):
    return {"upper": m, "lower": m.lower(), "title": m.title()}[how]


def fn_cases(tier):
    yield None
    for k in range(1, 2 ** 7):
        yield k


@C.family("functions", fn_cases, "function, method, partial and class endpoints x every methods list over the standard methods in any case and container x custom methods: "
                                 "default GET and HEAD for functions and everything for classes; explicit lists are honoured, GET brings HEAD")
def _(case, x):
    calls = []

    async def af(request):
        calls.append(request.method)
        return PlainTextResponse("fn", 223)

    def f(request):
        calls.append(request.method)
        return PlainTextResponse("fn", 223)

    class M:
        async def meth(self, request):
            calls.append(request.method)
            return PlainTextResponse("fn", 223)

        def __call__(self, request):  # pragma: no cover
            raise AssertionError

    async def asgi_fn(scope, receive, send):
        calls.append(scope["method"])
        await PlainTextResponse("fn", 223)(scope, receive, send)

    class Asgi:
        async def __call__(self, scope, receive, send):
            await asgi_fn(scope, receive, send)

    class PlainView:
        def __init__(self, scope, receive, send):
            self.args = scope, receive, send

        def __await__(self):
            return asgi_fn(*self.args).__await__()

    every = {m.lower(): lambda self, request: f(request) for m in STD + OTHER[:5]}
    View = type("View", (HTTPEndpoint,), every)
    eps = {"async": (af, 1), "sync": (f, 1), "method": (M().meth, 1), "partial": (functools.partial(functools.partial(f)), 1), "partial method": (functools.partial(M().meth), 1),
           "class": (View, 0), "asgi object": (Asgi(), 0), "asgi class": (PlainView, 0)}
    lists = []
    n = case or 0
    shapes = [list, tuple, set, lambda l: (m for m in l)]
    if case is None:
        lists = [(None, None), (["PROPFIND"], {"PROPFIND"}), (["get", "Propfind"], {"GET", "HEAD", "PROPFIND"}), (["GET", "get"], {"GET", "HEAD"})]
    else:
        ms = [m for i, m in enumerate(STD) if case >> i & 1]
        want = set(ms) | ({"HEAD"} if "GET" in ms else set())
        for i, how in enumerate(("upper", "lower", "title")):
            lists.append(([spell(m, how) for m in ms], want))
    for name, (ep, is_fn) in eps.items():
        for methods, want in lists:
            for how in ("Route", "add_route", "route=decorator", "router add_route", "plain router", "alone"):
                n += 1
                given = methods
                src = shapes[n % 4](methods) if methods is not None else None
                if how == "Route":
                    app = Starlette(routes=[Route("/v", ep, methods=src)])
                elif how == "add_route":
                    app = Starlette()
                    app.add_route("/v", ep, methods=src)
                elif how == "route=decorator":
                    app = Starlette()
                    import warnings

                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        x.check(app.route("/v", methods=src)(ep) is ep, "the decorator replaces the endpoint", name)
                elif how == "router add_route":
                    app = Starlette()
                    app.router.add_route("/v", ep, methods=src)
                elif how == "plain router":
                    app = Router([Route("/v", ep, methods=src)])
                else:
                    app = Route("/v", ep, methods=src)
                w = want if want is not None else ({"GET", "HEAD"} if is_fn else None)
                reqs = [(lambda: None, app, asgi.scope("/v", m)) for m in STD + OTHER[:5]]
                calls.clear()
                for (_, _, sc), (srv, exc) in zip(reqs, drive(reqs)):
                    m = sc["method"]
                    x.step()
                    what = (name, given, how, m)
                    x.check(exc is None, "exception %s" % short(exc), what)
                    r = asgi.judge(srv.sent)
                    if w is None or m in w:
                        x.check(r.status == 223 and r.body == b"fn" and calls[:1] == [m], "not dispatched: %s" % r, what)
                        calls.pop(0)
                    else:
                        got = allow(r)
                        x.check(r.status == 405 and got is not None and sorted(got) == sorted(w), "not refused: %s, methods are %s" % (r, w), what)
                x.check(not calls, "more calls than answers", name, given, how)


def both_cases(tier):
    for k in range(2 ** 4):
        yield k


@C.family("restricted", both_cases, "class endpoints restricted by the route: the route's 405 for methods outside its list, the class's for those it does not define")
def _(case, x):
    names = ["GET", "HEAD", "POST", "PUT"]
    defined = [m for i, m in enumerate(names) if case >> i & 1]
    for k in range(1, 2 ** 4):
        listed = [m for i, m in enumerate(names) if k >> i & 1]
        full = set(listed) | ({"HEAD"} if "GET" in listed else set())
        rec = Rec()
        View = make(defined, "async", rec)
        app, path, _ = place("restricted", View, methods=listed)
        for m in names + ["DELETE", "DISPATCH"]:
            (srv, exc), = drive([(lambda: (rec.calls.clear(), rec.instances.clear()), app, asgi.scope(path, m))])
            x.step()
            r = asgi.judge(srv.sent)
            what = (defined, listed, m)
            if m in full:
                judge(x, r, exc, rec, defined, m, what)
            else:
                x.check(r.status == 405 and sorted(allow(r)) == sorted(full) and not rec.instances, "the route's own 405: %s" % r, what)


# ------------------------------------------------------------- fresh instances

def fresh_cases(tier):
    for backend in ("asyncio", "trio"):
        for place_ in ("plain", "starlette"):
            for ms in itertools.product(["GET", "POST", "PUT", "TRACE"], repeat=2 if tier != "thorough" else 3):
                yield backend, place_, ms


@C.family("fresh", fresh_cases, "2-3 requests at once through one class endpoint, sync and async, every interleaving: each has an instance of its own")
def _(case, x):
    backend, where, ms = case

    def one(ch):
        env = rt.Env(ch, early=None)
        instances = []

        class View(HTTPEndpoint):
            state = None

            async def get(self, request):
                instances.append(self)
                self.state = request.headers["x-n"]
                await rt.Gate(env).wait("get" + self.state)
                self.state += "!"
                return PlainTextResponse(self.state + self.scope["method"])

            def post(self, request):
                instances.append(self)
                self.state = (self.state or "") + request.headers["x-n"]
                return PlainTextResponse(self.state + self.scope["method"])

            async def put(self, request):
                instances.append(self)
                await rt.Gate(env).wait("put")
                raise HTTPException(410, request.headers["x-n"])

        app, path, in_app = place(where, View)
        res = {}

        async def go(i, m):
            srv = asgi.Server()
            try:
                await app(asgi.scope(path, m, headers=[(b"x-n", b"%d" % i)]), srv.receive, srv.send)
                res[i] = srv, None
            except HTTPException as exc:
                res[i] = srv, exc

        async def main():
            import anyio

            with rt.vthreads("env"):
                async with anyio.create_task_group() as tg:
                    for i, m in enumerate(ms):
                        tg.start_soon(go, i, m)

        asgi.result(rt.run(main, env, backend))
        for i, m in enumerate(ms):
            srv, exc = res[i]
            if m == "PUT" and not in_app:
                x.check(isinstance(exc, HTTPException) and exc.detail == str(i), "exception of request %d" % i, ms)
                continue
            x.check(exc is None, "exception of request %d" % i, ms, short(exc))
            r = asgi.judge(srv.sent)
            want = {"GET": (200, b"%d!GET" % i), "POST": (200, b"%dPOST" % i), "PUT": (410, b"%d" % i)}.get(m)
            if want:
                x.eq((r.status, r.body), want, "request %d of %r" % (i, case))
            else:
                x.check(r.status == 405 and sorted(allow(r)) == ["GET", "POST", "PUT"], "405 of request %d" % i, case, r)
        x.check(len({id(i) for i in instances}) == len(instances), "an instance served two requests", case)
        x.outcome((ms, tuple(env.fired)))

    x.explore(one, 0, cap=2000)
