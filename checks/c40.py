"""C40 Connections present exactly their scope."""
from __future__ import annotations

import copy
import functools
import http
import itertools

import anyio
import anyio.from_thread

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.datastructures import Address, Headers, QueryParams, State
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket

C = Check("C40", [
    "scope headers are pairs of bytes with lower-case names in any container that can be iterated twice; query strings are UTF-8 forms of text",
    "HTTPException without a detail: status codes that have a standard phrase",
    "at most one Cookie header",
])



ABSENT = object()

# ------------------------------------------------------------- accessors

def outcome(fn):
    try:
        v = fn()
    except AssertionError as exc:
        return ("refused", None)
    except Exception as exc:
        return ("raised", type(exc).__name__)
    return ("value", v)


def read(name, c):
    """One accessor, as a plain comparable value."""
    if name == "method":
        return c.method
    if name == "headers":
        assert isinstance(c.headers, Headers)
        return [tuple(p) for p in c.headers.raw]
    if name == "query_params":
        assert isinstance(c.query_params, QueryParams)
        return c.query_params.multi_items()
    if name == "path_params":
        return c.path_params
    if name == "client":
        v = c.client
        assert v is None or isinstance(v, Address)
        return v if v is None else (v.host, v.port, tuple(v))
    if name == "cookies":
        return c.cookies
    if name == "session":
        return c.session
    if name == "auth":
        return c.auth
    if name == "user":
        return c.user
    if name == "app":
        return c.app
    if name == "state":
        assert isinstance(c.state, State)
        return True
    if name == "url":
        return str(c.url)
    if name == "base_url":
        return str(c.base_url)
    if name == "mapping":
        return dict(c), list(c), len(c), "type" in c, "nope" in c, c.get("nope", 3), c["type"], list(c.keys()), list(c.values()), list(c.items())
    raise AssertionError(name)


def expect(name, sc, kind):
    """What the accessor must say, from the scope alone."""
    if name == "method":
        return ("value", sc["method"])
    if name == "headers":
        return ("value", [(bytes(k), bytes(v)) for k, v in sc["headers"]])
    if name == "query_params":
        return ("value", ref_query((sc.get("query_string") or b"").decode("latin-1")))
    if name == "path_params":
        return ("value", sc.get("path_params", {}))
    if name == "client":
        v = sc.get("client")
        return ("value", None if v is None else (v[0], v[1], (v[0], v[1])))
    if name == "cookies":
        hs = [v for k, v in sc["headers"] if k == b"cookie"]
        return ("value", dict(p.split("=", 1) for p in hs[0].decode("latin-1").split("; ")) if hs else {})
    if name in ("session", "auth", "user"):
        return ("value", sc[name]) if name in sc else ("refused", None)
    if name == "app":
        return ("value", sc["app"]) if "app" in sc else ("raised", "KeyError")
    if name == "state":
        return ("value", True)
    return None


def unquote(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "+":
            out += b" "
        elif s[i] == "%" and i + 2 < len(s) + 0 and len(s[i + 1:i + 3]) == 2 and all(ch in "0123456789abcdefABCDEF" for ch in s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16))
            i += 2
        else:
            out += s[i].encode("utf-8")
        i += 1
    return out.decode("utf-8", "replace")


def ref_query(q):
    res = []
    for item in q.split("&"):
        if item:
            k, _, v = item.partition("=")
            res.append((unquote(k), unquote(v)))
    return res


HTTP_ACC = ["method", "headers", "query_params", "path_params", "client", "cookies", "session", "auth", "user", "app", "state", "url", "base_url", "mapping"]
WS_ACC = HTTP_ACC[1:]

KEYS = {
    "client": [ABSENT, None, ("h", 1), ["::1", 65535], ("", 0)],
    "path_params": [ABSENT, {}, {"a": 1, "b": "x"}],
    "session": [ABSENT, {}, {"k": [1]}],
    "auth": [ABSENT, "auth-object", None],
    "user": [ABSENT, "user-object", None],
    "app": [ABSENT, "the app"],
    "state": [ABSENT, {}, {"given": 1}],
    "query_string": [b"", b"a=1&b=%20+&a=&c", b"x=%C3%A9&%26=%3D", ABSENT],
    "server": [("h", 80), None, ABSENT, ("h", 8000)],
    "root_path": ["", "/r", ABSENT],
}
HEADERS = [
    [], [(b"host", b"h")], [(b"x-a", b"1"), (b"x-a", b"2"), (b"x-b", b"\xe9")], [(b"cookie", b"a=1; b=2")], [(b"cookie", b"a=1"), (b"host", b"h"), (b"x", b"")],
]
CONTAINERS = [list, tuple, lambda l: {i: p for i, p in enumerate(l)}.values(), lambda l: [list(p) for p in l]]


def mk(kind, hs, values):
    sc = {"type": kind, "path": values.get("root_path", "") + "/p" if values.get("root_path") is not ABSENT else "/p", "scheme": "http" if kind == "http" else "ws",
          "headers": hs, "extensions": {"x": {}}, "custom": ["kept"]}
    if kind == "http":
        sc["method"] = "GE-T"
    for k, v in values.items():
        if v is not ABSENT:
            sc[k] = copy.deepcopy(v)
    return sc


CLASSES = {"http": [HTTPConnection, Request], "websocket": [HTTPConnection, WebSocket]}


def view(cls, sc):
    if cls is WebSocket:
        return WebSocket(sc, receive=None, send=None)
    return cls(sc)


def frozen(sc):
    """A comparable picture of a scope: the containers of headers may change, state may appear."""
    return {k: ([(bytes(a), bytes(b)) for a, b in v] if k == "headers" else copy.deepcopy(v)) for k, v in sc.items()}


def check_one(x, cls, sc, names, what, twice=True):
    before = frozen(sc)
    ids = {k: id(v) for k, v in sc.items() if k != "headers"}
    c = view(cls, sc)
    x.check(c.scope is sc, "scope", what)
    for name in names:
        if name == "method" and cls is not Request:
            continue
        want = expect(name, sc, sc["type"])
        for _ in range(2):
            got = outcome(lambda: read(name, c))
            if want is not None:
                x.eq(got, want, "%s of %r" % (name, what))
            elif name == "mapping":
                w = dict(sc)
                x.eq(got, ("value", (w, list(w), len(w), True, False, 3, sc["type"], list(w.keys()), list(w.values()), list(w.items()))), "mapping access of %r" % (what,))
            else:
                x.check(got[0] == "value", "%s: %r" % (name, got), what)
        if want is not None and want[0] == "value" and name in ("session", "auth", "user", "app"):
            x.check(read(name, c) is sc[name], "%s is a copy" % name, what)
        if name == "path_params" and "path_params" in sc:
            x.check(c.path_params is sc["path_params"], "path_params is a copy", what)
    after = frozen(sc)
    if "state" not in before:
        x.check(after.pop("state", {}) == {}, "state", what)
    x.eq(after, before, "the scope after reading %r of %r" % (names, what))
    x.check(all(id(sc[k]) == v for k, v in ids.items()), "a value of the scope was replaced", what)
    x.step(len(names))


def value_cases(tier):
    for kind in ("http", "websocket"):
        for i in range(len(HEADERS)):
            for j in range(len(CONTAINERS)):
                yield kind, i, j


@C.family("scopes", value_cases, "all combinations of present and absent scope keys x header lists and containers: every accessor of every class, scope unchanged")
def _(case, x):
    kind, i, j = case
    keys = list(KEYS)
    full = ["client", "path_params", "session", "auth", "user", "app", "state"]
    for combo in itertools.product(*[KEYS[k][:2] if x.tier != "thorough" and n > 1 else KEYS[k] for n, k in enumerate(full)]):
        for q in KEYS["query_string"]:
            values = dict(zip(full, combo), query_string=q)
            for cls in CLASSES[kind]:
                sc = mk(kind, CONTAINERS[j](HEADERS[i]), values)
                check_one(x, cls, sc, HTTP_ACC, (cls.__name__, kind, HEADERS[i], values))
    for combo in itertools.product(*[KEYS[k] for k in ("query_string", "server", "root_path", "client", "user")]):
        values = dict(zip(("query_string", "server", "root_path", "client", "user"), combo))
        for cls in CLASSES[kind]:
            check_one(x, cls, mk(kind, CONTAINERS[j](HEADERS[i]), values), HTTP_ACC, (cls.__name__, kind, HEADERS[i], values))
    for k in keys:
        for v in KEYS[k]:
            for cls in CLASSES[kind]:
                check_one(x, cls, mk(kind, CONTAINERS[j](HEADERS[i]), {"query_string": b"", k: v}), HTTP_ACC, (cls.__name__, kind, k, v))


WRITES = {
    "cookies": lambda c: c.cookies.update(zz="1"),
    "cookies-clear": lambda c: c.cookies.clear(),
    "path_params": lambda c: c.path_params.update(zz="1"),
    "state": lambda c: setattr(c.state, "zz", "1"),
    "state-del": lambda c: (setattr(c.state, "yy", "1"), delattr(c.state, "yy")),
    "headers": lambda c: c.scope["headers"].append((b"zz", b"1")),
    "headers-mutable": lambda c: c.headers.mutablecopy().append("zz", "1"),
    "scope": lambda c: c.scope.update(zz="1"),
    "query": lambda c: c.query_params.multi_items().append(("zz", "1")),
    "auth": lambda c: "auth" in c.scope and c.auth.scopes.append("zz"),
    "session": lambda c: "session" in c.scope and c.session.update(zz="1"),
}


def apart_cases(tier):
    for kind in ("http", "websocket"):
        for i in range(len(HEADERS)):
            yield kind, i


@C.family("apart", apart_cases, "what is written on one connection (every pair of ways) is not seen by other connections with an equal scope, made before or after")
def _(case, x):
    kind, i = case

    def fresh(values):
        v = copy.deepcopy(values)
        return mk(kind, [(bytes(a), bytes(b)) for a, b in HEADERS[i]], v)

    for values in ({"query_string": b"a=1"}, {"query_string": b"", "path_params": {"p": 1}, "session": {"s": 1}, "state": {"t": 1}, "client": ("h", 1)}):
        for cls in CLASSES[kind]:
            for w1, w2 in itertools.product(WRITES, repeat=2):
                early = view(cls, fresh(values))
                for name in HTTP_ACC:
                    if name != "method" or cls is Request:
                        outcome(lambda: read(name, early))
                a = view(cls, fresh(values))
                for w in (w1, w2):
                    WRITES[w](a)
                what = (kind, cls.__name__, HEADERS[i], values, w1, w2)
                for sc in (fresh(values), early.scope):
                    c = view(cls, sc) if sc is not early.scope else early
                    for name in HTTP_ACC:
                        if name == "method" and cls is not Request:
                            continue
                        want = expect(name, fresh(values), kind)
                        if want is not None:
                            x.eq(outcome(lambda: read(name, c)), want, "%s after another connection was written on: %r" % (name, what))
                    x.check(not hasattr(c.state, "zz") and not hasattr(c.state, "yy"), "state of another connection", what)
                    x.check("zz" not in c.headers and "zz" not in c, "headers or scope of another connection", what)
                x.step(2 * len(HTTP_ACC))
                x.outcome(what)


def seq_cases(tier):
    for kind in ("http", "websocket"):
        for a in HTTP_ACC:
            yield kind, a


@C.family("sequences", seq_cases, "every sequence of four (five) accessors over two views of one scope, in every class: no accessor changes what another one says")
def _(case, x):
    kind, first = case
    base = {"query_string": b"a=1", "client": ("h", 1), "session": {"s": 1}, "user": "u", "path_params": {"p": 1}}
    for rest in itertools.product(HTTP_ACC, repeat=3 if x.tier != "thorough" else 4):
        names = (first,) + rest
        for with_state in (ABSENT, {"g": 1}):
            sc = mk(kind, [(b"cookie", b"a=1"), (b"host", b"h")], dict(base, state=with_state))
            before = frozen(sc)
            views = [view(cls, sc) for cls in CLASSES[kind]]
            for n, name in enumerate(names):
                c = views[n % len(views)]
                if name == "method" and not isinstance(c, Request):
                    continue
                want = expect(name, sc, kind)
                got = outcome(lambda: read(name, c))
                if want is not None:
                    x.eq(got, want, "%s in %r" % (name, names))
                else:
                    x.check(got[0] == "value", "%s in %r: %r" % (name, names, got))
            after = frozen(sc)
            if with_state is ABSENT:
                after.pop("state", None)
            x.eq(after, before, "scope after %r" % (names,))
        x.step(2)


def type_cases(tier):
    yield 0


@C.family("identity", type_cases, "equality, hashing and types of connections over every pair of views; scopes of the wrong type; default channels")
def _(case, x):
    scs = [mk("http", [], {}), mk("http", [], {}), mk("websocket", [], {}), mk("websocket", [], {})]
    views = []
    for sc in scs:
        for cls in CLASSES[sc["type"]]:
            views += [view(cls, sc), view(cls, sc)]
    for a, b in itertools.product(range(len(views)), repeat=2):
        va, vb = views[a], views[b]
        x.check((va == vb) == (a == b) and (va != vb) == (a != b), "equality of views %d and %d" % (a, b))
        x.step()
    x.check(len(set(views)) == len(views) and len({v: 1 for v in views}) == len(views), "hashing")
    for v in views:
        x.check(v != v.scope and v != dict(v.scope) and v.__eq__(v.scope) in (NotImplemented, False), "equal to its scope")
        h = hash(v)
        v.scope["later"] = 1
        x.check(hash(v) == h and v == v, "hash changed with the scope")
        del v.scope["later"]
    for t in ("lifespan", "other"):
        for f in (lambda: HTTPConnection({"type": t}), lambda: Request({"type": t}), lambda: WebSocket({"type": t}, None, None)):
            x.eq(outcome(f), ("refused", None), "scope type %s" % t)
    x.eq(outcome(lambda: Request(mk("websocket", [], {})))[0], "refused", "Request of a websocket")
    x.eq(outcome(lambda: WebSocket(mk("http", [], {}), None, None))[0], "refused", "WebSocket of http")

    async def main():
        try:
            await Request(mk("http", [], {})).body()
        except RuntimeError:
            pass
        else:
            return "a body without a receive channel"
        sc = mk("http", [], {})
        sc["extensions"] = {"http.response.push": {}}
        try:
            await Request(sc).send_push_promise("/x")
        except RuntimeError:
            return None
        return "a push without a send channel"

    x.eq(asgi.result(rt.run(main)), None, "missing channels")

    async def rcv():  # pragma: no cover
        return {}

    for raw in (b"\xe9", b"\xff\xfe", b"%E9%FF", b"\xc3\xa9"):
        for kind in ("http", "websocket"):
            for cls in CLASSES[kind]:
                q = view(cls, mk(kind, [], {"query_string": b"a=1&x=" + raw + b"&b=2"})).query_params
                x.check(list(q) == ["a", "x", "b"] and q["a"] == "1" and q["b"] == "2", "query parameters next to an odd one", raw)
    x.check(Request(mk("http", [], {}), rcv).receive is rcv, "receive")
    x.check(Request(mk("http", [], {"app": "A"})).app == "A", "app")
    try:
        views[0]["nope"]
    except KeyError:
        pass
    else:
        x.fail("a missing key is not a KeyError")


# ---------------------------------------------------------------------- state

OPS = ["set0", "set1", "get0", "get1", "del0", "del1", "item", "has1"]


def state_cases(tier):
    for kind in ("http", "websocket"):
        for given in (ABSENT, {}, {"k": "given"}):
            yield kind, given if given is ABSENT else dict(given)


@C.family("state", state_cases, "every sequence of up to four (five) state operations over two views made before or during the sequence, against a plain dictionary shared by all")
def _(case, x):
    kind, given = case
    depth = 5 if x.tier == "thorough" else 4
    for ops in itertools.product(OPS, repeat=depth):
        for late in (False, True):
            sc = mk(kind, [], {"state": given})
            model = dict(given) if given is not ABSENT else {}
            own = sc.get("state")
            views = [view(CLASSES[kind][0], sc), None if late else view(CLASSES[kind][1], sc)]
            for n, op in enumerate(ops):
                i = int(op[-1]) if op[-1].isdigit() else 0
                if views[i] is None:
                    views[i] = view(CLASSES[kind][1], sc)
                st = views[i].state if op != "item" else None
                if op.startswith("set"):
                    st.k = n
                    model["k"] = n
                elif op.startswith("get"):
                    x.eq(outcome(lambda: st.k), ("value", model["k"]) if "k" in model else ("raised", "AttributeError"), "%s in %r" % (op, ops))
                elif op.startswith("has"):
                    x.eq(hasattr(st, "k"), "k" in model, "hasattr in %r" % (ops,))
                elif op.startswith("del"):
                    if "k" in model:
                        del st.k
                        del model["k"]
                elif op == "item" and "state" in sc:
                    sc["state"]["k"] = n
                    model["k"] = n
            if "state" in sc:
                x.eq(sc["state"], model, "state after %r" % (ops,))
                x.check(own is None or sc["state"] is own, "the state of the server was replaced")
        x.step()


# ----------------------------------------------------------------------- push

PUSHED = [b"accept", b"accept-encoding", b"accept-language", b"cache-control", b"user-agent"]
OTHERS = [b"cookie", b"authorization", b"host", b"x-accept", b"accept-charset", b"accept-", b"content-type", b"if-none-match"]


def push_cases(tier):
    for k in range(2 ** 5):
        yield k


@C.family("push", push_cases, "every subset of the pushed headers x other headers around them x repeats x extensions: one message iff supported, the path, and exactly those headers")
def _(case, x):
    chosen = [h for i, h in enumerate(PUSHED) if case >> i & 1]
    exts = [ABSENT, {}, {"http.response.push": {}}, {"http.response.push": {"x": 1}, "tls": {}}, {"tls": {}}, {"http.response.pushed": {}}]
    for others in ([], OTHERS[:1], OTHERS):
        for repeat in (1, 2, 3):
            hs = []
            for n in range(repeat):
                for h in others:
                    hs.append((h, b"o%d" % n))
                for h in chosen:
                    hs.append((h, [b"v%d", b"", b"caf\xe9 %d"][n % 3].replace(b"%d", b"%d" % n)))
            for ext in exts:
                for path in ("/x.css", "", "/caf\u00e9?q=1#f", "style.css"):
                    sc = mk("http", hs, {})
                    del sc["extensions"]
                    if ext is not ABSENT:
                        sc["extensions"] = ext
                    sent = []

                    async def send(m):
                        sent.append(m)

                    async def main():
                        r = Request(sc, None, send)
                        a = await r.send_push_promise(path)
                        b = await r.send_push_promise(path + "2")
                        return a, b

                    before = frozen(sc)
                    x.eq(asgi.result(rt.run(main)), (None, None), "result")
                    what = (hs, ext, path)
                    x.step()
                    if ext is ABSENT or "http.response.push" not in ext:
                        x.check(not sent, "a push the server does not support", what)
                        continue
                    x.eq(len(sent), 2, "pushes: %r" % (what,))
                    for m, p in zip(sent, (path, path + "2")):
                        x.eq((m["type"], m["path"], set(m)), ("http.response.push", p, {"type", "path", "headers"}), "message: %r" % (what,))
                        for h in set(h for h, _ in hs) | set(PUSHED):
                            x.eq([v for k, v in m["headers"] if k == h], [v for k, v in hs if k == h] if h in PUSHED else [], "header %r: %r" % (h, what))
                        x.check(all(k in PUSHED for k, _ in m["headers"]), "other headers", what, m)
                    x.eq(frozen(sc), before, "scope")



def place_cases(tier):
    for place in ("function", "partial", "method", "sync", "endpoint", "endpoint-sync", "dispatch", "dispatch-after", "dispatch-inner", "handler", "status-handler", "raw"):
        for layers in itertools.product(("base", "gzip", "plain"), repeat=2):
            for n in range(3):
                for inside in ("route", "mount"):
                    yield place, layers[:n], inside


@C.family("push-places", place_cases, "functions, methods, sync code, class endpoints, dispatch functions and exception handlers, behind up to two layers, in a route or mount: "
          "each can push, before the response, iff the server supports it")
def _(case, x):
    place, layers, inside = case

    def build(log):
        async def push(request):
            log.append("push")
            await request.send_push_promise("/a")
            await request.send_push_promise("/b")

        async def function(request):
            await push(request)
            return PlainTextResponse("ok")

        def sync(request):
            anyio.from_thread.run(push, request)
            return PlainTextResponse("ok")

        async def quiet(request):
            return PlainTextResponse("ok")

        async def failing(request):
            raise KeyError("k")

        async def teapot(request):
            raise HTTPException(418)

        async def handler(request, exc):
            return await function(request)

        class Holder:
            async def method(self, request):
                return await function(request)

        class Async(HTTPEndpoint):
            async def get(self, request):
                return await function(request)

        class Sync(HTTPEndpoint):
            def get(self, request):
                return sync(request)

        class Raw:
            async def __call__(self, scope, receive, send):
                await (await function(Request(scope, receive, send)))(scope, receive, send)

        async def passing(request, call_next):
            return await call_next(request)

        async def before(request, call_next):
            await push(request)
            return await call_next(request)

        async def after(request, call_next):
            response = await call_next(request)
            await push(request)
            return response

        class Plain:
            def __init__(self, app):
                self.app = app

            async def __call__(self, scope, receive, send):
                await self.app(scope, receive, send)

        ep = {"function": function, "partial": functools.partial(function), "method": Holder().method, "sync": sync, "endpoint": Async, "endpoint-sync": Sync, "handler": failing,
              "status-handler": teapot, "raw": Raw()}.get(place, quiet)
        mws = [{"base": Middleware(BaseHTTPMiddleware, dispatch=passing), "gzip": Middleware(GZipMiddleware), "plain": Middleware(Plain)}[k] for k in layers]
        own = {"dispatch": before, "dispatch-after": after, "dispatch-inner": before}.get(place)
        mw = [Middleware(BaseHTTPMiddleware, dispatch=own)] if own else []
        routes = [Route("/x", ep, middleware=mw if place == "dispatch-inner" else [])]
        if inside == "mount":
            routes = [Mount("", routes=routes)]
        return Starlette(routes=routes, middleware=mws + (mw if place != "dispatch-inner" else []), exception_handlers={KeyError: handler, 418: handler})

    for ext in ({}, {"http.response.push": {}}):
        for backend in ("asyncio", "trio"):
            log = []
            app = build(log)
            srv = asgi.Server()

            async def main():
                await app(asgi.scope("/x", headers=[(b"accept", b"a/b"), (b"x-a", b"1")], extensions=ext), srv.receive, srv.send)

            with rt.vthreads("baton"):
                asgi.result(rt.run(main, None, backend))
            what = (place, layers, inside, ext, backend)
            x.eq(log, ["push"], "pushes attempted: %r" % (what,))
            want = [{"type": "http.response.push", "path": p, "headers": [(b"accept", b"a/b")]} for p in ("/a", "/b")] if ext else []
            x.eq([m for m in srv.sent if m["type"] == "http.response.push"], want, "pushes: %r" % (what,))
            x.eq(srv.sent[:len(want)], want, "pushes come first: %r" % (what,))
            r = asgi.judge(srv.sent[len(want):])
            x.eq((r.status, r.body), (200, b"ok"), "response: %r" % (what,))
            x.step()


# ----------------------------------------------------------------- exceptions

def exc_cases(tier):
    yield "http"
    yield "ws"


@C.family("exceptions", exc_cases, "every standard status x detail x headers, every close code x reason, positional and keyword: what was given, standard phrase as default")
def _(case, x):
    if case == "http":
        class Mine(HTTPException):
            pass

        details = [ABSENT, None, "", "detail", "caf\u00e9", "404: x"]
        headers = [ABSENT, None, {}, {"X-A": "1"}]
        for status in list(http.HTTPStatus) + [200, 404, 418, 500]:
            for d, h, cls in itertools.product(details, headers, (HTTPException, Mine)):
                for pos in (0, 1, 2, 3):
                    if (pos > 1 and d is ABSENT) or (pos > 2 and h is ABSENT):
                        continue
                    args, kw = [], {}
                    for n, (k, v) in enumerate((("status_code", status), ("detail", d), ("headers", h))):
                        if v is ABSENT:
                            continue
                        if n < pos:
                            args.append(v)
                        else:
                            kw[k] = v
                    e = cls(*args, **kw)
                    want = http.HTTPStatus(status).phrase if d in (ABSENT, None) else d
                    x.check(e.status_code == status and e.detail == want and e.headers is (None if h is ABSENT else h), "carries %r %r %r" % (e.status_code, e.detail, e.headers), (status, d, h))
                    x.check(str(e) == "%s: %s" % (status if type(status) is int else e.status_code, want) and want in repr(e) or repr(want) in repr(e), "text %s %r" % (e, e))
                    x.check(repr(e).startswith(cls.__name__ + "("), "repr %r" % e)
                    x.step()
        for status in range(100, 600):
            if status in set(int(s) for s in http.HTTPStatus):
                continue
            e = HTTPException(status, "mine", {"a": "b"})
            x.check((e.status_code, e.detail, e.headers) == (status, "mine", {"a": "b"}), "carries", status)
    else:
        for code in (1000, 1001, 1008, 1011, 3000, 4999):
            for reason in (ABSENT, None, "", "why", "caf\u00e9"):
                for pos in (0, 1, 2):
                    if pos == 2 and reason is ABSENT:
                        continue
                    args = [code, reason][:pos]
                    kw = {}
                    if pos < 1:
                        kw["code"] = code
                    if pos < 2 and reason is not ABSENT:
                        kw["reason"] = reason
                    e = WebSocketException(*args, **kw)
                    want = "" if reason in (ABSENT, None) else reason
                    x.check(e.code == code and e.reason == want and str(e) == "%d: %s" % (code, want) and repr(e) == "WebSocketException(code=%d, reason=%r)" % (code, want), "carries", e)
                    x.step()


# -------------------------------------------------------- views inside an app

def app_cases(tier):
    for backend in ("asyncio", "trio"):
        for where in ("route", "mount", "mounted app", "host"):
            for given in (ABSENT, {"life": "span"}):
                yield backend, where, None if given is ABSENT else given


@C.family("application", app_cases, "every view of one connection in an application - middleware of every kind, endpoint, exception handler, background, dependencies on HTTPConnection - "
                                    "shares state both ways and reads the same connection, on HTTP and websockets")
def _(case, x):
    backend, where, given = case
    for raises in (False, True):
        for first in ("asgi", "base", "endpoint"):
            seen = []

            def look(who, c):
                st = c.state
                seen.append((who, getattr(st, "trail", None), c.headers.get("x-n"), c.query_params.get("q"), tuple(c.client), c.cookies, getattr(st, "life", None)))
                if who == first or hasattr(st, "trail"):
                    st.trail = (getattr(st, "trail", "") or "") + who[0]

            class Pure:
                def __init__(self, app):
                    self.app = app

                async def __call__(self, scope, receive, send):
                    if scope["type"] == "lifespan":  # pragma: no cover
                        return await self.app(scope, receive, send)
                    look("asgi", HTTPConnection(scope))
                    await self.app(scope, receive, send)
                    look("Asgi out", HTTPConnection(scope))

            async def dispatch(request, call_next):
                look("base", request)
                r = await call_next(request)
                look("Base out", request)
                return r

            class Boom(Exception):
                pass

            async def endpoint(request):
                look("endpoint", request)
                look("fresh", Request(request.scope))
                if raises:
                    raise Boom()
                return PlainTextResponse("x")

            async def handler(request, exc):
                look("handler", request)
                return PlainTextResponse("h")

            async def ws(websocket):
                look("endpoint", websocket)
                look("fresh", HTTPConnection(websocket.scope))
                await websocket.accept()
                await websocket.close()

            inner = [Route("/x/{p:int}", endpoint), WebSocketRoute("/x/{p:int}", ws)]
            path = "/x/5"
            if where == "mount":
                inner, path = [Mount("/m/{t}", routes=inner)], "/m/a/x/5"
            elif where == "mounted app":
                inner, path = [Mount("/m", app=Starlette(routes=inner, exception_handlers={Boom: handler}, middleware=[Middleware(Pure)]))], "/m/x/5"
            elif where == "host":
                inner = [Host("{sub}.h", app=Starlette(routes=inner, exception_handlers={Boom: handler}))]
            app = Starlette(routes=inner, middleware=[Middleware(Pure), Middleware(BaseHTTPMiddleware, dispatch=dispatch), Middleware(Pure)], exception_handlers={Boom: handler})
            for kind in ("http", "websocket"):
                if kind == "websocket" and raises:
                    continue
                seen.clear()
                sc = asgi.scope(path, type=kind, host=b"a.h", headers=[(b"x-n", b"7"), (b"cookie", b"c=d")], query=b"q=%C3%A9", state=dict(given) if given else None)
                if kind == "websocket":
                    srv = asgi.WSServer([{"type": "websocket.connect"}])
                else:
                    srv = asgi.Server()

                async def main():
                    await app(sc, srv.receive, srv.send)

                asgi.result(rt.run(main, rt.Env(None), backend))
                trail = None
                whos = [s[0] for s in seen]
                x.check("endpoint" in whos and "asgi" in whos and ("handler" in whos) == raises, "views", whos)
                for who, t, n, q, client, cookies, life in seen:
                    what = (case, raises, first, kind, who)
                    x.eq(t, trail, "state seen by %r" % (what,))
                    x.eq((n, q, client, cookies, life), ("7", "\u00e9", ("testclient", 50000), {"c": "d"}, (given or {}).get("life")), "read by %r" % (what,))
                    if who == first or trail is not None:
                        trail = (trail or "") + who[0]
                x.step()
