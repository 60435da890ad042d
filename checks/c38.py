"""C38 API schemas list exactly the documented endpoints."""
from __future__ import annotations

import copy
import itertools

import yaml

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.convertors import StringConvertor, register_url_convertor
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.middleware import Middleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import OpenAPIResponse, SchemaGenerator

C = Check("C38", [
    "endpoints are functions, methods and classes (partials have no docstring of their own)",
    "two routes with the same path and method: either one's entry",
    "schemas are made of YAML's own types",
])

register_url_convertor("My_1", StringConvertor())

# docstring kind -> (docstring, what it documents)
DOCS = {
    "none": (None, None),
    "empty": ("", None),
    "blank": ("\n    \n", None),
    "prose": ("Returns the thing.", None),
    "lines": ("""
    Returns the thing.

    At length.
    """, None),
    "bad": ("Note: see this: that", None),
    "bad2": ("""Returns a list:

    - of {things
    * and others: a: b
    """, None),
    "open": ("Takes: [a, b", None),
    "alias": ("Sends: *this", None),
    "tagged": ("Takes: !this one", None),
    "key": ("{[a]: b}", None),
    "control": ("summary: \x07", None),
    "date": ("Since: 2020-13-45", None),
    "time": ("At: 2020-01-01 25:61:00", None),
    "digits": ("Mask: 0b_", None),
    "tab": ("summary: x\n\tother: y", None),
    "list": ("- a\n- b", None),
    "number": ("42", None),
    "schema": ("""
        responses:
          200:
            description: A thing.
        """, {"responses": {200: {"description": "A thing."}}}),
    "flow": ("{summary: flow}", {"summary": "flow"}),
    "after": ("""Prose: first: here.

        ---
        summary: after
        """, {"summary": "after"}),
    "twice": ("summary: one\n---\nsummary: two\n---\nsummary: three\n", {"summary": "three"}),
    "prose last": ("summary: one\n---\nJust prose.\n", None),
    "nothing last": ("summary: one\n---\n", None),
    "bad last": ("summary: one\n---\na: b: c\n", None),
    "unicode": ("summary: 'caf\u00e9 \u2603'\ntags: [a, b]\n200: int key\n", {"summary": "caf\u00e9 \u2603", "tags": ["a", "b"], 200: "int key"}),
    "types": ("a: 1.5\nb: null\nc: true\nd: 2020-01-01\ne: '007'\nf: {200: x, default: y}\n",
              yaml.safe_load("{a: 1.5, b: null, c: true, d: 2020-01-01, e: '007', f: {200: x, default: y}}")),
}
VERBS = ["get", "post", "put", "patch", "delete", "options"]


def stamp(doc, tag):
    """The docstring of one endpoint: made its own by a tag, where it documents something."""
    text, value = DOCS[doc]
    if value is None:
        return text, None
    if text.startswith("{"):
        return "{summary: flow, x-tag: %s}" % tag, {"summary": "flow", "x-tag": tag}
    lines = text.rstrip().split("\n")
    indent = len(lines[-1]) - len(lines[-1].lstrip())
    if doc == "schema":
        indent = 8
    return "\n".join(lines + [" " * indent + "x-tag: %s" % tag, " " * 4 if text.startswith("\n") else ""]), {**value, "x-tag": tag}


class Built:
    def __init__(self):
        self.n = 0
        self.want = []  # (path, method, value or None)

    def tag(self):
        self.n += 1
        return "t%d" % self.n

    def function(self, doc, style):
        tag = self.tag()
        text, value = stamp(doc, tag)

        def f(request):  # pragma: no cover
            return PlainTextResponse(tag)

        async def af(request):  # pragma: no cover
            return PlainTextResponse(tag)

        if style == "method":
            class M:
                def m(self, request):  # pragma: no cover
                    return PlainTextResponse(tag)

            M.m.__doc__ = text
            return M().m, value
        fn = af if style == "async" else f
        fn.__doc__ = text
        return fn, value

    def cls(self, docs, style):
        attrs, values = {}, {}
        for verb, doc in docs.items():
            if doc == "off":
                attrs[verb] = None
                continue
            fn, values[verb] = self.function(doc, "async" if style == "async" else "def")
            attrs[verb] = fn
        attrs["__doc__"] = "summary: of the class"
        if style == "inherited":
            Base = type("Base", (HTTPEndpoint,), attrs)
            return type("View", (Base,), {"__doc__": "summary: of the subclass"}), values
        return type("View", (HTTPEndpoint,), attrs), values


def clean(path):
    """The path without convertor suffixes."""
    out, i = "", 0
    while i < len(path):
        if path[i] == "{":
            j = path.index("}", i)
            out += "{" + path[i + 1:j].split(":")[0] + "}"
            i = j + 1
        else:
            out += path[i]
            i += 1
    return out


# Descriptors: ("f", path, doc, methods, hidden, style), ("c", path, docs, methods, hidden, style), ("w", path), ("ws class", path),
# ("m", path, children, shape), ("h", host, children, shape), ("raw", path)

def build(desc, b, prefix, hidden_under=False):
    kind = desc[0]
    if kind == "f":
        _, path, doc, methods, hidden, style = desc
        fn, value = b.function(doc, style)
        if not hidden:
            for m in ({x.upper() for x in methods} if methods is not None else {"GET"}):
                if m != "HEAD":
                    b.want.append((clean(prefix + path), m.lower(), value, fn))
        return Route(path, fn, methods=methods, include_in_schema=not hidden)
    if kind == "c":
        _, path, docs, methods, hidden, style = desc
        View, values = b.cls(docs, style)
        if not hidden:
            for verb in VERBS:
                if verb in values and (methods is None or verb.upper() in methods):
                    b.want.append((clean(prefix + path), verb, values[verb], None))
        return Route(path, View, methods=methods, include_in_schema=not hidden)
    if kind == "w":
        async def ws(websocket):  # pragma: no cover
            """summary: a websocket"""

        return WebSocketRoute(desc[1], ws)
    if kind == "ws class":
        class Sock(WebSocketEndpoint):
            """summary: a websocket class"""

            async def get(self, websocket):  # pragma: no cover
                """summary: not http"""

        return WebSocketRoute(desc[1], Sock)
    if kind == "raw":
        async def app(scope, receive, send):  # pragma: no cover
            """summary: a mounted app"""

        return Mount(desc[1], app=app)
    _, where, children, shape = desc
    inner = prefix + (where.rstrip("/") if kind == "m" else "")
    routes = [build(d, b, inner) for d in children]
    if kind == "m":
        if shape == "routes":
            return Mount(where, routes=routes)
        if shape == "app":
            return Mount(where, app=Starlette(routes=routes))
        if shape == "middleware":
            return Mount(where, routes=routes, middleware=[Middleware(GZipMiddleware)])
        return Mount(where, app=Router(routes))
    return Host(where, app=Starlette(routes=routes) if shape == "app" else Router(routes))


def expected(b, base):
    """(fixed base fields, {(path, method): [acceptable values]})"""
    alts = {}
    for path, m, value, _ in b.want:
        if value is not None:
            alts.setdefault((path, m), []).append(value)
    return alts


def compare(x, got, base, alts, what):
    x.eq({k: v for k, v in got.items() if k != "paths"}, {k: v for k, v in base.items() if k != "paths"}, "base fields: %r" % (what,))
    x.check(isinstance(got.get("paths"), dict), "no paths", what)
    have = {(p, m): v for p, ops in got["paths"].items() for m, v in ops.items()}
    basep = {(p, m): v for p, ops in base.get("paths", {}).items() for m, v in ops.items()}
    want = {k: [v] for k, v in basep.items()}
    for k, vs in alts.items():
        want[k] = want.get(k, []) + vs
    x.check(set(have) == set(want), "entries missing %r, extra %r" % (sorted(set(want) - set(have)), sorted(set(have) - set(want))), what)
    for k, v in have.items():
        x.check(v in want[k], "entry %r is %r, documented %r" % (k, v, want[k]), what)
    empty = {p for p, ops in got["paths"].items() if not ops}
    x.check(not empty - {p for p, ops in base.get("paths", {}).items() if not ops}, "paths without operations: %r" % empty, what)


BASES = [
    {"openapi": "3.0.0", "info": {"title": "T", "version": "1.0"}},
    {},
    {"openapi": "3.0.0", "paths": {}, "components": {"x": [1, {"y": None}]}},
    {"info": {"title": "T"}, "paths": {"/base": {"get": {"summary": "base"}}, "/a": {"trace": {"summary": "by hand"}}, "/none": {}}},
]


def scheme(x, descs, bases, what, via=("get_schema",)):
    b = Built()
    routes = [build(d, b, "") for d in descs]
    alts = expected(b, None)
    for base in bases:
        given = copy.deepcopy(base)
        gen = SchemaGenerator(given)
        got = gen.get_schema(routes)
        compare(x, got, base, alts, (what, base))
        x.eq(gen.get_schema(routes=routes), got, "generated twice: %r" % (what,))
        x.eq(given, base, "the base schema was modified: %r" % (what,))
        # nothing of these routes in another schema of the same generator
        other = gen.get_schema([])
        compare(x, other, base, {}, ("afterwards", what, base))
        x.step(3)
        if "app" in via:
            respond(x, gen, routes, got, what)
    infos = SchemaGenerator({}).get_endpoints(routes)
    infos = [e for e in infos if e.func is not None]
    x.eq(sorted((e.path, e.http_method) for e in infos), sorted((p, m) for p, m, _, _ in b.want), "endpoints: %r" % (what,))
    x.outcome((len(b.want), len(alts)))


def respond(x, gen, routes, want, what):
    """The schema endpoint of an application with these routes."""
    def schema(request):
        return gen.OpenAPIResponse(request=request)

    app = Starlette(routes=[Route("/_schema", schema, include_in_schema=False)] + list(routes))
    r = asgi.ok(app, asgi.scope("/_schema"), threads="inline")
    x.check(r.status == 200 and r.get("content-type").startswith(b"application/vnd.oai.openapi"), "response %s" % r, what)
    x.eq(yaml.safe_load(r.body.decode("utf-8")), want, "the response parsed back: %r" % (what,))
    x.step()


# ---------------------------------------------------------------- docstrings

def doc_cases(tier):
    yield from DOCS


@C.family("docstrings", doc_cases, "every docstring kind on every endpoint kind x methods lists x hidden, with every base schema, direct and as a response")
def _(case, x):
    for style in ("def", "async", "method"):
        for methods in (None, ["GET"], ["POST"], ["get", "post"], ["HEAD"], ["TRACE", "PROPFIND"], ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"]):
            for hidden in (False, True):
                scheme(x, [("f", "/a", case, methods, hidden, style)], BASES, (case, style, methods, hidden), ("get_schema", "app"))
    for style in ("def", "async", "inherited"):
        for verbs in (["get"], ["post", "get"], ["head", "put"], VERBS + ["head", "trace"], []):
            for methods in (None, ["GET"], ["POST", "PUT"]):
                for hidden in (False, True):
                    scheme(x, [("c", "/a/{id:int}", {v: case for v in verbs}, methods, hidden, style)], BASES[:2] + BASES[3:], (case, style, verbs, methods, hidden),
                           ("get_schema", "app"))


def pair_doc_cases(tier):
    for a in DOCS:
        yield a


@C.family("mixed", pair_doc_cases, "class endpoints whose methods have docstrings of two kinds or are switched off; two functions on one path with different methods")
def _(case, x):
    for other in list(DOCS) + ["off"]:
        scheme(x, [("c", "/a", {"get": case, "post": other, "put": case}, None, False, "def")], BASES[:1], (case, other, "class"), ("app",))
        if other != "off":
            scheme(x, [("f", "/a", case, ["GET"], False, "def"), ("f", "/a", other, ["POST"], False, "async")], BASES[3:], (case, other, "functions"), ("app",))
            scheme(x, [("f", "/a", case, ["GET"], False, "def"), ("f", "/a", other, ["GET"], False, "async")], BASES[3:], (case, other, "same"), ("app",))


# --------------------------------------------------------------------- paths

PATHS = ["/a", "/", "/a/", "/{x}", "/{x:int}", "/a/{x:path}", "/{x:uuid}/b", "/{x}/{y:float}", "/a{x:int}b", "/a:b", "/{under_score:str}/c", "/{x:int}/{y:int}-{z:path}/{w:str}", "/{x:My_1}", "/\u00e9"]
MOUNTS = ["", "/", "/m", "/m/", "/{t}", "/{t:int}", "/m/{t:path}", "/{t:My_1}/x", "/a:b"]


def path_cases(tier):
    for m in MOUNTS:
        for shape in ("routes", "app", "router", "middleware"):
            yield m, shape
    for h in ("h", "{sub}.h", "{sub:str}.h"):
        for shape in ("app", "router"):
            yield "host " + h, shape


@C.family("paths", path_cases, "every mount pattern and host x every route pattern, one and two levels deep: the full path without convertors")
def _(case, x):
    where, shape = case
    for path in PATHS:
        leaf = [("f", path, "schema", None, False, "def"), ("c", path, {"put": "after", "delete": "prose"}, None, False, "def")]
        if where.startswith("host "):
            box = ("h", where[5:], leaf, shape)
        else:
            box = ("m", where, leaf, shape)
        scheme(x, [box], BASES[:1], (case, path), ("app",))
        scheme(x, leaf, BASES[:1], path)
        for outer in MOUNTS[2:] if x.tier == "thorough" or path in PATHS[2:6] else ("/o/{u:int}",):
            for oshape in ("routes", "app"):
                scheme(x, [("m", outer, [box], oshape)], BASES[:1], (case, path, outer), ("app",))
        scheme(x, [("h", "{h}.x", [box], "app")], BASES[:1], (case, path, "host"), ("app",))


# --------------------------------------------------------------------- trees

LEAVES = [
    ("f", "/a", "schema", None, False, "def"),
    ("f", "/a", "after", ["POST", "GET"], False, "async"),
    ("f", "/b/{x:int}", "flow", ["PUT"], False, "method"),
    ("f", "/a", "prose", None, False, "def"),
    ("f", "/a", "schema", None, True, "def"),
    ("c", "/a", {"get": "schema", "post": "none", "delete": "unicode", "head": "schema"}, None, False, "def"),
    ("c", "/c/{y}", {"options": "twice"}, None, False, "inherited"),
    ("c", "/a", {"get": "schema", "put": "schema"}, None, True, "async"),
    ("w", "/a"),
    ("ws class", "/w"),
    ("raw", "/a"),
]


def boxes(children):
    yield ("m", "/m", children, "routes")
    yield ("m", "/{t:int}", children, "app")
    yield ("m", "", children, "router")
    yield ("h", "h", children, "app")


def tree_pool(tier):
    pool = list(LEAVES)
    for leaf in LEAVES:
        pool += boxes([leaf])
    for a, b in itertools.product(LEAVES[:9:2], LEAVES[1:10:2]):
        pool.append(("m", "/m", [a, b], "routes"))
        pool.append(("m", "/n", [("h", "h", [a], "router"), b], "app"))
    for leaf in LEAVES[:7]:
        for inner in boxes([leaf]):
            pool += list(boxes([inner]))[:2]
    pool += [("m", "/e", [], "routes"), ("h", "h", [], "router")]
    return pool


def tree_cases(tier):
    pool = tree_pool(tier)
    for i in range(len(pool)):
        yield i


@C.family("trees", tree_cases, "every list of one or two entries over a pool of 160 leaves, mounts, hosts and nested ones, and every list of three leaves or "
                               "simple mounts: exactly the documented entries")
def _(case, x):
    pool = tree_pool(x.tier)
    a = pool[case]
    scheme(x, [a], BASES, case, ("app",))
    for j, b in enumerate(pool):
        scheme(x, [a, b], BASES[:1], (case, j), ("app",) if j % 4 == 0 else ())
        if case < 20 and (x.tier == "thorough" or j < 14):
            for k, c in enumerate(pool[:30]):
                scheme(x, [a, b, c], BASES[3:], (case, j, k))


# ----------------------------------------------------------------- histories

def hist_cases(tier):
    for base in range(len(BASES)):
        for n in (2, 3):
            yield base, n


@C.family("histories", hist_cases, "one generator for sequences of 2-3 applications, routes added in between, concurrent requests for the schema: each schema is its own routes'")
def _(case, x):
    k, n = case
    base = BASES[k]
    sets = [[LEAVES[0]], [LEAVES[1], LEAVES[5]], [("m", "/m", [LEAVES[2]], "routes")], [], [LEAVES[6]],
            [("f", "/base", "flow", ["GET", "POST"], False, "def")]]
    for seq in itertools.product(range(len(sets)), repeat=n):
        given = copy.deepcopy(base)
        gen = SchemaGenerator(given)
        made = []
        for i in seq:
            b = Built()
            routes = [build(d, b, "") for d in sets[i]]
            made.append((routes, expected(b, None), gen.get_schema(routes)))
        for (routes, alts, first), i in zip(made, seq):
            compare(x, first, base, alts, (case, seq, i))
            x.eq(gen.get_schema(routes), first, "the schema of routes %d after others" % i)
        x.eq(given, base, "the base schema was modified")
        # routes added to an application that has already answered
        app = Starlette()
        app.add_route("/_schema", lambda request: gen.OpenAPIResponse(request), include_in_schema=False)
        alts = {}
        for i in seq:
            b = Built()
            for d in sets[i]:
                app.routes.append(build(d, b, ""))
            for key, vals in expected(b, None).items():
                alts.setdefault(key, []).extend(vals)
            r = asgi.ok(app, asgi.scope("/_schema"), threads="inline")
            compare(x, yaml.safe_load(r.body.decode()), base, alts, (case, seq, "app"))
        x.step(2 * n)


def resp_cases(tier):
    yield 0


@C.family("response", resp_cases, "OpenAPIResponse over nested plain values: YAML that parses back to the same value, and only dictionaries")
def _(case, x):
    leaves = [None, True, 0, -1, 1.5, "", "x", "007", "yes", "null", "caf\u00e9", "a: b", "- x", "# c", "line\nline", " sp ", "\t", "{", "'", '"', "\u2028", "1e3", "2020-01-01", "*x", "&y", "!z", "\x7f", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16")]
    shared = {"s": [1, 2]}
    values = [{}, {"a": {}}, {"a": []}, {1: 2, "b": 3}, {"x": shared, "y": shared}, {"a": [[], [{}], [None]]}]
    values += [{"k": v} for v in leaves] + [{"k": [v, {"z": v}]} for v in leaves] + [{v: v} for v in leaves if isinstance(v, (str, int))]
    for v in values:
        body = OpenAPIResponse(copy.deepcopy(v)).body
        x.eq(yaml.safe_load(body.decode("utf-8")), v, "parsed back")
        r = OpenAPIResponse(v, status_code=203, headers={"x-a": "1"})
        x.check(r.status_code == 203 and r.headers["x-a"] == "1" and r.headers["content-type"] == "application/vnd.oai.openapi" and r.headers["content-length"] == str(len(body)),
                "headers", dict(r.headers))
        x.step()
    for v in ([], "x", None, 3, b"{}"):
        try:
            OpenAPIResponse(v)
        except AssertionError:
            continue
        x.fail("not a dictionary, but accepted: %r" % (v,))
