"""C14 URL reversal and matching are inverse."""
from __future__ import annotations

import itertools
import uuid

from mc import asgi, rt
from mc.core import Check, short
from mc.refroute import ADMIT, CONVERT, Entry, parse, splits

from starlette.applications import Starlette
from starlette.convertors import Convertor, register_url_convertor
from starlette.endpoints import HTTPEndpoint
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute

C = Check("C14", [
    "patterns read in only one way (no two parameters next to each other that both admit the text between them)",
    "no parameter name is used twice between a mount or host and what it contains",
    "values given are of the type the convertor produces (numbers below 4300 digits, floats up to 15 decimals, path values without line breaks)",
])


class Hex(Convertor):
    regex = "0x[0-9a-f]+"

    def convert(self, value):
        return int(value, 16)

    def to_string(self, value):
        assert value >= 0
        return hex(value)


class Colour(Convertor):
    regex = "red|green"

    def convert(self, value):
        return value.upper()

    def to_string(self, value):
        assert value in ("RED", "GREEN")
        return value.lower()


def setup():
    register_url_convertor("hex", Hex())
    register_url_convertor("colour", Colour())
    ADMIT["hex"] = lambda s: len(s) > 2 and s[:2] == "0x" and all(c in "0123456789abcdef" for c in s[2:])
    CONVERT["hex"] = lambda s: int(s, 16)
    ADMIT["colour"] = lambda s: s in ("red", "green")
    CONVERT["colour"] = lambda s: s.upper()


VALUES = {
    "str": ["a", "0", "{b}", "{a}", "{c}", "{a:int}", "a b", "\u00e9\U0001f600", "%2F", "a.b", "-", "\\1", "\\g<0>", "\\", ".*", "?", "#x", "[a]", "(", "$", "^", "|", "a\n", "{", "}", "{}", "{path}", "..", "~", "&=", "+", ":", "@", " "],
    "int": [0, 1, 7, 10, 2 ** 31, 2 ** 63, 10 ** 30, 10 ** 200],
    "float": [0.0, 0.5, 1.0, 10.0, 100.0, 1.25, 3.141592653589793, 1e-15, 0.000123, 0.1 + 0.2, 1e15, 1e15 + 0.5, 1e22, 123456789.123456, 2.5e-7, 0.1, 999999999999999.9, 5],
    "uuid": [uuid.UUID(int=0), uuid.UUID("12345678-1234-5678-1234-567812345678"), uuid.UUID("ABCDEFAB-CDEF-ABCD-EFAB-CDEFABCDEFAB"), uuid.UUID(int=2 ** 128 - 1)],
    "path": ["", "a", "a/b", "/a", "a/", "a//b", "//", "{a}/{b}", "a b/\u00e9", "%2F/..", "..", "\\1/\\g<0>", "{path}", "a.b/c?d#e"],
    "hex": [0, 255, 2 ** 70],
    "colour": ["RED", "GREEN"],
}
SHORT = {"str": ["a", "{b}", "{a}", "{c}", "\\1", "\u00e9 ", "a\n"], "int": [0, 10, 2 ** 63], "float": [0.0, 10.0, 3.141592653589793, 1e-15, 1e22], "uuid": VALUES["uuid"][1:3], "path": ["", "a/b", "/{a}/", "{b}"], "hex": [255],
         "colour": ["RED"]}
TINY = {"str": ["a", "{c}", "{a}"], "int": [10], "float": [2.5e-7, 100.0], "uuid": VALUES["uuid"][1:2], "path": ["", "x/{b}"], "hex": [0], "colour": ["GREEN"]}
NAMES = ["a", "b", "c"]
REFUSED = {
    "str": ["", "/", "a/b", "/a"],
    "int": [-1, -10 ** 20],
    "float": [-0.5, -1.0, float("nan"), float("inf"), float("-inf")],
    "hex": [-1],
    "colour": ["BLUE", "red"],
}


def same(got, want):
    """Same parameter names and values; ints given for a float come back as floats."""
    return got.keys() == want.keys() and all(got[k] == want[k] and (type(got[k]) is type(want[k]) or isinstance(want[k], int)) for k in want)


def record(log, id):
    async def ep(request):
        log.append((id, request.path_params))
        return PlainTextResponse("")

    async def ws(websocket):
        log.append((id, websocket.path_params))
        await websocket.accept()
        await websocket.close()

    return ep, ws


def request(app, path, log, kind="http", host=None):
    """Send a request for this path and say which endpoint ran."""
    del log[:]
    sc = asgi.scope(str(path), type=kind, headers=[(b"host", host.encode("utf-8"))] if host else ())
    srv = asgi.Server() if kind == "http" else asgi.WSServer([{"type": "websocket.connect"}])

    async def main():
        await app(sc, srv.receive, srv.send)

    out = rt.run(main)
    asgi.settled(out)
    if out.exc is not None:
        raise out.exc
    return log[0] if log else (None, short(srv.sent))


# -- every convertor, every value ------------------------------------------------------

def cases_single(tier):
    kinds = list(VALUES)
    lits = ["/", "/x/", "/x.y+(z)-", "/{-", "/}", "/\u00e9 "]
    for k in kinds:
        for pre in lits:
            for post in ("", "/", "/y", "/$", ".."):
                if k in ("float", "str", "hex") and post == "..":
                    continue
                if k == "str" and post == "" or post.startswith("/") or k in ("int", "uuid", "colour") or post == "":
                    yield ((k,), pre, "", post)
    for n in (2, 3):
        for ks in itertools.product(kinds, repeat=n):
            if "path" in ks[:-1]:
                continue
            for sep in ("/", "/-/"):
                yield (ks, "/", sep, "")
            if n == 2 and ks[0] in ("int", "uuid", "colour") and ks[1] in ("int", "uuid", "str", "colour", "hex"):
                yield (ks, "/", ",", "")
                yield (ks, "/x", "{", "}")


@C.family("values", cases_single, "patterns of up to three parameters over all convertors x every combination of values: reverse, match, convert back")
def _(case, x):
    ks, pre, sep, post = case
    path = pre + sep.join("{%s:%s}" % (n, k) if k != "str" or i % 2 else "{%s}" % n for i, (n, k) in enumerate(zip(NAMES, ks))) + post
    toks = parse(path)
    log = []
    ep, ws = record(log, "it")
    app = Router([Route(path, ep, name="it"), WebSocketRoute(path, ws, name="ws")])
    pools = [VALUES if len(ks) == 1 else SHORT if len(ks) == 2 or x.tier != "quick" else TINY][0]
    for vs in itertools.product(*(pools[k] for k in ks)):
        params = dict(zip(NAMES, vs))
        given = dict(params)
        u = app.url_path_for("it", **params)
        x.eq(params, given, "the caller's parameters changed")
        x.check(isinstance(u, str) and u.protocol == "http" and not u.host, "url_path_for gave %r protocol %r host %r" % (u, u.protocol, u.host))
        reads = list(splits(toks, str(u)))
        x.check(any(same({k: CONVERT[c](r[k]) for k, c in zip(NAMES, ks)}, params) for r in reads), "url_path_for(%r) on %r is %r: it does not read back as these values" % (params, path, str(u)))
        if len(reads) == 1:
            for kind, name in (("http", "it"), ("websocket", "ws")) if len(ks) == 1 else (("http", "it"),):
                if name == "ws":
                    w = app.url_path_for("ws", **params)
                    x.check(str(w) == str(u) and w.protocol == "websocket", "websocket URL %r protocol %r" % (w, w.protocol))
                id, got = request(app, u, log, kind)
                x.check(id == "it" and same(got, params), "round trip of %r through %r (%r)" % (params, path, str(u)), "endpoint got %r" % (got,))
        x.outcome((path, str(u)))
    x.sample = dict(pattern=path)


OTHER = {  # other ways to give a value: (what is given, what it means)
    "str": [(5, "5"), (0, "0"), (1.5, "1.5"), (uuid.UUID(int=1), str(uuid.UUID(int=1)))],
    "int": [("0", 0), ("12", 12), (True, 1), (3.0, 3), (str(10 ** 30), 10 ** 30)],
    "float": [("0.5", 0.5), ("3", 3.0), (True, 1.0), ("1e-5", 1e-5), (2 ** 60, float(2 ** 60))],
    "uuid": [(str(v), v) for v in VALUES["uuid"]],
    "path": [(5, "5"), (1.5, "1.5")],
}


def cases_other(tier):
    yield from OTHER


@C.family("other-types", cases_other, "values given as another type that means the same (numbers as text, text as numbers): the URL is that of the value meant, and it comes back as that")
def _(kind, x):
    log = []
    ep, ws = record(log, "it")
    app = Router([Route("/i/{a:%s}" % kind, ep, name="it"), Mount("/m/{b:%s}" % kind, routes=[Route("/x", ep, name="in")], name="m"), WebSocketRoute("/w/{a:%s}" % kind, ws, name="ws")])
    for given, meant in OTHER[kind]:
        for name, param, typ in (("it", "a", "http"), ("m:in", "b", "http"), ("ws", "a", "websocket")):
            u = app.url_path_for(name, **{param: given})
            x.eq(str(u), str(app.url_path_for(name, **{param: meant})), "URL for %r" % (given,))
            id, got = request(app, u, log, typ)
            x.check(id == "it" and same(got, {param: meant}), "round trip of %r through %r" % (given, str(u)), "endpoint got %r" % (got,))
        x.outcome((kind, repr(given)))


def cases_refused(tier):
    for k in REFUSED:
        for other in ("none", "before", "after"):
            for i in range(len(REFUSED[k])):
                for wrap in ("plain", "mount", "host", "in-mount", "ws"):
                    yield (k, i, other, wrap)


@C.family("refused", cases_refused, "values outside a convertor's range are refused with an assertion")
def _(case, x):
    k, i, other, wrap = case
    v = REFUSED[k][i]
    seg = {"none": "{a:%s}" % k, "before": "{b}/{a:%s}" % k, "after": "{a:%s}/{b}" % k}[other]
    params = {"a": v}
    if other != "none":
        params["b"] = "ok"
    log = []
    ep, ws = record(log, "it")
    if wrap == "plain":
        app, name = Router([Route("/" + seg, ep, name="n")]), "n"
    elif wrap == "ws":
        app, name = Router([WebSocketRoute("/" + seg, ws, name="n")]), "n"
    elif wrap == "mount":
        app, name = Router([Mount("/" + seg, routes=[Route("/x", ep, name="n")], name="m")]), "m:n"
    elif wrap == "host":
        app, name = Router([Host(seg.replace("/", ".") + ".org", app=Router([Route("/x", ep, name="n")]), name="m")]), "m:n"
    else:
        app, name = Router([Mount("/m", routes=[Route("/" + seg, ep, name="n")], name="m")]), "m:n"
    try:
        u = app.url_path_for(name, **params)
    except AssertionError:
        x.outcome((case,))
        return
    except NoMatchFound:
        x.fail("NoMatchFound for a refused value %r" % (v,))
    x.fail("the %s convertor accepted %r: %r" % (k, v, u))


# -- names, parameter sets, nesting -----------------------------------------------------

# kind, path, name, children
R, W, M, H, A = "route", "ws", "mount", "host", "app"
LEAVES = [(R, "/", "x", None), (R, "/l", "y", None), (R, "/{a}", "x", None), (R, "/{b:int}", "x", None), (R, "/{a}/{b:int}", "x", None), (W, "/w/{a}", "x", None), (R, "/p/{path:path}", "y", None), (R, "/{path}", "x", None),
          (R, "/{a}/q", "y", None)]
INNER = [
    (M, "/m", "m", None), (M, "/m", None, None), (M, "/{a}", "m", None), (M, "/{b:int}", None, None), (M, "", None, None), (M, "", "m", None), (M, "/k/{a}/{b:int}", "m", None), (M, "/m/", "x", None),
    (H, "h.org", "m", None), (H, "{a}.org", None, None), (H, "{b:int}.org:80", "m", None), (H, "h.org", None, None),
]
APPS = [(A, "/s", "x", None), (A, "/{a}", "m", None), (A, "/s", None, None)]


def own(d):
    return [t[0] for t in parse(d[1].rstrip("/") if d[0] in (M, A) else d[1]) if not isinstance(t, str)]


def all_names(d):
    return own(d) + [n for c in d[3] or [] for n in all_names(c)]


def ok_desc(d):
    """No parameter name occurs twice from a container to what it contains."""
    def walk(d, seen):
        o = own(d)
        if set(o) & seen:
            return False
        return all(walk(c, seen | set(o)) for c in d[3] or [])

    return walk(d, set())


def trees(depth):
    yield from LEAVES
    yield from APPS
    if depth == 0:
        return
    for m in INNER:
        for l in LEAVES:
            d = (m[0], m[1], m[2], [l])
            if ok_desc(d):
                yield d


def deep_trees():
    for m1 in INNER:
        for m2 in INNER:
            for l in LEAVES[2:7]:
                d = (m1[0], m1[1], m1[2], [LEAVES[1], (m2[0], m2[1], m2[2], [l, LEAVES[0]])])
                if ok_desc(d):
                    yield d


def sibling_trees():
    """Several mounts and hosts side by side, of equal or different names, inside one."""
    for m in INNER:
        for t1, t2 in itertools.permutations(INNER_TREES, 2):
            d = (m[0], m[1], m[2], [t1, t2])
            if ok_desc(d) and not (m[0] == H and H in (t1[0], t2[0])):
                yield d


def build(d, log, path=()):
    kind, p, name, children = d
    ep, ws = record(log, path)
    if kind == R:
        return Route(p, ep, name=name)
    if kind == W:
        return WebSocketRoute(p, ws, name=name)
    if kind == A:
        async def raw(scope, receive, send):
            log.append((path, dict(scope.get("path_params", {}), __rest=scope["path"][len(scope.get("root_path", "")):])))
            await PlainTextResponse("")(scope, receive, send)

        return Mount(p, app=raw, name=name)
    subs = [build(c, log, path + (i,)) for i, c in enumerate(children)]
    if kind == M:
        return Mount(p, routes=subs, name=name)
    return Host(p, app=Router(subs), name=name)


def resolve(descs, name, params):
    """Reference: -> list of chains (indices) in preference order: only the first counts."""
    for i, d in enumerate(descs):
        r = resolve1(d, name, params)
        if r is not None:
            return (i,) + r
    return None


def resolve1(d, name, params):
    kind, path, dname, children = d
    mine = set(own(d))
    keys = set(params)
    if kind in (R, W):
        return () if name == dname and keys == mine else None
    if dname is not None and name == dname and "path" in keys:
        return ("self",) if keys == mine | {"path"} else None
    if dname is None:
        sub = name
    elif name.startswith(dname + ":"):
        sub = name[len(dname) + 1:]
    else:
        return None
    if not mine <= keys:
        return None
    return resolve(children or [], sub, {k: v for k, v in params.items() if k not in mine})


def prune(descs, chain):
    """The same table with nothing but the chosen chain, and the values each level owns."""
    d = descs[chain[0]]
    if len(chain) == 1 or chain[1] == "self":
        return [d]
    return [(d[0], d[1], d[2], prune(d[3], chain[1:]))]


def expected(descs, chain, params):
    """(path, host, protocol) of the chain for values whose text form is plain str()."""
    path, host, proto = "", "", ""
    d = descs[chain[0]]
    vals = dict(params)

    def fill(p):
        return "".join(t if isinstance(t, str) else str(vals[t[0]]) for t in parse(p))

    if d[0] in (R, W):
        return fill(d[1]), "", "http" if d[0] == R else "websocket"
    if len(chain) > 1 and chain[1] == "self":
        if d[0] == H:
            return str(params["path"]), fill(d[1]), ""
        return fill(d[1].rstrip("/")) + "/" + params["path"].lstrip("/"), "", ""
    sub = expected(d[3], chain[1:], params)
    if d[0] == H:
        return sub[0], fill(d[1]), sub[2]
    return fill(d[1].rstrip("/")) + sub[0], sub[1], sub[2]


POOLV = {"a": ["v", "{b}"], "b": [5], "path": ["", "q", "/q/r"], "zz": ["1"]}
QNAMES = ["x", "y", "m", "m:x", "m:y", "x:x", "m:m:x", "m:m", "x:m:x", "m:x:x", "nope", "", "m:", ":x", "mm:x"]


def queries(names=("a", "b", "path")):
    for n in range(len(names) + 1):
        for keys in itertools.combinations(names, n):
            for vs in itertools.product(*(POOLV[k] for k in keys)):
                yield dict(zip(keys, vs))
    yield {"zz": "1"}
    yield {"a": "v", "zz": "1"}


def refuses(descs, chain, params):
    """Does a str parameter on the chain get an empty value or one with a slash?"""
    for i in chain:
        if i == "self":
            return False
        d = descs[i]
        for t in parse(d[1]):
            if not isinstance(t, str) and t[1] == "str" and ("/" in str(params[t[0]]) or str(params[t[0]]) == ""):
                return True
        descs = d[3] or []
    return False


def host_in_host(descs, chain):
    """Two host patterns on one chain: no single host name is the answer."""
    n = 0
    for i in chain:
        if i == "self":
            break
        n += descs[i][0] == H
        descs = descs[i][3] or []
    return n > 1


def check_table(x, descs, apps=("router", "starlette"), roundtrip=True, qnames=QNAMES):
    log = []
    routes = [build(d, log, (i,)) for i, d in enumerate(descs)]
    kinds = [Router(routes), Starlette(routes=routes)] if "starlette" in apps else [Router(routes)]
    for name in qnames:
        for params in queries():
            chain = resolve(descs, name, params)
            for k, app in enumerate(kinds):
                if k and (len(params) + len(name)) % 3:
                    continue
                ctx = "url_path_for(%r, %r) on %s" % (name, params, descs)
                try:
                    u = app.url_path_for(name, **params)
                except NoMatchFound:
                    x.check(chain is None, "NoMatchFound: " + ctx, "route %s fits" % (chain,))
                    x.outcome(("none", name, tuple(params)))
                    continue
                except Exception as exc:
                    if isinstance(exc, AssertionError) and chain is not None and refuses(descs, chain, params):
                        chain = None
                        break
                    x.fail("%r: %s" % (exc, ctx))
                x.check(chain is None or not refuses(descs, chain, params), "a refused value was accepted: " + ctx)
                x.check(chain is not None, "no route fits, but: " + ctx, "gave %r" % str(u))
                if host_in_host(descs, chain):
                    continue
                path, host, proto = expected(descs, chain, params)
                x.eq((str(u), u.host, u.protocol), (path, host, proto), ctx)
                x.outcome((str(u), u.host, u.protocol))
            if chain is None or not roundtrip or host_in_host(descs, chain):
                continue
            plog = []
            pruned = prune(descs, chain)
            sub = Router([build(pruned[0], plog, (0,))], redirect_slashes=False)
            d = pruned[0]
            while d[3] and len(d[3]) == 1:
                d = d[3][0]
            if chain[-1] == "self" and d[0] != A:
                continue
            if not path.startswith("/"):
                continue
            id, got = request(sub, path, plog, "websocket" if proto == "websocket" else "http", host.split(":")[0] if host else "x")
            want = dict(params)
            if chain[-1] == "self":
                want["__rest"] = "/" + want.pop("path").lstrip("/")
            x.check(id is not None and same({k: v for k, v in got.items() if k in want}, want), "the URL %r of %s does not lead back to that route" % (path, ctx), "endpoint %s got %s" % (id, got))


def cases_tables(tier):
    one = list(trees(1))
    for d in one:
        yield (d,)
    for d in deep_trees():
        yield (d,)
    for d in sibling_trees():
        yield (d,)
    for d1, d2 in itertools.product(LEAVES, repeat=2):
        if d1 != d2:
            yield (d1, d2)
    some = one if tier != "quick" else [d for i, d in enumerate(one) if i % 3 == 0 or d[3] is None]
    for d1 in some:
        for d2 in LEAVES + APPS + INNER_TREES:
            if d1 != d2:
                yield (d1, d2)
                yield (d2, d1)
    if tier != "quick":
        for t in itertools.permutations(LEAVES[2:6] + APPS[:2] + INNER_TREES[:6], 3):
            yield t


INNER_TREES = [(M, "/m", "m", [LEAVES[2]]), (M, "/{a}", None, [LEAVES[3]]), (M, "/{b:int}", None, [LEAVES[2]]), (M, "", None, [LEAVES[4]]), (H, "h.org", "m", [LEAVES[2]]), (H, "{a}.org", None, [LEAVES[3]]), (M, "/{b:int}", "m", [LEAVES[6]])]


@C.family("tables", cases_tables, "route tables with nested mounts and hosts x names x parameter subsets: the first fitting route, NoMatchFound otherwise, and the round trip")
def _(case, x):
    x.sample = dict(routes=case)
    check_table(x, list(case), roundtrip=len(case) == 1 or x.tier != "quick")


DEEPV = {"a": VALUES["str"][:23], "b": [0, 10 ** 30], "path": ["", "a/b", "/{a}", "{b}/{a}", "{path}"]}


def cases_nested(tier):
    for m1 in INNER:
        for m2 in [None] + INNER:
            for l in LEAVES:
                d = (m1[0], m1[1], m1[2], [l]) if m2 is None else (m1[0], m1[1], m1[2], [(m2[0], m2[1], m2[2], [l])])
                if ok_desc(d) and (m2 is None or not (m1[0] == m2[0] == H)):
                    yield d


@C.family("nested-values", cases_nested, "awkward values through every nesting of two mounts or a host over a route")
def _(case, x):
    d = case
    names, e = [], d
    parts = []
    while True:
        if e[2] is not None:
            parts.append(e[2])
        names += own(e)
        if not e[3]:
            break
        e = e[3][0]
    name = ":".join(parts)
    log = []
    app = Router([build(d, log, (0,))], redirect_slashes=False)
    for vs in itertools.product(*(DEEPV[n] for n in names)):
        params = dict(zip(names, vs))
        if e[1] == "/{path}" and ("/" in params["path"] or not params["path"]):
            continue
        if any(e[0] == H and "a" in own(e) for e in levels(d)) and not all(c.isalnum() or c in "{}-." for c in params["a"]):
            continue  # not a possible host name
        if any("\n" in str(v) for v in vs) and any(e[0] == M for e in levels(d)):
            continue  # a mount does not take paths with line breaks
        ctx = "url_path_for(%r, %r) on %s" % (name, params, d)
        u = app.url_path_for(name, **params)
        path, host, proto = expected([d], chain_of(d), params)
        x.eq((str(u), u.host, u.protocol), (path, host, proto), ctx)
        id, got = request(app, u, log, "websocket" if proto == "websocket" else "http", host.split(":")[0] if host else "x")
        x.check(id is not None and same(got, params), "round trip: %s gave %r" % (ctx, str(u)), "endpoint %s got %s" % (id, got))
        x.outcome((str(u), u.host))
    x.sample = dict(route=d)


def levels(d):
    return [d] + (levels(d[3][0]) if d[3] else [])


def chain_of(d):
    return (0,) + (chain_of(d[3][0]) if d[3] else ())


BAD = [("int", "abc"), ("int", -1), ("float", "x"), ("str", ""), ("str", "a/b"), ("colour", "BLUE"), ("hex", -5), ("float", float("inf"))]


def cases_unrelated(tier):
    for i in range(len(BAD)):
        for wrap in ("mount", "mount-named", "host", "host-named", "route", "mount-self", "mount-outer"):
            for child in ("other-name", "no-child", "other-params"):
                yield (i, wrap, child)


@C.family("unrelated", cases_unrelated, "an earlier mount, host or route that does not fit is never asked about the values")
def _(case, x):
    i, wrap, child = case
    conv, v = BAD[i]
    ep, _ = record([], "it")
    kids = {"other-name": [Route("/k", ep, name="other")], "no-child": [], "other-params": [Route("/k/{zz}", ep, name="n")]}[child]
    seg = "{b:%s}" % conv
    first = {
        "mount": lambda: Mount("/" + seg, routes=kids),
        "mount-named": lambda: Mount("/" + seg, routes=kids, name="m"),
        "mount-outer": lambda: Mount("/q", routes=[Mount("/" + seg, routes=kids)]),
        "host": lambda: Host(seg + ".org", app=Router(kids)),
        "host-named": lambda: Host(seg + ".org", app=Router(kids), name="m"),
        "route": lambda: Route("/" + seg, ep, name="q"),
        "mount-self": lambda: Mount("/" + seg, routes=kids, name="m"),
    }[wrap]()
    name = {"mount-named": "m:n", "host-named": "m:n"}.get(wrap, "n")
    if wrap == "mount-self":
        # the mount's own name, with one parameter too many
        try:
            u = Router([first]).url_path_for("m", path="p", b=v, extra=1)
        except NoMatchFound:
            pass
        else:
            x.fail("an extra parameter was accepted: %r" % u)
        x.outcome((case,))
        return
    ep, _ = record([], "it")
    last = Route("/end/{b:path}", ep, name=name)
    for app in (Router([first, last]), Starlette(routes=[Mount("", routes=[first]), last])):
        try:
            u = app.url_path_for(name, b=v)
        except NoMatchFound:
            x.fail("the route that fits was not found (%s)" % (case,))
        except Exception as exc:
            x.fail("%r although the first %s does not fit (%s)" % (exc, wrap, case))
        x.eq(str(u), "/end/%s" % v, "URL")
    x.outcome((case,))


# -- names -----------------------------------------------------------------------------

def cases_names(tier):
    for i in range(8):
        yield (i,)


@C.family("names", cases_names, "default names, equal names, and names given to partials, methods and classes")
def _(case, x):
    import functools

    async def func(request):
        return PlainTextResponse("")

    class Cls(HTTPEndpoint):
        async def get(self, request):
            return PlainTextResponse("")

    class Obj:
        async def meth(self, request):
            return PlainTextResponse("")

        async def __call__(self, scope, receive, send):
            pass

    def plain(request):
        return PlainTextResponse("")

    cands = [(func, "func"), (Cls, "Cls"), (Obj().meth, "meth"), (Obj(), "Obj"), (plain, "plain"), (functools.partial(func), "partial"), (lambda r: PlainTextResponse(""), "<lambda>"), (Obj, "Obj")]
    ep, name = cands[case[0]]
    for given in (None, "given", "a:b"):
        app = Router([Route("/r", ep, name=given), WebSocketRoute("/w", ep, name=given)])
        for n in ("given", "a:b", name, "other"):
            try:
                u = app.url_path_for(n)
            except NoMatchFound as exc:
                x.check(n != (given or name), "name %r not found" % n)
                x.check(repr(n)[1:-1] in str(exc), "message %r does not name %r" % (str(exc), n))
            else:
                x.check(n == (given or name), "name %r found" % n)
                x.eq((str(u), u.protocol), ("/r", "http"), "URL")
            x.outcome((case, given, n))
