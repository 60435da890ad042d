"""C39 Templates render the request's own context."""
from __future__ import annotations

import html
import itertools
import os
import pathlib
import shutil
import tempfile
import warnings

import jinja2
from markupsafe import Markup

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router
from starlette.templating import Jinja2Templates
from starlette.testclient import TestClient

C = Check("C39", [
    "a context that already has a request key has this request there; values are merged in order: context, then processors",
    "the request is the first positional argument or a keyword of its own (or, in the deprecated forms, part of the context)",
])

VARS = ["a", "b", "c", "p", "q", "title"]
PAGE = "|".join("{{ %s }}" % v for v in VARS) + "|{{ request.url.path }}|{{ request.headers.host }}|{{ url_for('home') }}"
FILES = {
    "page.html": PAGE,
    "page.txt": PAGE,
    "page.xml": PAGE,
    "page.j2": PAGE,
    "page": PAGE,
    "sub/page.html": "sub:" + PAGE,
    "base.html": "<{% block x %}{% endblock %}>{{ url_for('home') }};{{ a }}",
    "child.html": "{% extends 'base.html' %}{% block x %}{{ a }},{{ url_for('item', id=7) }}{% endblock %}",
    "include.html": "[{% include 'page.html' %}]",
    "macro.html": "{% from 'macros.html' import m with context %}{{ m('1') }}{{ m('2') }}",
    "macros.html": "{% macro m(x) %}{{ x }}={{ a }}@{{ url_for('item', id=x) }};{% endmacro %}",
    "loop.html": "{% for i in a %}{{ i }}{{ url_for('item', id=loop.index) }},{% endfor %}",
    "urls.html": "{{ url_for('item', id=3) }} {{ url_for('sub:leaf', name='n', context='c') }} {{ url_for('static', path='/x/y.css') }}",
    "safe.html": "{{ a|safe }}|{{ a }}|{{ a|e }}|{% autoescape false %}{{ a }}{% endautoescape %}",
    "attr.html": "<a title=\"{{ a }}\" href='{{ b }}'>",
    "only2.html": "x",
}
FILES2 = {"page.html": "second", "only2.html": "second", "new.html": "second new {{ a }}"}
DIR = DIR2 = None


def setup():
    global DIR, DIR2
    DIR = tempfile.mkdtemp(prefix="c39-")
    DIR2 = tempfile.mkdtemp(prefix="c39b-")
    for d, files in ((DIR, FILES), (DIR2, FILES2)):
        for name, text in files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)


def teardown():
    for d in (DIR, DIR2):
        shutil.rmtree(d)


async def leaf(request):  # pragma: no cover
    return PlainTextResponse("leaf")


ROUTES = [
    Route("/home", leaf, name="home"),
    Route("/item/{id:int}", leaf, name="item"),
    Mount("/sub", name="sub", routes=[Route("/{name}/{context}", leaf, name="leaf")]),
    Mount("/static", app=PlainTextResponse("s"), name="static"),
]
ROUTER = Router(ROUTES)


def request(path="/p", host=b"h1", root="", extensions=None, scheme="http", app=None):
    sc = asgi.scope(root + path, host=host, root_path=root, extensions=extensions, scheme=scheme)
    sc["app"] = app if app is not None else Starlette(routes=ROUTES)
    sc["router"] = ROUTER
    return Request(sc)


def origin(host, root, scheme="http"):
    return "%s://%s%s" % (scheme, host.decode(), root)


def esc(v, on=True):
    if isinstance(v, Markup) or not on:
        return str(v)
    return str(Markup.escape(v))


def ref_escape(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#39;").replace('"', "&#34;")


def page(values, path, host, root="", auto=True, scheme="http"):
    """What PAGE renders to."""
    def show(v):
        if isinstance(v, Markup) or not auto:
            return str(v)
        return ref_escape(str(v))

    return "|".join([show(values[v]) if v in values else "" for v in VARS] + [root + path, host.decode(), origin(host, root, scheme) + "/home"])


# ----------------------------------------------------------------- call forms

OPTS = ["context", "status_code", "headers", "media_type", "background"]


def given(subset, form, req, done):
    vals = {"context": {"a": "<A>", "b": 2}, "status_code": 207, "headers": {"X-T": "v"}, "media_type": "text/plain", "background": BackgroundTask(done.append, "ran")}
    return {k: vals[k] for k in subset}


def form_cases(tier):
    for form in ("request first", "keywords", "name first", "old keywords"):
        yield form


@C.family("forms", form_cases, "every call form x every subset of the optional arguments x how many of them are positional: context, status, headers, "
                               "media type and background arrive; the deprecated forms warn")
def _(case, x):
    old = case in ("name first", "old keywords")
    for k in range(2 ** 5):
        subset = [o for i, o in enumerate(OPTS) if k >> i & 1]
        if old and "context" not in subset:
            continue
        if case in ("keywords", "old keywords"):
            npos = [0]
        else:
            # a prefix of the optional arguments may be positional
            n = 0
            while n < 5 and OPTS[n] in subset:
                n += 1
            npos = range(n + 1)
        for n in npos:
            for name_kw in ((False, True) if case == "request first" and n == 0 else (False,)):
                req = request()
                done = []
                vals = given(subset, case, req, done)
                ctx = vals.get("context")
                if old:
                    ctx["request"] = req
                before = dict(ctx) if ctx is not None else None
                pos = [vals[o] for o in OPTS[:n]]
                kw = {o: vals[o] for o in subset if o not in OPTS[:n]}
                if case == "request first":
                    args = [req] if name_kw else [req, "page.html"] + pos
                    if name_kw:
                        kw["name"] = "page.html"
                elif case == "keywords":
                    args = []
                    kw.update(request=req, name="page.html")
                elif case == "name first":
                    args = ["page.html"] + pos
                else:
                    args = []
                    kw["name"] = "page.html"
                t = Jinja2Templates(directory=DIR)
                what = (case, subset, n, name_kw)
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    r = t.TemplateResponse(*args, **kw)
                x.eq([w.category for w in ws if issubclass(w.category, DeprecationWarning)], [DeprecationWarning] if old else [], "warnings: %r" % (what,))
                x.check(ctx is None or (ctx == before and list(ctx) == list(before)), "the caller's context was modified", what)
                shown = {k: v for k, v in (before or {}).items() if k in VARS}
                body = page(shown, "/p", b"h1").encode()
                x.eq(r.body, body, "body: %r" % (what,))
                x.eq(dict(r.context), dict(shown, request=req), "context: %r" % (what,))
                x.check(r.context["request"] is req and r.template.name == "page.html", "template or request", what)
                x.eq(r.status_code, 207 if "status_code" in subset else 200, "status: %r" % (what,))
                x.check(r.background is vals.get("background"), "background", what)
                mt = "text/plain" if "media_type" in subset else "text/html"
                srv, out = asgi.call(r, req.scope, threads="inline")
                asgi.result(out)
                sent = asgi.judge(srv.sent)
                x.eq(sent.body, body, "body sent: %r" % (what,))
                x.eq(sent.status, r.status_code, "status sent")
                x.eq(sorted(sent.headers), sorted([(b"content-length", str(len(body)).encode()), (b"content-type", mt.encode() + b"; charset=utf-8")]
                                                  + ([(b"x-t", b"v")] if "headers" in subset else [])), "headers: %r" % (what,))
                x.eq(done, ["ran"] if "background" in subset else [], "background task: %r" % (what,))
                x.step()
                x.outcome((case, n))


def refuse_cases(tier):
    yield 0


@C.family("refused", refuse_cases, "deprecated forms without a request, in every form and with every kind of context; unknown templates; bad constructor arguments")
def _(case, x):
    t = Jinja2Templates(directory=DIR)
    ctxs = [None, {}, {"a": 1}, {"Request": 1}, {"context": {"request": 1}}]
    for ctx in ctxs:
        forms = [lambda: t.TemplateResponse("page.html", ctx), lambda: t.TemplateResponse("page.html", context=ctx),
                 lambda: t.TemplateResponse(name="page.html", context=ctx), lambda: t.TemplateResponse("page.html", ctx, 200, {"x": "y"}),
                 lambda: t.TemplateResponse(name="page.html", context=ctx, status_code=201)]
        if ctx is None:
            forms += [lambda: t.TemplateResponse("page.html"), lambda: t.TemplateResponse(name="page.html")]
        for f in forms:
            x.step()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    r = f()
                except ValueError:
                    continue
            x.fail("a response without a request: %r" % (ctx,), r.body)
    for name in ("nope.html", "../page.html", "sub"):
        try:
            t.TemplateResponse(request(), name)
        except jinja2.TemplateNotFound:
            continue
        x.fail("rendered %r" % name)
    for kw in ({}, {"directory": DIR, "env": jinja2.Environment()}):
        try:
            Jinja2Templates(**kw)
        except AssertionError:
            continue
        x.fail("accepted %r" % (kw,))


# ------------------------------------------------------------------- contents

TEXTS = ["", "x", "<b>", "&", "&amp;", '"', "'", "<script>alert('&\"')</script>", "\u00e9\u2603<", "{{ a }}", "{% raw %}"]
VALUES = TEXTS + [Markup("<i>&</i>"), 0, None, True, 3.5, [1, "<"], {"k": "<"}]


def content_cases(tier):
    for name in ("page.html", "page.txt", "page.xml", "page.j2", "page", "sub/page.html"):
        yield name


@C.family("contents", content_cases, "every value in every variable x template extension x directory given as string, path, list, or environments of the caller's: "
                                     "HTML-escaped by default, and as the environment says")
def _(case, x):
    sub = "sub:" if case.startswith("sub") else ""
    envs = [
        ("str", Jinja2Templates(DIR), True), ("path", Jinja2Templates(pathlib.Path(DIR)), True), ("list", Jinja2Templates([DIR, DIR2]), True),
        ("tuple", Jinja2Templates(directory=(pathlib.Path(DIR), DIR2)), True),
        ("env on", Jinja2Templates(env=jinja2.Environment(loader=jinja2.FileSystemLoader(DIR), autoescape=True)), True),
        ("env off", Jinja2Templates(env=jinja2.Environment(loader=jinja2.FileSystemLoader(DIR), autoescape=False)), False),
        ("env select", Jinja2Templates(env=jinja2.Environment(loader=jinja2.DictLoader(FILES), autoescape=jinja2.select_autoescape())), case.endswith(("html", "xml"))),
    ]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        envs.append(("option off", Jinja2Templates(DIR, autoescape=False), False))
        envs.append(("option trim", Jinja2Templates(DIR, trim_blocks=True), True))
        envs.append(("option loader", Jinja2Templates(DIR, loader=jinja2.DictLoader(FILES)), True))
    x.eq(len(ws), 3, "warnings about environment options")
    for how, t, auto in envs:
        for v in VALUES:
            for w in (VALUES if x.tier == "thorough" else (None, "<&>")):
                req = request()
                ctx = {"a": v} if w is None else {"a": v, "title": w}
                r = t.TemplateResponse(req, case, ctx)
                x.eq(r.body.decode(), sub + page(ctx, "/p", b"h1", auto=auto), "%s rendered with %r by %s" % (case, ctx, how))
                x.check(r.template is t.get_template(case) or r.template.name == case, "template")
                x.step()
    # lookup order
    for dirs, want in (([DIR, DIR2], b"x"), ([DIR2, DIR], b"second")):
        x.eq(Jinja2Templates(dirs).TemplateResponse(request(), "only2.html").body, want, "lookup order")
    x.eq(Jinja2Templates([DIR, DIR2]).TemplateResponse(request(), "new.html", {"a": "<"}).body, b"second new &lt;", "second directory")


# -------------------------------------------------------------------- url_for

def url_cases(tier):
    for root in ("", "/r", "/r/s"):
        for host in (b"h1", b"h2:8000"):
            for scheme in ("http", "https"):
                yield root, host, scheme


@C.family("urls", url_cases, "url_for in pages, includes, parents, macros and loops x request origin and root path, the template cached from another request")
def _(case, x):
    root, host, scheme = case
    for warm in (None, "same", "each"):
        t = Jinja2Templates(DIR)
        for name in ("page.html", "child.html", "include.html", "macro.html", "loop.html", "urls.html"):
            if warm:
                t.TemplateResponse(request(host=b"other", root="/o"), name, {"a": "old", "b": "old"})
            o = origin(host, root, scheme)
            a = ["<", "y"] if name == "loop.html" else "<"
            r = t.TemplateResponse(request(root=root, host=host, scheme=scheme), name, {"a": a})
            e = "&lt;"
            want = {
                "page.html": page({"a": a}, "/p", host, root, scheme=scheme),
                "child.html": "<%s,%s/item/7>%s/home;%s" % (e, o, o, e),
                "include.html": "[%s]" % page({"a": a}, "/p", host, root, scheme=scheme),
                "macro.html": "1=%s@%s/item/1;2=%s@%s/item/2;" % (e, o, e, o),
                "loop.html": "%s%s/item/1,y%s/item/2," % (e, o, o),
                "urls.html": "%s/item/3 %s/sub/n/c %s/static/x/y.css" % (o, o, o),
            }[name]
            x.eq(r.body.decode(), want, "%s for %r" % (name, case))
            x.step()
    # an environment with a url_for of its own keeps it
    env = jinja2.Environment(loader=jinja2.DictLoader({"t": "{{ url_for('home') }}{{ g }}"}))
    env.globals["url_for"] = lambda n: "mine:" + n
    env.globals["g"] = "G"
    x.eq(Jinja2Templates(env=env).TemplateResponse(request(), "t").body, b"mine:homeG", "the environment's own url_for")


# ----------------------------------------------------------- context processors

def proc_cases(tier):
    for n in range(0, 4):
        yield n


@C.family("processors", proc_cases, "0-3 context processors x contexts x call forms x sequences of two renders: each is called once with this request, all its values are "
                                    "there, and only there")
def _(case, x):
    n = case
    for ctx1, ctx2 in itertools.product([None, {}, {"a": "A"}, {"a": "<", "b": 1}], repeat=2):
        for form in ("request first", "keywords", "name first", "old keywords"):
            for shared in (False, True):
                calls = []

                def proc(i):
                    def p(request):
                        calls.append((i, request))
                        key = VARS[3 + i]
                        return {key: "%d:%s" % (i, request.url.path)}

                    return p

                t = Jinja2Templates(DIR, context_processors=[proc(i) for i in range(n)] if n else None)
                one = dict(ctx1) if ctx1 is not None else None
                two = one if shared else (dict(ctx2) if ctx2 is not None else None)
                contexts = [one, two]
                for k, (c, path) in enumerate(((one, "/first"), (two, "/second"))):
                    req = request(path=path, host=b"h%d" % k)
                    calls.clear()
                    if form in ("name first", "old keywords"):
                        c = dict(c or {}, request=req)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if form == "request first":
                            r = t.TemplateResponse(req, "page.html", c)
                        elif form == "keywords":
                            r = t.TemplateResponse(request=req, name="page.html", context=c)
                        elif form == "name first":
                            r = t.TemplateResponse("page.html", c)
                        else:
                            r = t.TemplateResponse(name="page.html", context=c)
                    values = dict((ctx1 if k == 0 or shared else ctx2) or {})
                    values.update({VARS[3 + i]: "%d:%s" % (i, path) for i in range(n)})
                    what = (n, form, ctx1, ctx2, shared, k)
                    x.eq(r.body.decode(), page(values, path, b"h%d" % k), "rendered: %r" % (what,))
                    x.eq({a: b for a, b in r.context.items() if a != "request"}, values, "context: %r" % (what,))
                    x.check(r.context["request"] is req, "request", what)
                    x.eq([i for i, _ in calls], list(range(n)), "processors called: %r" % (what,))
                    x.check(all(q is req for _, q in calls), "processors were given another request", what)
                    x.step()
                # merged in order: the last processor has the last word
                req = request()
                t = Jinja2Templates(DIR, context_processors=[lambda r, i=i: {"p": "proc%d" % i, "abc"[i]: i} for i in range(n)])
                ctx = {"p": "ctx", "a": "ctx"}
                r = t.TemplateResponse(req, "page.html", ctx)
                merged = {**ctx, **{"abc"[i]: i for i in range(n)}, **({"p": "proc%d" % (n - 1)} if n else {})}
                x.eq({k: v for k, v in r.context.items() if k != "request"}, merged, "merged context")
                x.eq(r.body.decode(), page(merged, "/p", b"h1"), "page of the merged context")
                x.check(one == ctx1 or (one is not None and dict(one) == ctx1), "the caller's context was modified", form, one, ctx1)


# --------------------------------------------------------- applications at work

def app_cases(tier):
    for backend in ("asyncio", "trio"):
        for style in ("async", "sync", "late"):
            for mws in ("none", "base", "gzip", "base gzip"):
                for debug in (False, True):
                    yield backend, style, mws, debug


EXTS = {True: [{"http.response.debug": {}}, {"http.response.push": {}, "http.response.debug": {}}, {"http.response.debug": {}}],
        False: [None, {"http.response.push": {}, "tls": {}}, {}]}


@C.family("concurrent", app_cases, "two and three requests at once and one after the other through one Jinja2Templates and one context dictionary, every interleaving: each page, "
                                   "each exposed context its own; exposed if and only if the server asks for it")
def _(case, x):
    backend, style, mws, debug = case
    n = 3 if style == "async" and mws == "none" else 2
    dirs = Jinja2Templates(DIR, context_processors=[lambda request: {"p": request.headers["x-n"]}])
    shared = {"title": "<T>"}
    ran = []

    def one(ch):
        env = rt.Env(ch, early=None)
        ran.clear()

        def respond(request):
            num = request.headers["x-n"]
            return dirs.TemplateResponse(request, "page.html", shared if num == "0" else dict(shared, a="<%s>" % num), headers={"x-of": num},
                                         background=BackgroundTask(ran.append, num))

        async def endpoint(request):
            if style == "late":
                r = respond(request)
                await rt.Gate(env).wait("late" + request.headers["x-n"])
                return r
            await rt.Gate(env).wait("ep" + request.headers["x-n"])
            return respond(request)

        async def through(request, call_next):
            r = await call_next(request)
            return r

        stack = []
        if "base" in mws:
            stack.append(Middleware(BaseHTTPMiddleware, dispatch=through))
        if "gzip" in mws:
            stack.append(Middleware(GZipMiddleware, minimum_size=100000))
        app = Starlette(routes=ROUTES + [Route("/r/{x}", respond if style == "sync" else endpoint)], middleware=stack)
        servers = []

        async def go(i):
            srv = asgi.Server(env=env, gate="s" if style == "async" and mws == "none" and n == 2 else "")
            servers.append((i, srv))
            await app(asgi.scope("/r/%d" % i, host=b"h%d" % i, headers=[(b"x-n", b"%d" % i)], extensions=EXTS[debug][i]),
                      srv.receive, srv.send)

        async def main():
            import anyio

            with rt.vthreads("env"):
                async with anyio.create_task_group() as tg:
                    for i in range(n):
                        tg.start_soon(go, i)
                # and one more afterwards
            with rt.vthreads("inline"):
                env.quiet = True
                await go(0)

        asgi.result(rt.run(main, env, backend))
        x.eq(shared, {"title": "<T>"}, "the shared context")
        for i, srv in servers:
            values = {"title": "<T>", "p": str(i)}
            if i:
                values["a"] = "<%d>" % i
            msgs = list(srv.sent)
            dbg = [m for m in msgs if m["type"] == "http.response.debug"]
            what = (case, i)
            x.eq(len(dbg), 1 if debug else 0, "debug messages: %r" % (what,))
            if debug:
                info = dbg[0]["info"]
                x.check(msgs[0] is dbg[0], "the debug message is not the first", what)
                x.check(info["template"].name == "page.html", "template exposed", what)
                c = dict(info["context"])
                q = c.pop("request")
                x.check(q.headers["x-n"] == str(i) and q.path_params == {"x": str(i)}, "the context exposed has another request", what)
                x.eq(c, values, "context exposed: %r" % (what,))
                msgs = msgs[1:]
            r = asgi.judge(msgs)
            x.eq(r.body.decode(), page(values, "/r/%d" % i, b"h%d" % i), "page: %r" % (what,))
            x.check(r.status == 200 and r.get("x-of") == str(i).encode(), "headers", what, r)
        x.eq(sorted(ran), sorted(["0"] + [str(i) for i in range(n)]), "background tasks")
        x.outcome(tuple(env.fired))

    x.explore(one, 0, cap=3000)


def client_cases(tier):
    for raise_exc in (True, False):
        yield raise_exc


@C.family("client", client_cases, "the test client's view: template and context of this response, on every status and method; nothing on other responses")
def _(case, x):
    t = Jinja2Templates(DIR)
    n = [0]

    async def ep(request):
        n[0] += 1
        if request.query_params.get("plain"):
            return PlainTextResponse("no template")
        return t.TemplateResponse(request, request.query_params["t"], {"a": str(n[0])}, status_code=int(request.query_params["s"]))

    app = Starlette(routes=ROUTES + [Route("/r", ep, methods=["GET", "POST", "HEAD"])])
    c = TestClient(app, raise_server_exceptions=case)
    for method in ("GET", "POST", "HEAD"):
        for name in ("page.html", "sub/page.html", "page.txt"):
            for status in (200, 201, 404, 500):
                r = c.request(method, "/r", params={"t": name, "s": status})
                x.step()
                x.check(r.status_code == status and r.template.name == name and r.context["a"] == str(n[0]) and r.context["request"].method == method, "exposed", method, name, status)
                r = c.request(method, "/r", params={"plain": 1})
                x.check(not hasattr(r, "template") and not hasattr(r, "context"), "exposed on a plain response", method)
