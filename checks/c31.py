"""C31 Cookies set are the cookies read back."""
from __future__ import annotations

import calendar
import itertools
import re
import time
from datetime import datetime, timedelta, timezone
from email.utils import parsedate_tz, mktime_tz

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.applications import Starlette
from starlette.requests import HTTPConnection, Request, cookie_parser
from starlette.responses import (FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse)
from starlette.routing import Route, WebSocketRoute
from starlette.websockets import WebSocket

C = Check("C31", [
    "names are tokens other than the reserved attribute names; attribute values contain no ';' or control characters and are not empty",
    "a value with a control character may be refused with an exception (the standard library's rule) instead of making the round trip",
    "the header white space in question is space and tab; one Cookie header per request",
    "a datetime without a zone is not tried; one in another zone than UTC may be refused with a ValueError",
])

CONTROL = re.compile(r"[\x00-\x1f\x7f]")
TOKENS = "abzAZ09!#$%&'*+-.^_`|~"
NAMES = ["a", "A", "session-id", "__Host-x", "$x", "0", "!", "a.b", "a|b", "~", "~~", "'", "a*", "#", "%41", "^_`"]
ALPHA = ["a", ";", ",", '"', "\\", " ", "=", "0", "7", "%", "\xe9", "\xff", "\x80", "\xa0", "(", "<", "\t", "\n", "\r", "\0", "\x7f"]
TIGHT = ["\\", "0", "7", "3", '"', ";"]


def set_line(response):
    lines = [v for k, v in response.raw_headers if k == b"set-cookie"]
    if len(lines) != 1:
        raise Violation("%d set-cookie headers" % len(lines))
    return lines[0].decode("latin-1")


def parse_set(line):
    """A browser's reading of a Set-Cookie line: name, coded value, attributes."""
    first, *rest = line.split(";")
    name, eq, value = first.partition("=")
    if not eq:
        raise Violation("no '=' in %r" % line)
    if CONTROL.search(line):
        raise Violation("control character in %r" % line)
    attrs = {}
    for part in rest:
        k, eq, v = part.partition("=")
        k = k.strip().lower()
        if k in attrs:
            raise Violation("attribute %s twice in %r" % (k, line))
        attrs[k] = v.strip() if eq else True
    return name.strip(" \t"), value.strip(" \t"), attrs


def read(header, kind="request"):
    sc = asgi.scope("/", headers=[(b"cookie", header.encode("latin-1"))], type="websocket" if kind == "websocket" else "http")
    conn = Request(sc) if kind == "request" else WebSocket(sc, None, None) if kind == "websocket" else HTTPConnection(sc)
    got = conn.cookies
    if conn.cookies is not got:
        raise Violation("cookies are parsed into different objects")
    return got


def write(name, value, **kw):
    """The browser's (name, coded value, attributes), or None if the value was refused."""
    r = Response()
    try:
        r.set_cookie(name, value, **kw)
    except Exception as exc:
        if CONTROL.search(value):
            if any(k == b"set-cookie" for k, _ in r.raw_headers):
                raise Violation("refused and set")
            return None
        raise Violation("set_cookie(%r, %r) raised %r" % (name, value, exc)) from exc
    return parse_set(set_line(r))


OTHERS = ["", "x=1", "junk", "=v", 'q="', '"', "\\", "z==b", " ", "=", 'w="a\\"', "\t", "y=\xe9"]


# ------------------------------------------------------------------ round trip

def values(tier):
    for n in range(4):
        for p in itertools.product(ALPHA, repeat=n):
            yield "".join(p)


def value_cases(tier):
    for a in [""] + ALPHA:
        yield {"first": a}
    for a in range(0, 256, 16):
        yield {"bytes": a}
    for t in TIGHT:
        yield {"tight": t}


@C.family("values", value_cases, "set, then read back: all values over the adversarial alphabet, all pairs of latin-1 characters, escape-like texts")
def _(case, x):
    if "first" in case:
        f = case["first"]
        todo = [""] if not f else [f + "".join(p) for n in range(4 if x.tier == "thorough" else 3) for p in itertools.product(ALPHA, repeat=n)]
    elif "bytes" in case:
        todo = [chr(i) + chr(j) for i in range(case["bytes"], case["bytes"] + 16) for j in range(256)]
        todo += [chr(i) for i in range(case["bytes"], case["bytes"] + 16)]
        todo += ["a" + chr(i) + "b" for i in range(case["bytes"], case["bytes"] + 16)]
    else:
        todo = [case["tight"] + "".join(p) for n in range(7 if x.tier == "thorough" else 5) for p in itertools.product(TIGHT, repeat=n)]
    refused = 0
    for v in todo:
        x.step()
        w = write("k", v)
        if w is None:
            refused += 1
            continue
        name, coded, attrs = w
        x.eq((name, attrs), ("k", {"path": "/", "samesite": "lax"}), "set_cookie('k', %r)" % v)
        x.eq(read("k=%s" % coded), {"k": v}, "read back %r" % v)
        x.eq(read("x=1; k=%s; y=2" % coded), {"x": "1", "k": v, "y": "2"}, "read back %r among others" % v)
    x.outcome((str(case), len(todo) - refused))


def order_cases(tier):
    for i in range(len(NAMES)):
        yield {"name": i}


SOME = ["", "v", '"', '""', '"v"', "a;b", "a,b", "a=b", "=", "\\", '\\"', "\\073", " v ", "\xe9\xff", "%3B", "a\\", "; k2=v", '";x=y', "\t", "(){}"]


@C.family("order", order_cases, "our cookie alone, between, before and after any two others (malformed ones included), for every name and separator")
def _(case, x):
    name = NAMES[case["name"]]
    for v in SOME:
        w = write(name, v)
        if w is None:
            continue
        x.eq(w[0], name, "name")
        mine = "%s=%s" % (name, w[1])
        for o1, o2 in itertools.product(OTHERS, repeat=2):
            for parts in ([mine, o1, o2], [o1, mine, o2], [o1, o2, mine]):
                for sep in ("; ", ";"):
                    x.step()
                    header = sep.join(parts)
                    got = read(header)
                    if got.get(name) != v:
                        x.fail("%r is %r instead of %r in %r" % (name, got.get(name), v, header))
        for kind in ("websocket", "connection"):
            x.eq(read(mine, kind), {name: v}, "%s of %r" % (kind, mine))
        x.outcome((name, v))
    # two cookies of ours in one header, in both orders
    for v1, v2 in itertools.product(SOME, repeat=2):
        w1, w2 = write(name, v1), write("other", v2)
        if w1 is None or w2 is None:
            continue
        a, b = "%s=%s" % w1[:2], "other=%s" % w2[1]
        for h in ("%s; %s" % (a, b), "%s; %s" % (b, a)):
            x.step()
            x.eq(read(h), {name: v1, "other": v2}, "two cookies in %r" % h)


# ------------------------------------------------------------------ attributes

MAXAGE = [None, 0, 1, -1, 3600]
WHEN = datetime(2030, 1, 2, 3, 4, 5, tzinfo=timezone.utc)
EXPIRES = [None, 0, 60, -5, "Wed, 02 Jan 2030 03:04:05 GMT", WHEN, datetime(1999, 12, 31, 23, 59, 59, 999999, tzinfo=timezone.utc), WHEN.astimezone(timezone(timedelta(hours=2))), WHEN.astimezone(timezone(timedelta(hours=-11, minutes=-30)))]
PATHS = [None, "/", "/p", "/a b"]
DOMAINS = [None, "d.example", ".d.example", "localhost"]
SAMESITE = [None, "lax", "strict", "none", "Lax", "STRICT"]


def attr_cases(tier):
    for m in range(len(MAXAGE)):
        for e in range(len(EXPIRES)):
            yield {"max_age": m, "expires": e}


def http_date(s):
    t = parsedate_tz(s)
    if t is None or not s.endswith("GMT") or not re.fullmatch(r"[A-Z][a-z]{2}, \d{2} [A-Z][a-z]{2} \d{4} \d{2}:\d{2}:\d{2} GMT", s):
        raise Violation("not an HTTP date: %r" % s)
    return mktime_tz(t)


@C.family("attributes", attr_cases, "every combination of attributes: each appears exactly as asked, and only then")
def _(case, x):
    max_age, expires = MAXAGE[case["max_age"]], EXPIRES[case["expires"]]
    for path, domain, secure, httponly, samesite in itertools.product(PATHS, DOMAINS, (False, True), (False, True), SAMESITE):
        x.step()
        kw = dict(max_age=max_age, expires=expires, path=path, domain=domain, secure=secure, httponly=httponly, samesite=samesite)
        before = int(time.time())
        if isinstance(expires, datetime) and expires.utcoffset():
            try:
                Response().set_cookie("k", **kw)
            except ValueError:
                continue
        name, coded, attrs = write("k", "v;", **kw)
        after = int(time.time()) + 1
        want = {}
        if max_age is not None:
            want["max-age"] = str(max_age)
        if path is not None:
            want["path"] = path
        if domain is not None:
            want["domain"] = domain
        if secure:
            want["secure"] = True
        if httponly:
            want["httponly"] = True
        if samesite is not None:
            want["samesite"] = samesite
        got_exp = attrs.pop("expires", None)
        if isinstance(attrs.get("samesite"), str) and samesite:
            x.eq(attrs["samesite"].lower(), samesite.lower(), "samesite")
            attrs["samesite"] = samesite
        x.eq(attrs, want, "attributes asked for %r" % (kw,))
        if expires is None:
            x.eq(got_exp, None, "expires not asked for")
        elif isinstance(expires, str):
            x.eq(got_exp, expires, "expires text")
        elif isinstance(expires, int):
            x.check(before + expires <= http_date(got_exp) <= after + expires, "expires %r seconds from now" % expires, got_exp)
        else:
            x.eq(http_date(got_exp), calendar.timegm(expires.utctimetuple()), "expires %r" % expires)
        x.eq(read("k=" + coded), {"k": "v;"}, "value with attributes")
    x.outcome((str(max_age), str(expires)))
    # defaults
    x.eq(write("k", "v")[2], {"path": "/", "samesite": "lax"}, "default attributes")
    r = Response()
    r.set_cookie("k")
    x.eq(read("k=" + parse_set(set_line(r))[1]), {"k": ""}, "default value")
    for bad in ("other", "laxx", "lax; secure"):
        r = Response()
        try:
            r.set_cookie("k", "v", samesite=bad)
        except Exception:
            pass
        else:
            x.fail("samesite %r accepted" % bad)


@C.family("delete", lambda tier: [{"key": k} for k in ("k", "__Host-k", "a.b")], "deleting, with every combination of attributes: exactly those, and the cookie is over")
def _(case, x):
    key = case["key"]
    base = (PATHS, DOMAINS, (False, True), (False, True), SAMESITE)
    for path, domain, secure, httponly, samesite in itertools.product(*base):
        x.step()
        kw = dict(path=path, domain=domain, secure=secure, httponly=httponly, samesite=samesite)
        for given in (kw, {k: v for k, v in kw.items() if v != {"path": "/", "samesite": "lax"}.get(k, None if k == "domain" else False)}):
            r = Response()
            now = time.time()
            r.delete_cookie(key, **given)
            name, coded, attrs = parse_set(set_line(r))
            x.eq((name, read("k=" + coded)), (key, {"k": ""}), "%r" % (given,))
            x.eq(attrs.pop("max-age", None), "0", "%r: max-age" % (given,))
            x.check(http_date(attrs.pop("expires", "")) <= now + 1, "%r: expires" % (given,))
            want = {}
            if path is not None:
                want["path"] = path
            if domain is not None:
                want["domain"] = domain
            if secure:
                want["secure"] = True
            if httponly:
                want["httponly"] = True
            if samesite is not None:
                x.eq(attrs.pop("samesite", "").lower(), samesite.lower(), "%r: samesite" % (given,))
            x.eq(attrs, want, "deleting with %r" % (given,))
            x.outcome(tuple(sorted(attrs)))


# ---------------------------------------------------------------- the browser

class Jar:
    """Cookies by (domain, path, name), expiry by Max-Age before Expires."""

    def __init__(self):
        self.store = {}

    def take(self, line, now):
        name, coded, attrs = parse_set(line)
        key = (attrs.get("domain", ""), attrs.get("path", ""), name)
        dead = False
        if "max-age" in attrs:
            dead = int(attrs["max-age"]) <= 0
        elif "expires" in attrs:
            dead = http_date(attrs["expires"]) <= now
        if dead:
            self.store.pop(key, None)
        else:
            self.store[key] = coded

    def header(self, pick=lambda k: True):
        return "; ".join("%s=%s" % (k[2], v) for k, v in self.store.items() if pick(k))


def respond(kind, tmp=None):
    if kind == "plain":
        return PlainTextResponse("x")
    if kind == "json":
        return JSONResponse([])
    if kind == "html":
        return HTMLResponse("x", headers={"x-a": "1"})
    if kind == "stream":
        return StreamingResponse(iter([b"x"]))
    if kind == "redirect":
        return RedirectResponse("/y")
    if kind == "headers":
        return Response("x", headers={"set-cookie": "first=1", "vary": "cookie"})
    if kind == "file":
        return FileResponse(__file__)


KINDS = ["plain", "json", "html", "stream", "redirect", "headers", "file"]
OPS = {
    "a": ("set", "a", '1"', {}), "a2": ("set", "a", "2;", {}), "b": ("set", "b", "", {}), "ap": ("set", "a", "p", {"path": "/p"}),
    "ad": ("set", "a", "d", {"domain": "d.example", "secure": True}), "am": ("set", "a", "m", {"max_age": 10, "httponly": True}),
    "an": ("set", "a", "n", {"path": None, "samesite": None}), "ax": ("set", "a", "x", {"max_age": 0}),
    "-a": ("del", "a", "", {}), "-b": ("del", "b", "", {}), "-ap": ("del", "a", "", {"path": "/p"}),
    "-ad": ("del", "a", "", {"domain": "d.example", "secure": True, "httponly": True, "samesite": "strict"}),
    "-an": ("del", "a", "", {"samesite": None}),
}


def model_key(name, kw):
    return (kw.get("domain") or "", "" if kw.get("path", "/") is None else kw.get("path", "/"), name)


def multi_cases(tier):
    for k in KINDS:
        for op in OPS:
            yield {"kind": k, "op": op}


@C.family("multi", multi_cases, "several set and delete operations on one response: one header each, in order, and the browser ends with the cookies of a model jar")
def _(case, x):
    depth = 4 if x.tier == "thorough" else 3 if case["kind"] in ("plain", "headers") else 2
    ops = list(OPS)
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            seq = (case["op"],) + rest
            x.step()
            r = respond(case["kind"])
            pre = [v for k, v in r.raw_headers if k == b"set-cookie"]
            others = [(k, v) for k, v in r.raw_headers if k != b"set-cookie"]
            model = {}
            for o in seq:
                what, name, value, kw = OPS[o]
                key = model_key(name, kw)
                if what == "set":
                    r.set_cookie(name, value, **kw)
                    if kw.get("max_age") == 0:
                        model.pop(key, None)
                    else:
                        model[key] = value
                else:
                    r.delete_cookie(name, **kw)
                    model.pop(key, None)
            lines = [v for k, v in r.raw_headers if k == b"set-cookie"]
            x.eq(lines[:len(pre)], pre, "%r: earlier cookies" % (seq,))
            x.eq([kv for kv in r.raw_headers if kv[0] != b"set-cookie"], others, "%r: other headers" % (seq,))
            x.eq(r.headers.getlist("set-cookie"), [v.decode("latin-1") for v in lines], "%r: headers view" % (seq,))
            lines = lines[len(pre):]
            x.eq(len(lines), len(seq), "%r: cookies" % (seq,))
            jar = Jar()
            now = time.time()
            for o, line in zip(seq, lines):
                what, name, value, kw = OPS[o]
                gname, coded, attrs = parse_set(line.decode("latin-1"))
                x.eq((gname, attrs.get("path", ""), attrs.get("domain", "")), (name, model_key(name, kw)[1], kw.get("domain") or ""), "%r: %s" % (seq, o))
                if what == "del":
                    x.eq(attrs.get("max-age"), "0", "%r: %s max-age" % (seq, o))
                    x.check(http_date(attrs.get("expires", "")) <= now + 1, "%r: %s expires" % (seq, o), attrs)
                    x.eq(bool(attrs.get("secure")), bool(kw.get("secure")), "%r: %s secure" % (seq, o))
                    x.eq(bool(attrs.get("httponly")), bool(kw.get("httponly")), "%r: %s httponly" % (seq, o))
                    x.eq(attrs.get("samesite"), kw.get("samesite", "lax"), "%r: %s samesite" % (seq, o))
                    x.eq(coded.strip('"'), "", "%r: %s value" % (seq, o))
                jar.take(line.decode("latin-1"), now)
            x.eq(set(jar.store), set(model), "%r: cookies in the browser" % (seq,))
            for key, value in model.items():
                x.eq(read(jar.header(lambda k: k == key)), {key[2]: value}, "%r: %r" % (seq, key))
            x.outcome((seq,))


def history_cases(tier):
    for b in ("asyncio", "trio"):
        for k in KINDS + ["ws"]:
            yield {"kind": k, "backend": b}


HIST = ["set a=1", "set a=2;", 'set b="', "del a", "del b", "read", "set both"]


@C.family("history", history_cases, "all request sequences of a browser through an application, each reading what it sent and setting or deleting")
def _(case, x):
    kind = case["kind"]
    seen = []

    def act(op, r):
        if op == "set both":
            r.set_cookie("a", "x,y")
            r.set_cookie("b", "")
        elif op.startswith("set"):
            n, _, v = op[4:].partition("=")
            r.set_cookie(n, v)
        elif op.startswith("del"):
            r.delete_cookie(op[4:])

    async def view(request):
        seen.append(dict(request.cookies))
        r = respond("plain" if kind == "ws" else kind)
        act(request.headers["x-op"], r)
        return r

    async def ws(websocket):
        seen.append(dict(websocket.cookies))
        await websocket.accept()
        await websocket.close()

    app = Starlette(routes=[Route("/", view), WebSocketRoute("/ws", ws)])
    depth = 4 if x.tier == "thorough" else 3
    seqs = list(itertools.product(HIST, repeat=depth))
    for i in range(0, len(seqs), 60):
        async def main():
            for seq in seqs[i:i + 60]:
                jar = Jar()
                model = {"first": "1"} if False else {}
                for op in seq:
                    x.step()
                    h = jar.header(lambda k: k[2] != "first")
                    hs = [(b"cookie", h.encode("latin-1"))] if h else []
                    if kind == "ws" and op == "read":
                        sc = asgi.scope("/ws", type="websocket", headers=hs)
                        srv = asgi.WSServer([{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}])
                        await app(sc, srv.receive, srv.send)
                    else:
                        sc = asgi.scope("/", headers=hs + [(b"x-op", op.encode())])
                        srv = asgi.Server()
                        await app(sc, srv.receive, srv.send)
                        r = asgi.judge(srv.sent)
                        for v in r.all("set-cookie"):
                            jar.take(v.decode("latin-1"), time.time())
                    x.eq(seen.pop(), model, "%r: cookies of %r" % (seq, op))
                    if op == "set both":
                        model.update(a="x,y", b="")
                    elif op.startswith("set"):
                        n, _, v = op[4:].partition("=")
                        model[n] = v
                    elif op.startswith("del"):
                        model.pop(op[4:], None)
                    else:
                        continue
        asgi.result(rt.run(main, None, case["backend"]))
    x.outcome((kind, case["backend"]))


# ------------------------------------------------------------- any Cookie header

SYNTAX = ["a", "b", "=", ";", " ", '"', "\\", "0", "\t", ","]


def ref_unquote(v):
    if len(v) < 2 or v[0] != '"' or v[-1] != '"':
        return v
    v = v[1:-1]
    out, i = "", 0
    while i < len(v):
        if v[i] == "\\" and i + 1 < len(v):
            d = v[i + 1:i + 4]
            if len(d) == 3 and d[0] in "0123" and d[1] in "01234567" and d[2] in "01234567":
                out += chr(int(d, 8))
                i += 4
            elif v[i + 1] == "\n":
                out += "\\"
                i += 1
            else:
                out += v[i + 1]
                i += 2
        else:
            out += v[i]
            i += 1
    return out


def ref_parse(header):
    res = {}
    part = ""
    parts = []
    for c in header:
        if c == ";":
            parts.append(part)
            part = ""
        else:
            part += c
    parts.append(part)
    for p in parts:
        eq = p.find("=")
        name, value = ("", p) if eq < 0 else (p[:eq], p[eq + 1:])
        name, value = name.strip(" \t"), value.strip(" \t")
        if name or value:
            res[name] = ref_unquote(value)
    return res


def any_cases(tier):
    for a in SYNTAX:
        for b in SYNTAX:
            yield {"start": a + b}
    yield {"quoted": True}
    yield {"bytes": True}


@C.family("any", any_cases, "every Cookie header over the syntax alphabet, against a reference parser")
def _(case, x):
    if "start" in case:
        depth = 5 if x.tier == "thorough" else 4
        s = case["start"]
        todo = [s + "".join(p) for n in range(depth + 1) for p in itertools.product(SYNTAX, repeat=n)]
        if s[0] == s[1]:
            todo.append(s[0])
    elif "quoted" in case:
        al = ["\\", "0", "3", "4", "7", "8", '"', "a", " "]
        todo = ['k="%s"' % "".join(p) for n in range(7 if x.tier == "thorough" else 5) for p in itertools.product(al, repeat=n)]
        todo += ['k="\\%d%d%d"' % p for p in itertools.product(range(10), repeat=3)]
    else:
        todo = []
        for i in range(256):
            if chr(i) in "\x1c\x1d\x1e\x1f\x85\xa0\x0b\x0c\r\n":
                continue
            todo += [chr(i), "a=%sb" % chr(i), "a=%s" % chr(i), "%s=b" % chr(i), 'a="%s"' % chr(i), 'a="\\%s"' % chr(i), "x=1;%s;y=2" % chr(i)]
        todo += ["a=%s" % ("\\" * n) for n in range(40)] + ['a="%s"' % ("\\" * n) for n in range(40)]
        todo += ["; ".join("k%d=%d" % (i, i) for i in range(n)) for n in (0, 1, 2, 50, 500)] + [";" * 1000, "=" * 1000, '"' * 999]
        todo += ["a=1; b=2; a=3", "a=1; A=2", "a=1; a=", "a=; a=1", "a; b; =c", "a=b=c", "a = b", " a\t=\tb ;c=d"]
    for h in todo:
        x.step()
        try:
            got = read(h)
        except Exception as exc:
            x.fail("Cookie header %r raised %r" % (h, exc))
        want = ref_parse(h)
        if got != want:
            x.fail("Cookie header %r is read as %r, not %r" % (h, got, want))
    x.outcome((str(case), len(todo)))
    if "bytes" in case:
        x.eq(Request(asgi.scope("/")).cookies, {}, "no Cookie header")
        x.eq(cookie_parser(""), {}, "empty header")
        sc = asgi.scope("/", headers=[(b"cookie", b"a=1")])
        r1 = Request(sc)
        r1.cookies["a"] = "changed"
        x.eq(Request(asgi.scope("/", headers=[(b"cookie", b"a=1")])).cookies, {"a": "1"}, "another request's cookies")
