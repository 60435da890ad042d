"""C25 URLs decompose, edit and rebuild without collateral change."""
from __future__ import annotations

import itertools

from mc.core import Check, short

from starlette.datastructures import URL
from starlette.requests import HTTPConnection, Request
from starlette.websockets import WebSocket

C = Check("C25", [
    "components are given in their encoded form; a path after a host starts with '/', one without a host not with '//'",
    "a password needs a user name; text that urlsplit refuses or strips (controls, bad ports and brackets) is not given",
    "which of '%20' and '+' an edited query uses is not specified, nor the bytes of escapes that are not UTF-8",
    "servers are addresses with a port; schemes of scopes are http, https, ws, wss",
])


class Sub(URL):
    pass


F = ("scheme", "username", "password", "hostname", "port", "path", "query", "fragment")
SECRET = "sEcReT"


def compose(c):
    host = c["hostname"]
    out = c["scheme"] + ":" if c["scheme"] else ""
    net = netloc(c)
    if net:
        out += "//" + net
    out += c["path"]
    if c["query"]:
        out += "?" + c["query"]
    if c["fragment"]:
        out += "#" + c["fragment"]
    return out


def netloc(c):
    host = c["hostname"] or ""
    if ":" in host:
        host = "[%s]" % host
    if c["port"] is not None:
        host += ":%d" % c["port"]
    if c["username"] is not None:
        host = c["username"] + (":" + c["password"] if c["password"] is not None else "") + "@" + host
    return host


def agree(x, u, c, what):
    want = dict(c)
    if want["username"] is None:
        want["password"] = None
    if want["hostname"] is not None:
        want["hostname"] = want["hostname"].lower()
    for f in F:
        got = getattr(u, f)
        if got != want[f] or type(got) is not type(want[f]):
            x.fail("%s: %s is %r, expected %r" % (what, f, got, want[f]), str(u))
    if u.netloc != netloc(c):
        x.fail("%s: netloc %r, expected %r" % (what, u.netloc, netloc(c)))
    if u.is_secure is not (c["scheme"] in ("https", "wss")):
        x.fail("%s: is_secure %r" % (what, u.is_secure))
    r = repr(u)
    if SECRET in r or not r.startswith(type(u).__name__ + "("):
        x.fail("%s: repr %s" % (what, r))


def urls(tier, small):
    if small:
        schemes, infos = ["http", "wss"], [(None, None), ("u", None), ("u", ""), ("", SECRET), ("u", SECRET), ("us%40r", SECRET + ":w")]
        hosts, ports, paths, queries, frags = ["h", "Ex.org", "::1", "1.2.3.4"], [None, 0, 80, 8443], ["", "/", "/a/b"], ["", "a=1&b=@:"], ["", "f"]
    else:
        schemes, infos = ["http", "https", "ws", "wss", "postgresql+x", ""], [(None, None), ("u", None), ("", None), ("u", ""), ("u", SECRET), ("", SECRET), ("us%40r", SECRET + ":w"), ("a@b", SECRET + "@" + SECRET), ("u:x".replace(":", ";"), "*" + SECRET)]
        hosts, ports, paths, queries, frags = ["h", "Ex.org", "::1", "fe80::A%e0", "1.2.3.4", "xn--n.org", None], [None, 0, 80, 443, 8443, 65535], ["", "/", "/a/b", "/a%20b;c=d", "//x", "/a:b@c", "/\xe9"], ["", "a=1&b=2", "q=?/x@y:z", "a=%26&&="], ["", "f", "f?x/y@z:1"]
    for s, (u, p), h, port, path, q, f in itertools.product(schemes, infos, hosts, ports, paths, queries, frags):
        c = dict(zip(F, (s, u, p, h, port, path, q, f)))
        if not netloc(c) and path.startswith("//"):
            continue
        yield c


def read_cases(tier):
    for i in range(48):
        yield i


@C.family("read", read_cases, "the product of 6 schemes, 9 user infos, 7 hosts, 6 ports, 7 paths, 4 queries, 3 fragments: what was composed is read back, from text and from keyword components; string and equality; repr without the password")
def read(case, x):
    n = 0
    for i, c in enumerate(urls(x.tier, False)):
        if i % 48 != case:
            continue
        s = compose(c)
        u = URL(s)
        agree(x, u, c, s)
        if str(u) != s or not u == s or not u == URL(s) or u != s or u == s + "x" or u == URL(s + "/y") or not s == u:
            x.fail("%s is %s" % (s, u))
        if c["path"].startswith("//") and not netloc(c):
            continue
        kw = {"scheme": c["scheme"], "netloc": netloc(c), "path": c["path"], "query": c["query"], "fragment": c["fragment"]}
        agree(x, URL(**{k: v for k, v in kw.items() if v}) if any(kw.values()) else URL(""), c, "made of %s" % kw)
        if c["hostname"] is not None:
            kw = {k: v for k, v in c.items() if v is not None and v != ""}
            if c["username"] == "" and c["password"] is not None:
                kw["username"] = ""
            want = dict(c)
            if c["password"] == "":
                want["password"] = None
            if c["username"] == "" and c["password"] is None:
                want["username"] = None
            agree(x, URL(**kw), want, "made of %s" % kw)
            kw["hostname"] = "[%s]" % c["hostname"] if ":" in c["hostname"] else c["hostname"]
            agree(x, URL(**kw), want, "made of %s" % kw)
        n += 1
        x.outcome((c["scheme"], netloc(c), i % 40))
    x.step(n)


NEW = {"scheme": ["https", "ws"], "username": ["new", None], "password": ["N" + SECRET, None, ""], "hostname": ["n.org", "2001:db8::1"], "port": [99, None], "path": ["/n", "/n/m%3F"], "query": ["n=1", ""], "fragment": ["n", ""]}


def replace_cases(tier):
    for m in range(1, 256):
        if m % 4 == 0 or tier != "quick" or bin(m).count("1") < 4 or True:
            yield m


@C.family("replace", replace_cases, "every URL of a smaller product x every subset of components x new values (removal included): exactly those change; the URL itself does not")
def replace(case, x):
    fields = [f for i, f in enumerate(F) if case >> i & 1]
    combos = list(itertools.product(*(NEW[f] for f in fields)))
    if x.tier == "quick" and len(combos) > 8:
        combos = [combos[i] for i in sorted({0, len(combos) - 1, *range(0, len(combos), max(1, len(combos) // 6))})]
    n = 0
    for i, c in enumerate(urls(x.tier, True)):
        if x.tier == "quick" and i % 5 != case % 5 and len(fields) > 3:
            continue
        s = compose(c)
        for vals in combos:
            kw = dict(zip(fields, vals))
            want = {**c, **kw}
            if "password" in kw and kw["password"] is not None and want["username"] is None:
                continue
            if "username" in kw and want["username"] is None and c["password"] is not None and "password" not in kw:
                want["password"] = None
            u = Sub(s)
            agree(x, u, c, s) if n % 7 == 0 else None
            r = u.replace(**kw)
            if type(r) is not Sub or r is u or str(u) != s:
                x.fail("replace gave a %s, and left %s" % (type(r).__name__, u))
            agree(x, r, want, "%s with %s" % (s, kw))
            if str(r) != compose(want):
                x.fail("%s with %s is %s, expected %s" % (s, kw, r, compose(want)))
            agree(x, u, c, "%s after replace" % s) if n % 7 == 1 else None
            n += 1
    x.step(n)
    x.outcome(case)


def chain_cases(tier):
    for a in F:
        for b in F:
            yield (a, b)


@C.family("chains", chain_cases, "two replacements after another, and undoing one: the URL is the one before; the same from hosts, URLs without one and netlocs")
def chains(case, x):
    a, b = case
    for c in urls(x.tier, True):
        if c["username"] is None:
            c = {**c, "username": "v"}
        if c["path"] == "":
            c = {**c, "path": "/p"}
        s = compose(c)
        u = URL(s)
        for va, vb in itertools.product(NEW[a], NEW[b]):
            if a == "username" and va is None or b == "username" and vb is None:
                continue
            r = u.replace(**{a: va}).replace(**{b: vb})
            agree(x, r, {**c, a: va, b: vb}, "%s: %s=%r, %s=%r" % (s, a, va, b, vb))
            back = r.replace(**{b: c[b]}).replace(**{a: c[a]})
            if a == b:
                back = back.replace(**{a: c[a]})
            agree(x, back, c, "%s: %s=%r, %s=%r and back" % (s, a, va, b, vb))
            if "hostname" not in (a, b) and str(back) != s:
                x.fail("%s became %s" % (s, back))
            x.step()
    for s in ("/p?q=1#f", "postgres://u:%s@/db" % SECRET, "p", "?a=1"):
        u = URL(s)
        r = u.replace(hostname="h", port=5)
        x.eq((r.hostname, r.port, r.path, r.query, r.fragment, r.username), ("h", 5, u.path if u.path.startswith("/") or not u.path else "/" + u.path, u.query, u.fragment, u.username), "replaced host of %s" % s)
        if "@" in s:
            r = u.replace(port=7)
            x.eq((r.hostname, r.port, r.path, r.username, r.password), (None, 7, "/db", "u", SECRET), "replaced port of %s" % s)
            r = u.replace(username="w", path="/x")
            x.eq((r.hostname, r.port, r.path, r.username, r.password), (None, None, "/x", "w", SECRET), "replaced user of %s" % s)
        x.check(SECRET not in repr(u) and SECRET not in repr(r), "repr %r %r" % (u, r))
    for net in ("n.org", "a:b@n.org:1", "[::1]:3"):
        for c in urls(x.tier, True):
            r = URL(compose(c)).replace(netloc=net)
            x.check((r.scheme, r.netloc, r.path, r.query, r.fragment) == (c["scheme"], net, c["path"], c["query"], c["fragment"]), "%s" % r)


# ---------------------------------------------------------------- queries

def unquote(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%" and len(s[i + 1:i + 3]) == 2 and all(c in "0123456789abcdefABCDEF" for c in s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += b" " if s[i] == "+" else s[i].encode()
            i += 1
    return out.decode("utf-8", "replace")


def pairs(q):
    return [tuple(unquote(t) for t in (f.partition("=")[0], f.partition("=")[2])) for f in q.split("&") if f]


QS = ["", "a=1", "a=1&b=2&a=3", "b=2&a=1&c=3&b=", "a", "a=&b=x%20y+z&a=%26", "c=%C3%A9&b=%3D%23&a=?/", "&&a=1&"]
VALS = ["9", "", "x y&=#?+%", "\xe9\u20ac", 5, None, True]
KEYSETS = [(), ("a",), ("b",), ("n",), ("a", "b"), ("n", "a"), ("a", "a"), ("b", "n", "c")]


def edits():
    for keys in KEYSETS:
        if len(set(keys)) == len(keys):
            for v in VALS:
                yield ("include", {k: v for k in keys})
                yield ("replace", {k: v for k in keys})
                if not keys:
                    break
        yield ("remove", list(keys))
        yield ("remove", tuple(keys))
        if len(keys) == 1:
            yield ("remove", keys[0])
    yield ("remove", "ab")
    yield ("include", {"a b": "1", "&": "=", "\xe9": "2"})


def edit(u, e):
    if e[0] == "include":
        return u.include_query_params(**e[1])
    if e[0] == "replace":
        return u.replace_query_params(**e[1])
    return u.remove_query_params(e[1])


def model(p, e):
    if e[0] == "replace":
        return [(k, str(v)) for k, v in e[1].items()]
    if e[0] == "include":
        return [q for q in p if q[0] not in e[1]] + [(k, str(v)) for k, v in e[1].items()]
    keys = [e[1]] if isinstance(e[1], str) else e[1]
    return [q for q in p if q[0] not in keys]


def query_cases(tier):
    for base in ("http://u:p@Ex.org:8/a/b?%s#f", "/p?%s", "https://[::1]?%s", "wss://h/%%20x;y?%s#?a=1"):
        for q in QS:
            yield (base, q, 2 if tier == "quick" else 3)


@C.family("queries", query_cases, "every sequence of up to 2 (3) include/replace/remove_query_params from several queries and URLs: exactly the named parameters change, the others keep order and value, and the rest of the URL is the same")
def queries(case, x):
    base, q, depth = case
    s = base % q
    u0 = URL(s)
    es = list(edits())
    if depth == 3:
        es = es[::2]

    def rec(u, p, hist):
        for e in es:
            before = str(u)
            r = edit(u, e)
            want = model(p, e)
            if pairs(r.query) != want:
                x.fail("%s after %s: query %s, expected %s" % (s, hist + [e], r.query, want))
            if (r.scheme, r.netloc, r.path, r.fragment) != (u0.scheme, u0.netloc, u0.path, u0.fragment) or str(u) != before:
                x.fail("%s after %s: %s" % (s, hist + [e], r))
            if len(hist) < depth - 1:
                rec(r, want, hist + [e])
            x.step()

    rec(u0, pairs(q), [])
    x.outcome(case)


# ---------------------------------------------------------------- scopes

SERVERS = [None, ("h", 80), ("h", 443), ("h", 8000), ("::1", 80), ("::1", 8000), ("1.2.3.4", 443), ["h", 80]]
HOSTS = [None, b"ex.org", b"ex.org:80", b"EX.org:8080", b"[::1]:8080", b"1.2.3.4", b"h\xe9"]
PATHS = ["/", "/a/b", "/a b", "/\xe9", "/a?b", "/a#b", "/%41", "/a%3Fb", "//x", "", "/a;b:c@d", "/a\rb", "/\n", "/a\t?\r\n"]
QUERIES = [b"", b"a=1&b=%20", b"q=?#"[:3], None, "q=\u00e9\u20ac".encode()]


def scope_cases(tier):
    for scheme in ("http", "https", "ws", "wss", None):
        for server in SERVERS:
            yield (scheme, server)


@C.family("scopes", scope_cases, "scopes of every scheme, server address, host header (first, repeated, missing), path, root path and query: the URL's text, of a connection of each kind and of URL(scope=...)")
def scopes(case, x):
    scheme, server = case
    for host, path, q, root, more in itertools.product(HOSTS, PATHS, QUERIES, ("", "/root"), ((), ((b"x", b"y"),))):
        headers = [*more] + ([(b"host", host), (b"host", b"second")] if host is not None else []) + [(b"hosts", b"no")]
        for typ in ("http", "websocket"):
            sc = {"type": typ, "path": path, "headers": headers, "root_path": root}
            if scheme is not None:
                sc["scheme"] = scheme
            if server is not None or root:
                sc["server"] = server
            if q is not None:
                sc["query_string"] = q
            sch = scheme or "http"
            esc = "".join("%%%02X" % ord(ch) if ch in "%?#\r\n\t" else ch for ch in path)
            if host is not None:
                want = sch + "://" + host.decode("latin-1") + esc
            elif server is None:
                want = esc
            else:
                default = {"http": 80, "https": 443, "ws": 80, "wss": 443}[sch]
                want = sch + "://" + ("[%s]" % server[0] if ":" in server[0] else server[0]) + ("" if server[1] == default else ":%d" % server[1]) + esc
            if q:
                want += "?" + q.decode()
            us = [URL(scope=sc), HTTPConnection(sc).url]
            us.append(Request(sc).url if typ == "http" else WebSocket(sc, None, None).url)
            for u in us:
                x.check(str(u) == want and u == want, "the URL of %s is %s, expected %s" % (sc, u, want))
                if host is not None or server is not None:
                    x.check(u.scheme == sch and unquote(u.path.replace("+", "%2B")) == path and u.query == (q or b"").decode() and u.fragment == "", "parts of %s: %s" % (u, u.components))
            if server is not None and host is None:
                x.check((u.hostname, u.port or default) == (server[0], server[1]), "address of %s" % u)
            x.step()
    x.outcome(case)
