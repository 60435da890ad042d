"""C20 Form parsing is independent of how the body is chunked."""
from __future__ import annotations

import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.formparsers import MultiPartParser
from starlette.requests import Request

C = Check("C20", [
    "names and file names have no quote, backslash, control character or drive prefix, which encoders escape in different ways",
    "urlencoded bodies are ASCII (encoders percent-encode everything else)",
    "a declared charset is the name of a codec or unknown",
])


def setup():
    pass


# ---------------------------------------------------------------- model

def part(name, content, filename=None, headers=(), charset="utf-8"):
    return (name, content, filename, tuple(headers), charset)


def raw(v, charset):
    return v if isinstance(v, bytes) else v.encode(charset)


def headers_of(p):
    name, content, filename, headers, cs = p
    cd = b'form-data; name="' + raw(name, cs) + b'"'
    if filename is not None:
        cd += b'; filename="' + raw(filename, cs) + b'"'
    out = []
    for k, v in headers:
        if k == "*":
            out.append((b"Content-Disposition", cd))
            cd = None
        else:
            out.append((k.encode(), v.encode("latin-1")))
    if cd is not None:
        out.insert(0, (b"Content-Disposition", cd))
    return out


def encode(parts, boundary, pre=b"", post=b"\r\n"):
    out = pre
    for p in parts:
        out += b"--" + boundary + b"\r\n"
        for k, v in headers_of(p):
            out += k + b": " + v + b"\r\n"
        out += b"\r\n" + p[1] + b"\r\n"
    return out + b"--" + boundary + b"--" + post


def decoded(b, charset):
    try:
        return b.decode(charset)
    except (UnicodeError, LookupError):
        return b.decode("latin-1")


def expected(parts, charset):
    out = []
    for p in parts:
        name, content, filename, headers, cs = p
        n = decoded(raw(name, cs), charset)
        if filename is None:
            out.append((n, "text", decoded(content, charset)))
        else:
            hs = [(k.lower().decode("latin-1"), v.decode("latin-1")) for k, v in headers_of(p)]
            ct = next((v for k, v in hs if k == "content-type"), None)
            out.append((n, "file", decoded(raw(filename, cs), charset), ct, tuple(hs), len(content), content))
    return out


async def view(form, reads=(-1,)):
    out = []
    for k, v in form.multi_items():
        if isinstance(v, str):
            out.append((k, "text", v))
        else:
            data = b""
            for n in reads:
                data += await v.read(n)
            out.append((k, "file", v.filename, v.content_type, tuple(v.headers.items()), v.size, data))
    return out


def messages(chunks):
    return [{"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)]


async def parse(ctype, chunks, body_first=False, **kw):
    msgs = iter(messages(chunks) or [{"type": "http.request"}])

    async def receive():
        return next(msgs)

    sc = asgi.scope("/", "POST", headers=[(b"content-type", ctype)] if ctype is not None else [])
    req = Request(sc, receive)
    if body_first:
        await req.body()
    async with req.form(**kw) as form:
        return await view(form)


def sweep(x, ctype, splits, want, what, spool=None, **kw):
    """Parse every split of one body."""
    splits = list(splits)
    old = MultiPartParser.spool_max_size
    if spool is not None:
        MultiPartParser.spool_max_size = spool
    try:
        for i in range(0, len(splits), 150):
            part_ = splits[i:i + 150]

            async def main():
                out = []
                for chunks in part_:
                    try:
                        out.append(await parse(ctype, chunks, **kw))
                    except Exception as e:
                        out.append(e)
                return out

            with rt.vthreads("inline"):
                got = asgi.result(rt.run(main))
            for chunks, g in zip(part_, got):
                x.check(g == want, "%s split as %s gave %s" % (what, short(chunks), short(g, 600)), "expected %s" % short(want, 600))
            x.step(len(part_))
    finally:
        MultiPartParser.spool_max_size = old
    x.outcome(what)


def cuts(body, k, lo=0, hi=None):
    hi = len(body) if hi is None else hi
    for c in itertools.combinations(range(max(lo, 0), hi + 1), k):
        b = (0,) + c + (len(body),)
        yield [body[i:j] for i, j in zip(b, b[1:])]


def sized(body, n):
    return [body[i:i + n] for i in range(0, len(body), n)] or [b""]


def with_empties(chunks):
    out = []
    for c in chunks:
        out += [b"", c]
    return out + [b""]


# ---------------------------------------------------------------- contents that look like boundaries

SYM = {"r": b"\r", "n": b"\n", "-": b"-", "B": b"B", "x": b"x"}


def look_cases(tier):
    n = 5 if tier == "quick" else 6
    for first in itertools.product("rn-Bx", repeat=2):
        for kind in ("text", "file"):
            for boundary in (b"B", b"BB", b"B-B") if tier != "quick" else (b"BB",):
                yield ("".join(first), n, kind, boundary)


@C.family("lookalike", look_cases, "all contents up to length 5 (6) over {CR, LF, '-', boundary character, other}, followed by another part x every single cut (every cut set near the content in thorough)")
def lookalike(case, x):
    first, n, kind, boundary = case
    ctype = b"multipart/form-data; boundary=" + boundary
    for k in range(0, n - 1):
        for rest in itertools.product("rn-Bx", repeat=k):
            content = b"".join(SYM[c] for c in first + "".join(rest))
            if b"\r\n--" + boundary in b"\r\n" + content + b"\r\n--":
                continue
            ps = [part("a", content, "f" if kind == "file" else None), part("b", b"y")]
            body = encode(ps, boundary)
            at = body.index(b"\r\n\r\n") + 4
            end = at + len(content) + 4 + len(boundary) + 2
            splits = [[body]] + list(cuts(body, 1, at - 2, end)) + [sized(body, 1)] + list(cuts(body, 2, at, end) if k <= n - 3 else ())
            if x.tier != "quick":
                splits += list(cuts(body, 2, at, end)) + (list(cuts(body, 3, at, end)) if k <= n - 3 else [])
            sweep(x, ctype, splits, expected(ps, "utf-8"), "content %r of a %s between %r" % (content, kind, boundary))


# ---------------------------------------------------------------- whole bodies

PARTS = [
    part("a", b"1"),
    part("a", b""),
    part("\u00e9\u4e16", "na\u00efve \U0001f600\r\n--x".encode()),
    part("f", b"file\r\n--bytes\x00\xff", "f.txt", [("Content-Type", "text/plain")]),
    part("f", b"", "", []),
    part("a", b"x" * 20, "n \u00e9;=.bin", [("*", ""), ("X-Custom", "one: two; three=\xff"), ("Content-Type", "application/x-thing; a=\"b\""), ("x-custom", "again")]),
    part("with space;and=signs&%", b"v"),
    part("", b"noname"),
    part("l", "caf\u00e9".encode("latin-1"), None, [("Content-Type", "text/plain; charset=x"), ("*", "")]),
    part("z", b"\x00\r\n\r\n\n\r", "z\u4e16", [("content-TYPE", "a/b")]),
]


def body_cases(tier):
    n = len(PARTS)
    ids = [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2)) + [(0, 3, 0), (3, 0, 5), (5, 9, 5), (1, 1, 1), (2, 4, 8)]
    if tier != "quick":
        ids += list(itertools.product((0, 2, 3, 5), repeat=3))
    yield ()
    for t in ids:
        yield t


VARIANTS = [(b"", b"\r\n"), (b"\r\n", b""), (b"", b"\r\nepilogue\r\n--BoU\r\nmore")]


@C.family("bodies", body_cases, "bodies of up to 3 parts (fields, files, odd names, headers, orders, charset bytes) x every single cut x fixed chunk sizes x empty messages between x preamble and epilogue x in memory and on disk; every pair of cuts for one-part bodies")
def bodies(case, x):
    parts = [PARTS[i] for i in case]
    boundary = b"BoU'(+_,./:=?)"
    ctype = b'multipart/form-data; boundary="' + boundary + b'"'
    want = expected(parts, "utf-8")
    for pre, post in VARIANTS if len(case) < 3 else VARIANTS[:1]:
        body = encode(parts, boundary, pre, post)
        splits = [[body], [body, b""], [b"", body], with_empties(sized(body, 1))]
        splits += [sized(body, k) for k in (1, 2, 3, 5, 7, 16, 64)]
        splits += list(cuts(body, 1))
        if x.tier != "quick":
            splits += [with_empties(c) for c in cuts(body, 1)]
            if len(body) < 150:
                splits += list(cuts(body, 2))
        for spool in (None, 3) if any(p[2] is not None for p in parts) else (None,):
            sweep(x, ctype, splits if spool is None or x.tier != "quick" else splits[:11], want, "parts %s pre %r post %r spool %s" % (case, pre, post, spool), spool)
        sweep(x, ctype, [[body], sized(body, 4)], want, "parts %s after body()" % (case,), body_first=True)


def pair_cases(tier):
    for i in range(len(PARTS)):
        yield (i, tier)


@C.family("pairs", pair_cases, "one-part bodies with a short boundary x every pair of cuts")
def pairs(case, x):
    i, tier = case
    p = PARTS[i]
    body = encode([p], b"b")
    ctype = b"multipart/form-data;boundary=b"
    if tier == "quick" and len(body) > 120:
        at = body.index(b"\r\n\r\n")
        splits = itertools.chain(cuts(body, 2, 0, 40), cuts(body, 2, at - 8, len(body)))
    else:
        splits = cuts(body, 2)
    sweep(x, ctype, splits, expected([p], "utf-8"), "part %d" % i)


# ---------------------------------------------------------------- charsets, types, sizes

CHARSETS = [None, b"utf-8", b"UTF-8", b"latin-1", b"iso-8859-1", b"cp1252", b"ascii", b"utf-16", b"utf-16-le", b"shift_jis", b"idna", b"punycode", b"undefined", b"utf-7", b"hex", b"rot13", b"nonsense", b"", b"\xff", b"'utf-8'", b"x" * 300, b"zlib", b"big5", b"cp037"]
DATA = [b"", b"a", "\u00e9".encode(), b"\xe9", b"\xff\xfe", b"\x80\x81", b"xn--a", b"+AAA-", b"a-\xff", b"..", b"\x00a", b"abc-\xe9-def"]


def charset_cases(tier):
    for c in CHARSETS:
        yield (c,)


@C.family("charsets", charset_cases, "declared charsets (usual, exotic, failing, unknown) x byte strings in values, names and file names")
def charsets(case, x):
    cs, = case
    ctype = b"multipart/form-data; boundary=bb" + (b"; charset=" + cs if cs is not None else b"")
    codec = "utf-8" if cs is None else cs.decode("latin-1")
    for d, e in itertools.product(DATA, repeat=2):
        ps = [part(d, e), part(b"f", e, d), part(e, b"", b"f")]
        body = encode(ps, b"bb")
        sweep(x, ctype, [[body], sized(body, 3)], expected(ps, codec), "charset %r, data %r %r" % (cs, d, e))


TYPES = [
    (b"multipart/form-data; boundary=bb", "m"), (b"Multipart/Form-Data; boundary=bb", "m"), (b'multipart/form-data; charset=utf-8; boundary="bb"', "m"), (b'multipart/form-data ;  boundary=bb ; x=y', "m"), (b"MULTIPART/FORM-DATA;boundary=bb", "m"),
    (b"multipart/mixed; boundary=bb", ""), (b"text/plain", ""), (b"application/json", ""), (b"", ""), (None, ""), (b"multipart/form-data-x; boundary=bb", ""), (b"x-multipart/form-data; boundary=bb", ""), (b"multipart", ""), (b";", ""),
    (b"application/x-www-form-urlencoded", "u"), (b"Application/X-WWW-Form-Urlencoded", "u"), (b"application/x-www-form-urlencoded; charset=utf-8", "u"), (b" application/x-www-form-urlencoded ;a=b", "u"), (b"application/x-www-form-urlencoded2", ""),
]


def type_cases(tier):
    for i in range(len(TYPES)):
        yield (i,)


@C.family("types", type_cases, "content types in every spelling: the right parser, and an empty form for others")
def types(case, x):
    ctype, kind = TYPES[case[0]]
    ps = [part("a", b"1"), part("f", b"2", "n")]
    body = encode(ps, b"bb")
    if kind == "u":
        sweep(x, ctype, [[b"a=1&b=%20"], sized(b"a=1&b=%20", 1)], [("a", "text", "1"), ("b", "text", " ")], "type %r" % ctype)
        sweep(x, ctype, [[b""], []], [], "type %r, empty" % ctype)
    elif kind == "m":
        sweep(x, ctype, [[body], sized(body, 2)], expected(ps, "utf-8"), "type %r" % ctype)
    else:
        sweep(x, ctype, [[body], [b"a=1"], []], [], "type %r" % ctype)


def spool_cases(tier):
    for limit in (0, 1, 5, 1024):
        for size in sorted({0, 1, limit - 1, limit, limit + 1, 2 * limit + 3}):
            if size >= 0:
                yield (limit, size)
    for size in (2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 20 + 65536):
        yield (None, size)


@C.family("spool", spool_cases, "file sizes around the spool limit (small ones and the real one) x chunk sizes x reading in pieces")
def spool(case, x):
    limit, size = case
    content = bytes((i * 7 + i // 250) % 256 for i in range(size)).replace(b"\r", b"r")
    ps = [part("f", content, "f.bin", [("Content-Type", "a/b")]), part("t", b"t"), part("g", content[::-1], "g")]
    body = encode(ps, b"bb")
    sizes = [len(body), 1, 3, 64, 1000] if limit is not None and size < 3000 else [len(body), 65536, 65535, 10 ** 5, 2 ** 19]
    sweep(x, b"multipart/form-data; boundary=bb", [sized(body, k) for k in sizes], expected(ps, "utf-8"), "file of %d bytes, limit %s" % (size, limit), limit)


# ---------------------------------------------------------------- urlencoded

def percent(b):
    out = bytearray()
    i = 0
    while i < len(b):
        h = b[i + 1:i + 3]
        if b[i:i + 1] == b"%" and len(h) == 2 and all(chr(c) in "0123456789abcdefABCDEF" for c in h):
            out.append(int(h, 16))
            i += 3
        else:
            out += b" " if b[i:i + 1] == b"+" else b[i:i + 1]
            i += 1
    return out.decode("utf-8", "replace")


def url_expected(body):
    out = []
    for p in body.split(b"&"):
        if p:
            k, _, v = p.partition(b"=")
            out.append((percent(k), "text", percent(v)))
    return out


U = [b"a", b"=", b"&", b"+", b"%20", b"%C3%A9", b"%", b";", b"1", b"%3D", b"%26", b"%ff", b"%2", b"#", b"\r\n"]


def url_cases(tier):
    for t in itertools.product(range(len(U)), repeat=2):
        yield (t, 4 if tier == "quick" else 5)


@C.family("urlencoded", url_cases, "all bodies of up to 4 (5) tokens (names, separators, escapes, broken escapes) x whole, byte by byte, every single cut; every cut set for bodies up to 7 bytes")
def urlencoded(case, x):
    first, n = case
    ctype = b"application/x-www-form-urlencoded"
    toks = [b"".join(U[i] for i in first)]
    for k in range(0, n - 1):
        small = range(len(U)) if k < 2 else range(7) if n == 4 else range(9)
        for rest in itertools.product(small, repeat=k):
            body = toks[0] + b"".join(U[i] for i in rest)
            splits = [[body], sized(body, 1), with_empties(sized(body, 2))] + list(cuts(body, 1))
            if len(body) <= 7:
                for r in range(2, len(body)):
                    splits += list(cuts(body, r, 1, len(body) - 1))
            sweep(x, ctype, splits, url_expected(body), "urlencoded %r" % body)
    if case[0] == (0, 1):
        for body in (b"", b"a", b"&", b"=", b"&&", b"=&=", b"a&b&a=&=a"):
            sweep(x, ctype, [[body], [b"", body, b""], sized(body, 1)], url_expected(body), "urlencoded %r" % body)


# ---------------------------------------------------------------- two uploads at once

def conc_cases(tier):
    for spool in (0, 2, 1000):
        for a, b in ((0, 0), (0, 1), (1, 1)):
            for backend in ("asyncio", "trio"):
                yield (spool, a, b, backend)


@C.family("concurrent", conc_cases, "two forms with files parsed at once, message arrival and disk writes in every order")
def concurrent(case, x):
    import anyio

    spool, a, b, backend = case
    pools = [[part("f", b"abcdef", "one"), part("a", b"1")], [part("a", b"2"), part("g", b"xyz", "two"), part("g", b"", "three")]]
    ctype = b"multipart/form-data; boundary=bb"
    bodies_ = []
    for i in (a, b):
        body = encode(pools[i], b"bb")
        at = body.index(b"filename") + 30
        bodies_.append([body[:at], body[at:]])

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)
        got = [None, None]
        MultiPartParser.spool_max_size = spool

        async def main():
            async def one(i, chunks):
                srv = asgi.Server(messages(chunks), env=env, gate="r", name="req%d" % i)
                req = Request(asgi.scope("/", "POST", headers=[(b"content-type", ctype)]), srv.receive)
                async with req.form() as form:
                    got[i] = await view(form, (2, -1))

            async with anyio.create_task_group() as tg:
                tg.start_soon(one, 0, bodies_[0])
                tg.start_soon(one, 1, bodies_[1])

        try:
            with rt.vthreads("env"):
                asgi.result(rt.run(main, env=env, backend=backend))
        finally:
            MultiPartParser.spool_max_size = 2 ** 20
        for i, k in enumerate((a, b)):
            x.eq(got[i], expected(pools[k], "utf-8"), "form %d" % i)

    x.explore(go, 1, cap=3000 if x.tier == "quick" else 100000)


# ---------------------------------------------------------------- names

NAME_CHARS = [" ", "\t", ".", "/", ":", ";", "=", "'", "%", "+", "*", ",", "a", "A", "\u00fc", "\u20ac", "[", "\x7f"]


def name_cases(tier):
    return [(c, n) for c in NAME_CHARS for n in range(1, 3 if tier == "quick" else 4)]


@C.family("names", name_cases, "all names and file names of up to 2 (3) of 18 symbols (white space, separators, path syntax, non-ASCII): exactly as written, with every cut of the header of a few")
def names(case, x):
    first, n = case
    b = b"BB"
    ctype = b"multipart/form-data; boundary=BB"
    done = []
    for rest in itertools.product(NAME_CHARS, repeat=n - 1):
        s = "".join((first, *rest))
        done.append([part(s, b"v"), part("f", b"data", filename=s, headers=[("Content-Type", "text/plain")]), part(s, b"w", filename="")])

    async def main():
        return [await parse(ctype, [encode(p, b)]) for p in done]

    with rt.vthreads("inline"):
        got = asgi.result(rt.run(main))
    for p, g in zip(done, got):
        x.eq(g, expected(p, "utf-8"), "parts named %r" % (p[0][0],))
        x.step()
    for p in done[:: max(1, len(done) // 3)]:
        body = encode(p, b)
        sweep(x, ctype, [[body[:i], body[i:]] for i in range(1, len(body))], expected(p, "utf-8"), "parts named %r" % (p[0][0],))
    x.outcome(case)
