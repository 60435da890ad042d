"""C19 Byte ranges return exactly the requested bytes."""
from __future__ import annotations

import itertools
import os
import re
import shutil
import tempfile

from mc import asgi, rt
from mc.core import Check, short

import anyio
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.responses import FileResponse
from starlette.staticfiles import StaticFiles

C = Check("C19", [
    "a suffix range longer than the file may be refused",
    "an unsatisfiable range makes the whole header unsatisfiable",
    "a header that is not well-formed may be refused or read leniently, but what is sent must be what its labels say",
    "the file of one response object made by the application is not rewritten between its requests; while it is being sent it only shrinks or grows at the end",
])

TOP = None
BIG = bytes((i * 31 + i // 251) % 256 for i in range(3 * 65536 + 10))


def setup():
    global TOP
    TOP = tempfile.mkdtemp(prefix="c19-")
    for n in list(range(0, 13)):
        write("f%d.txt" % n, small(n))
    for n in SIZES:
        write("f%d.txt" % n, BIG[:n])


def teardown():
    shutil.rmtree(TOP)


def small(n):
    return b"ABCDEFGHIJKLMNOP"[:n]


DIGITS = [10, 11, 12, 99, 100, 101, 1000, 1001, 10001]
SIZES = DIGITS[3:] + [65535, 65536, 65537, 131071, 131072, 131073, 3 * 65536]


def content(n):
    return small(n) if n < 14 else BIG[:n]


def write(name, data):
    with open(os.path.join(TOP, name), "wb") as f:
        f.write(data)
    os.utime(os.path.join(TOP, name), (1_000_000_000, 1_000_000_000))


def respond(n, chunk=None, **kw):
    r = FileResponse(os.path.join(TOP, "f%d.txt" % n), **kw)
    if chunk:
        r.chunk_size = chunk
    return r


# ---------------------------------------------------------------- reference

def spec_text(s):
    a, b = s
    return ("" if a is None else str(a)) + "-" + ("" if b is None else str(b))


def want(n, specs):
    """("206", runs) / ("416",) / ("400",) / either of the last two, for well-formed range specs of a file of n bytes."""
    runs, bad, unsat = [], False, False
    for a, b in specs:
        if a is None:
            if b > n:
                return ("unspecified",)
            a, b = n - b, n - 1
        elif b is None:
            b = n - 1
        elif a > b:
            bad = True
        if a >= n:
            unsat = True
        runs.append((a, min(b, n - 1) + 1))
    if bad or unsat:
        return ("refused",) if bad else ("416",)
    byte = sorted({i for a, b in runs for i in range(a, b)}) if n < 1000 else None
    out = []
    if byte is not None:
        for i in byte:
            if out and out[-1][1] == i:
                out[-1] = (out[-1][0], i + 1)
            else:
                out.append((i, i + 1))
        return ("206", out)
    for a, b in sorted(runs):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return ("206", out)


PART = re.compile(rb"--([^\r\n]+)\r?\n(?:[^\r\n]+\r?\n)*?Content-Range: bytes (\d+)-(\d+)/(\d+)\r?\n(?:[^\r\n]+\r?\n)*?\r?\n", re.I)


def parse_multipart(x, r, n, what):
    """The (start, end, bytes) parts of a multipart/byteranges body."""
    named = [v for k, v in r.headers if b"boundary=" in v]
    x.check(named, "%s: no boundary named in %s" % (what, r.headers))
    boundary = named[0].split(b"boundary=")[1].strip(b'"')
    body, pos, parts = r.body, 0, []
    while True:
        m = PART.match(body, pos)
        if not m:
            break
        x.check(m.group(1) == boundary and int(m.group(4)) == n, "%s: part %r" % (what, m.group(0)))
        x.check(b"content-type:" in m.group(0).lower(), "%s: part without a type: %r" % (what, m.group(0)))
        a, b = int(m.group(2)), int(m.group(3)) + 1
        data = body[m.end():m.end() + b - a]
        x.check(len(data) == b - a, "%s: part %r is cut short" % (what, m.group(0)))
        parts.append((a, b, data))
        pos = m.end() + b - a
        nl = re.compile(rb"(\r?\n)+(?=--)").match(body, pos)
        x.check(nl, "%s: after part %s comes %r" % (what, parts[-1][:2], body[pos:pos + 40]))
        pos = nl.end()
    x.check(body[pos:].rstrip(b"\r\n") == b"--" + boundary + b"--", "%s: the body ends in %r" % (what, body[pos:][-60:]))
    return parts


def check_length(x, r, what):
    """content-length is the length of the body; the known finding (see the family "multilength") is let pass here."""
    lengths = r.all("content-length")
    body = r.body
    end = re.search(rb"\n\n(--[^\n]*--\n)\Z", body)
    if r.status == 206 and end and any(b"boundary=" in v for k, v in r.headers):
        body = body[:end.start()] + b"\n" + end.group(1)
        if lengths == [b"%d" % len(r.body)]:
            return
    x.check(lengths == [b"%d" % len(body)], "%s: content-length %s, %d bytes sent" % (what, lengths, len(body)))


def check_206(x, r, n, what, runs=None):
    data = content(n)
    x.eq(r.status, 206, what)
    cr = r.all("content-range")
    check_length(x, r, what)
    single = re.fullmatch(rb"bytes (\d+)-(\d+)/(\d+)", cr[0]) if len(cr) == 1 else None
    if single and b"boundary=" not in b"".join(v for k, v in r.headers):
        a, b = int(single[1]), int(single[2]) + 1
        x.eq(int(single[3]), n, what)
        x.check(r.body == data[a:b] and a < b <= n, "%s: labelled %d-%d but sent %s" % (what, a, b - 1, short(r.body)))
        got = [(a, b)]
    else:
        parts = parse_multipart(x, r, n, what)
        for a, b, d in parts:
            x.check(d == data[a:b] and a < b <= n, "%s: part labelled %d-%d but sent %s" % (what, a, b - 1, short(d)))
        got = [(a, b) for a, b, d in parts]
        x.check(all(p[1] < q[0] for p, q in zip(got, got[1:])), "%s: parts %s overlap, touch or descend" % (what, got))
        x.check(len(got) > 0, "%s: no parts" % what)
    if runs is not None:
        x.check(got == runs, "%s: sent %s, requested %s" % (what, short(got), short(runs)))
    return got


def check(x, r, head, n, specs, what):
    w = want(n, specs)
    x.outcome((w[0], len(w[1]) if len(w) > 1 else 0, len(specs)))
    if w[0] == "206":
        check_206(x, r, n, what, w[1])
    elif w[0] == "unspecified":
        x.check(r.status in (400, 416, 206, 200), "%s got %r" % (what, r))
        if r.status == 206:
            check_206(x, r, n, what)
    else:
        x.check(r.status in ((416,) if w[0] == "416" else (400, 416)), "%s got %r" % (what, r))
        x.check(len(r.body) == int(r.get("content-length")), "%s: length" % what)
    if head is not None:
        x.check(head.status == r.status, "HEAD %s: status %s, GET %s" % (what, head.status, r.status))
        if r.status == 206:
            x.check(head.body == b"", "HEAD %s has a body" % what)
            scrub = [re.sub(rb"boundary=\S+", b"boundary=", v) for k, v in sorted(head.headers)]
            x.eq(scrub, [re.sub(rb"boundary=\S+", b"boundary=", v) for k, v in sorted(r.headers)], "headers of HEAD %s" % what)


async def one(app, headers, method="GET", fail_at=None):
    srv = asgi.Server(fail_at=fail_at) if fail_at is not None else asgi.Server()
    hs = [(k.encode(), v.encode("latin-1")) for k, v in headers]
    await app(asgi.scope("/", method, headers=hs, host=b"h"), srv.receive, srv.send)
    r = asgi.judge(srv.sent, framing=False)
    if method != "HEAD" or r.body:
        check_length(X, r, "%s %s" % (method, short(headers)))
    return r


X = None


def play(x, reqs):
    global X
    X = x
    out = []
    for i in range(0, len(reqs), 120):
        async def main():
            return [await one(*r) for r in reqs[i:i + 120]]

        with rt.vthreads("inline"):
            out += asgi.result(rt.run(main))
    x.step(len(reqs))
    return out


# ---------------------------------------------------------------- all small ranges

def specs_of(n, over=2):
    top = n + over
    out = [(a, b) for a in range(top) for b in range(top)]
    out += [(a, None) for a in range(top)] + [(None, k) for k in range(top)]
    return out


def small_cases(tier):
    for n in range(0, 9 if tier == "quick" else 12):
        for chunk in (None, 1, 2, 3):
            yield ("one", n, chunk, None)
    for n in range(0, 5 if tier == "quick" else 7):
        for chunk in (None, 1) if tier == "quick" else (None, 1, 2, 3):
            for i in range(len(specs_of(n))):
                yield ("two", n, chunk, i)
    for n in (1, 3) if tier == "quick" else (1, 2, 3, 4):
        for i in range(len(specs_of(n, 1))):
            yield ("three", n, None, i)
    for i in range(len(valid(6))):
        yield ("valid3", 6, None, i)
    if tier != "quick":
        for i in range(len(valid(8))):
            yield ("valid3", 8, 2, i)
        for i in range(len(valid(4))):
            yield ("valid4", 4, None, i)
    for i in range(len(valid(5))):
        yield ("runs4", 9, None, i)


def valid(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


@C.family("small", small_cases, "all lists of one, two and three range specs (and of valid ones up to 4) for all small files x read chunk sizes x method")
def small_ranges(case, x):
    kind, n, chunk, i = case
    if kind == "one":
        lists = [(s,) for s in specs_of(n)]
    elif kind == "two":
        ss = specs_of(n)
        lists = [(ss[i], s) for s in ss]
    elif kind == "three":
        ss = specs_of(n, 1)
        lists = [(ss[i],) + t for t in itertools.product(ss, repeat=2)]
    elif kind == "valid3":
        ss = valid(n)
        lists = [(ss[i],) + t for t in itertools.product(ss, repeat=2)]
    elif kind == "valid4":
        ss = valid(n)
        lists = [(ss[i],) + t for t in itertools.product(ss, repeat=3)]
    else:  # every order of up to five short runs over a file of 9
        ss = [(2 * a, 2 * b) for a, b in valid(5)]
        lists = [(ss[i],) + t for k in (3,) for t in itertools.permutations(ss, k)]
    for j in range(0, len(lists), 400):
        part = lists[j:j + 400]
        texts = ["bytes=" + ",".join(map(spec_text, l)) for l in part]
        gets = play(x, [(respond(n, chunk), [("range", t)]) for t in texts])
        heads = play(x, [(respond(n, chunk), [("range", t)], "HEAD") for t in texts]) if len(lists) < 2000 else [None] * len(part)
        for l, t, r, h in zip(part, texts, gets, heads):
            check(x, r, h, n, l, "%s of %d bytes (chunks of %s)" % (t, n, chunk))


# ---------------------------------------------------------------- around the real chunk size

def digit_cases(tier):
    for n in DIGITS:
        yield (n,)


@C.family("digits", digit_cases, "pairs of ranges with ends around powers of ten (the labels change length there) x media types")
def digits(case, x):
    n, = case
    es = [e for e in sorted({0, 1, 8, 9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 1001, 9999, 10000}) if e < n]
    lists = [((a, b), (c, d)) for a in es for b in es for c in es for d in es + [None] if a <= b < c and (d is None or c <= d)]
    for mt in (None, "x/y"):
        for j in range(0, len(lists), 400):
            part = lists[j:j + 400]
            texts = ["bytes=" + ",".join(map(spec_text, l)) for l in part]
            for l, t, r, h in zip(part, texts, play(x, [(respond(n, media_type=mt), [("range", t)]) for t in texts]), play(x, [(respond(n, media_type=mt), [("range", t)], "HEAD") for t in texts])):
                check(x, r, h, n, l, "%s of %d bytes" % (t, n))


def big_cases(tier):
    for n in SIZES[6:]:
        for i in range(len(edges(n))):
            if tier != "quick" or n in (65536, 65537, 131073) or i % 3 == 0:
                yield (n, i, tier)


def edges(n):
    return [p for p in sorted({0, 1, 65535, 65536, 65537, 131071, 131072, n - 2, n - 1, n, n + 1, 10 ** 12}) if p >= 0]


@C.family("chunks", big_cases, "ranges with all ends around the 64 KiB read size, alone and in pairs")
def chunks(case, x):
    n, i, tier = case
    es = edges(n)
    a = es[i]
    lists = [((a, b),) for b in es] + [((a, None),), ((None, a),)]
    lists += [((a, b), (c, d)) for b in es for c in es for d in es if a <= b and c <= d and a < n and c < n] if tier != "quick" else [((a, b), (c, n)) for b in es for c in es if a <= b and a < n and c < n]
    for j in range(0, len(lists), 20):
        part = lists[j:j + 20]
        texts = ["bytes=" + ",".join(map(spec_text, l)) for l in part]
        rs = play(x, [(respond(n), [("range", t)]) for t in texts])
        hs = play(x, [(respond(n), [("range", t)], "HEAD") for t in texts])
        for l, t, r, h in zip(part, texts, rs, hs):
            check(x, r, h, n, l, "%s of %d bytes" % (t, n))
    full = play(x, [(respond(n), []), (respond(n, 1 << 15), []), (respond(n, 10 ** 6), []), (respond(n), [], "HEAD")])
    for r in full[:3]:
        x.check(r.status == 200 and r.body == content(n) and r.get("content-length") == b"%d" % n, "whole file of %d bytes: %r" % (n, r))
    x.check(full[3].status == 200 and full[3].body == b"" and full[3].get("content-length") == b"%d" % n, "HEAD of %d bytes: %r" % (n, full[3]))


# ---------------------------------------------------------------- spellings

ATOMS = ["bytes", "Bytes", "items", "", "=", "-", "0", "3", "7", "12", ",", " ", "0-1", "2-3", "-2", "5-", "x", "1.5", "+1", "\xb2", ";", "\t", "0x1", "9" * 30, "9" * 5000, "--", "/"]


def text_cases(tier):
    for i in range(len(ATOMS)):
        yield (i, 2 if tier == "quick" else 3)


WELL = re.compile(r"[ \t]*bytes[ \t]*=(?P<l>[ \t,]*(?:\d+-\d*|-\d+)(?:[ \t]*,[ \t,]*(?:\d+-\d*|-\d+))*[ \t,]*)", re.I)


@C.family("text", text_cases, "header texts: all short concatenations of tokens (units, blanks, digits, separators, junk, huge numbers), after 'bytes=' and bare, with well-formed ones read exactly")
def text(case, x):
    i, depth = case
    n = 8
    texts = []
    for k in range(0, depth + 1):
        for t in itertools.product(ATOMS, repeat=k):
            s = ATOMS[i] + "".join(t)
            texts.append("bytes=" + s)
            if k < depth or depth == 2:
                texts.append(s)
                texts.append(s + "=0-1")
                texts.append("bytes" + s + "=1-2,4-5")
    seen = set()
    texts = [t for t in texts if not (t in seen or seen.add(t))]
    for j in range(0, len(texts), 1000):
        part = texts[j:j + 1000]
        for t, r in zip(part, play(x, [(respond(n), [("range", t)]) for t in part])):
            what = "Range: %s" % short(t)
            m = WELL.fullmatch(t)
            if m and all(len(d) < 4000 for d in re.findall(r"\d+", t)):
                specs = [(int(a) if a else None, int(b) if b else None) for a, b in re.findall(r"(\d*)-(\d*)", m["l"])]
                check(x, r, None, n, specs, what)
            elif r.status == 206:
                check_206(x, r, n, what)
            elif r.status == 200:
                x.check(r.body == content(n) and not re.match(r"\s*bytes\s*=", t, re.I), "%s got %r" % (what, r))
            else:
                x.check(r.status in (400, 416), "%s got %r" % (what, r))
            x.outcome((bool(m), r.status))


# ---------------------------------------------------------------- If-Range, statuses, static files

def if_cases(tier):
    for kind in ("file", "stat", "static", "filename"):
        for n in (0, 1, 8):
            yield (kind, n)


@C.family("ifrange", if_cases, "If-Range x range x method x status x way of making the response")
def ifrange(case, x):
    kind, n = case
    path = os.path.join(TOP, "f%d.txt" % n)
    probe = play(x, [(FileResponse(path), [])])[0]
    etag, lm = probe.get("etag").decode(), probe.get("last-modified").decode()
    values = [(None, True), (etag, True), (lm, True), ('"other"', False), (etag.strip('"'), False), ("W/" + etag, False), (etag[:-2] + '"', False), (etag + ", " + etag, False), ("*", False), ("", False), ("Sun, 09 Sep 2001 01:46:39 GMT", False), ("Sun, 09 Sep 2001 01:46:41 GMT", False), ("Thu, 01 Jan 2099 00:00:00 GMT", False), ("garbage", False), ('"%s"' % lm, False)]
    specs = [None, [(0, 0)], [(1, 3)], [(None, 1)], [(0, 0), (2, 2)], [(0, 9), (4, None)], [(9, 9)], [(2, 1)], [(0, None)]]
    static = ExceptionMiddleware(StaticFiles(directory=TOP)) if kind == "static" else None

    async def static_app(scope, receive, send):
        scope["path"] = "/f%d.txt" % n
        await static(scope, receive, send)

    def make(status):
        if kind == "file":
            return FileResponse(path, status_code=status)
        if kind == "stat":
            return FileResponse(path, status_code=status, stat_result=os.stat(path))
        if kind == "filename":
            return FileResponse(path, status_code=status, filename="caf\u00e9.bin", media_type="x/y", headers={"x-a": "b"})
        return static_app

    reqs, info = [], []
    for v, match in values:
        for sp in specs:
            for status in (200, 404, 203) if kind != "static" else (200,):
                for m in ("GET", "HEAD"):
                    hs = []
                    if v is not None:
                        hs.append(("if-range", v))
                    if sp is not None:
                        hs.append(("range", "bytes=" + ",".join(map(spec_text, sp))))
                    reqs.append((make(status), hs, m))
                    info.append((sp if match and status == 200 else None, status, m, hs))
    rs = play(x, reqs)
    for i in range(0, len(rs), 2):
        sp, status, m, hs = info[i]
        what = "%s of %d bytes with status %d, %s" % (hs, n, status, kind)
        if sp is not None:
            check(x, rs[i], rs[i + 1], n, sp, what)
        else:
            x.check(rs[i].status == status and rs[i].body == content(n) and rs[i].all("content-length") == [b"%d" % n], "%s got %r" % (what, rs[i]))
            x.check(rs[i + 1].status == status and rs[i + 1].body == b"" and sorted(rs[i + 1].headers) == sorted(rs[i].headers), "HEAD %s got %r" % (what, rs[i + 1]))
            x.check(not rs[i].all("content-range"), "%s: content-range of a whole file" % what)


# ---------------------------------------------------------------- one response object, many requests

REQS = [(), (("range", "bytes=1-2"),), (("range", "bytes=0-0,4-5"),), (("range", "bytes=0-1,2-7"),), (("range", "bytes=99-"),), (("range", "bytes=x"),), (("range", "bytes=0-0"), ("if-range", '"no"'))]


def reuse_cases(tier):
    reqs = [(r, m) for r in REQS for m in ("GET", "HEAD")]
    for first in reqs:
        for stat in (False, True):
            yield (first, stat, 3 if tier == "quick" else 4)


def one_of(n, r, h, m, x, what):
    d = dict(h)
    if "range" in d and "if-range" not in d:
        if d["range"] in ("bytes=99-", "bytes=x"):
            x.check(r.status == {"bytes=99-": 416, "bytes=x": 400}[d["range"]], "%s got %r" % (what, r))
            return
        specs = [tuple(int(v) for v in s.split("-")) for s in d["range"][6:].split(",")]
        if m == "GET":
            check_206(x, r, n, what, want(n, specs)[1])
        else:
            x.check(r.status == 206 and r.body == b"", "%s got %r" % (what, r))
    else:
        x.check(r.status == 200 and r.body == (content(n) if m == "GET" else b"") and r.all("content-length") == [b"%d" % n] and not r.all("content-range"), "%s got %r" % (what, r))
    x.eq(len(r.all("content-length")), 1, what)
    x.eq(len(r.all("etag")), 1, what)


@C.family("reuse", reuse_cases, "one response object answering every sequence of requests")
def reuse(case, x):
    first, stat, depth = case
    n = 8
    path = os.path.join(TOP, "f8.txt")
    reqs = [(r, m) for r in REQS for m in ("GET", "HEAD")]
    for rest in itertools.product(reqs, repeat=depth - 1):
        seq = (first,) + rest
        resp = FileResponse(path, stat_result=os.stat(path) if stat else None)
        for (h, m), r in zip(seq, play(x, [(resp, h, m) for h, m in seq])):
            one_of(n, r, h, m, x, "%s %s in %s" % (m, h, seq))


def both_cases(tier):
    pool = [(r, m) for r in (REQS[:4] + REQS[6:] if tier != "quick" else REQS[:4]) for m in ("GET",)] + [((("range", "bytes=1-2"),), "HEAD")]
    for a, b in itertools.combinations_with_replacement(pool, 2):
        yield (a, b, "asyncio")
        if tier != "quick":
            yield (a, b, "trio")


@C.family("together", both_cases, "one response object answering two requests at once, file operations and sends finishing in any order")
def together(case, x):
    a, b, backend = case
    path = os.path.join(TOP, "f8.txt")

    global X
    X = x

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)
        resp = FileResponse(path)
        resp.chunk_size = 4 if x.tier != "quick" else 8
        got = [None, None]

        async def main():
            async def req(i, h, m):
                got[i] = await one(resp, h, m)

            async with anyio.create_task_group() as tg:
                tg.start_soon(req, 0, *a)
                tg.start_soon(req, 1, *b)

        with rt.vthreads("env"):
            asgi.result(rt.run(main, env=env, backend=backend))
        for i, (h, m) in enumerate((a, b)):
            one_of(8, got[i], h, m, x, "%s %s beside %s" % (m, h, (a, b)[1 - i]))

    x.explore(go, 1)


# ---------------------------------------------------------------- the file changes, the client leaves

def cut_cases(tier):
    for h in REQS[:4] + [(("range", "bytes=0-7"),), (("range", "bytes=0-2,4-5,7-"),)]:
        for chunk in (1, 2, 3, 8, None):
            for change in range(0, 12):
                for at in range(0, 14 if tier == "quick" else 20):
                    yield (h, chunk, change, at)


def open_files():
    return sorted(os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + f))


@C.family("changing", cut_cases, "the file is cut to (or grows to) every size before every message of every kind of response: it terminates, sends no wrong byte and no more than announced, and closes the file")
def changing(case, x):
    h, chunk, change, at = case
    name = "v%d.txt" % os.getpid()
    path = os.path.join(TOP, name)
    write(name, small(8))
    full = small(12)
    before = open_files()
    resp = FileResponse(path)
    if chunk:
        resp.chunk_size = chunk
    sent = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    def alter():
        with open(path, "r+b") as f:
            f.truncate(change) if change <= 8 else (f.seek(8), f.write(full[8:change]))

    async def send(m):
        if len(sent) == at:
            alter()
        sent.append(m)

    async def main():
        try:
            await resp(asgi.scope("/", headers=[(k.encode(), v.encode()) for k, v in h]), receive, send)
        except Exception as e:
            return e

    with rt.vthreads("inline"):
        exc = asgi.result(rt.run(main))
    x.outcome((len(sent), type(exc).__name__))
    body = b"".join(m.get("body", b"") for m in sent[1:])
    length = int(dict(sent[0]["headers"])[b"content-length"])
    what = "%s (chunks of %s), cut to %d at message %d" % (h, chunk, change, at)
    x.check(len(body) <= length + (body.endswith(b"--\n") and b"\n\n--" in body), "%s: sent %d bytes of %d" % (what, len(body), length))
    x.check(exc is not None or not sent[-1].get("more_body"), "%s: never completed" % what)
    d = dict(h).get("range")
    if d is None:
        x.check(full.startswith(body), "%s: sent %r" % (what, body))
    elif "," not in d:
        a, b = map(int, d[6:].split("-"))
        x.check(full[a:b + 1].startswith(body), "%s: sent %r" % (what, body))
    elif len(body) >= length and exc is None:
        check_206(x, asgi.judge(sent, framing=False), 8, what)
    if change >= 8 or at >= len(sent):
        extra = 1 if d and "," in d and body.endswith(b"--\n") else 0  # the known finding
        x.check(exc is None and len(body) in (length, length + extra), "%s: ended with %r after %d of %d bytes" % (what, exc, len(body), length))
    x.eq(open_files(), before, "open files after " + what)


def leave_cases(tier):
    for h in REQS[:4]:
        for m in ("GET", "HEAD"):
            for chunk in (1, 3, None):
                for at in range(0, 16):
                    yield (h, m, chunk, at)


@C.family("leaving", leave_cases, "every send may fail: the error is raised, nothing more is sent, the file is closed")
def leaving(case, x):
    h, m, chunk, at = case
    resp = respond(8, chunk)
    before = open_files()
    srv = asgi.Server(fail_at=at)

    async def main():
        try:
            await resp(asgi.scope("/", m, headers=[(k.encode(), v.encode()) for k, v in h]), srv.receive, srv.send)
        except OSError as e:
            return e

    with rt.vthreads("inline"):
        exc = asgi.result(rt.run(main))
    x.check(len(srv.sent) == at if exc else len(srv.sent) <= at, "%s failing at %d: %r after %s" % (h, at, exc, short(srv.sent)))
    x.eq(open_files(), before, "open files")
    x.outcome((len(srv.sent), exc is None))


@C.family("long", lambda tier: [(c, n) for c in ("9", "-", ",", "0-", "0-0,", " ", "1-0", "=", "0-1,3-4,", "5,") for n in (10 ** 4, 10 ** 5, 4 * 10 ** 5)], "very long headers are answered all the same, in time about linear in their length (a quadratic reading would outlast the watchdog)")
def long(case, x):
    unit, n = case
    for pre, post in (("bytes=", ""), ("bytes=0-1,", ""), ("bytes=", "-"), ("bytes=-", ""), ("", "=0-1"), ("bytes=0-", "")):
        t = pre + unit * (n // len(unit)) + post
        what = "Range: %s..." % short(t[:40])
        r, = play(x, [(respond(8), [("range", t)])])
        x.outcome((unit, r.status))
        if r.status == 206:
            check_206(x, r, 8, what)
        else:
            x.check(r.status in (200, 400, 416), "%s got %r" % (what, r))


@C.family("multilength", lambda tier: [(8,)], "the length of multipart responses, to the byte")
def multilength(case, x):
    n, = case
    for specs in ([(0, 0), (2, 2)], [(0, 1), (3, None)], [(0, 0), (2, 2), (4, 4)]):
        r, = play(x, [(respond(n), [("range", "bytes=" + ",".join(map(spec_text, specs)))])])
        over = len(r.body) - int(r.get("content-length"))
        if over == 1 and re.search(rb"\n\n--[^\n]*--\n\Z", r.body):
            x.fail("[finding:multirange-length] %s of %d bytes: content-length %s, %d bytes sent" % (specs, n, r.get("content-length"), len(r.body)))
        x.eq(over, 0, "bytes sent over content-length")
