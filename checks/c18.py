"""C18 Static files answer with the current file and honest validators."""
from __future__ import annotations

import calendar
import itertools
import os
import shutil
import sys
import tempfile

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

C = Check("C18", [
    "a rewrite changes the size or the modification time of the file (what validators are made of); a date alone cannot tell two versions within one second apart",
    "'If-None-Match: *' and repeated validator headers are not specified",
    "files keep still during a single request",
])

T0 = 1_000_000_000  # Sun, 09 Sep 2001 01:46:40 GMT
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LONGDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def civil(t):
    days, sec = divmod(t, 86400)
    wd = (days + 3) % 7
    y = 1970
    while True:
        n = 366 if calendar.isleap(y) else 365
        if days < n:
            break
        days -= n
        y += 1
    for m in range(12):
        n = [31, 29 if calendar.isleap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
        if days < n:
            break
        days -= n
    return wd, y, m, days + 1, sec // 3600, sec // 60 % 60, sec % 60


def imf(t):
    wd, y, m, d, H, M, S = civil(t)
    return "%s, %02d %s %04d %02d:%02d:%02d GMT" % (DAYS[wd], d, MONTHS[m], y, H, M, S)


def rfc850(t):
    wd, y, m, d, H, M, S = civil(t)
    return "%s, %02d-%s-%02d %02d:%02d:%02d GMT" % (LONGDAYS[wd], d, MONTHS[m], y % 100, H, M, S)


def asctime(t):
    wd, y, m, d, H, M, S = civil(t)
    return "%s %s %2d %02d:%02d:%02d %04d" % (DAYS[wd], MONTHS[m], d, H, M, S, y)


def zoned(t, off):
    wd, y, m, d, H, M, S = civil(t + off * 60)
    return "%s, %02d %s %04d %02d:%02d:%02d %s%02d%02d" % (DAYS[wd], d, MONTHS[m], y, H, M, S, "-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)


TOP = None
TYPES = {"a.txt": "text/plain; charset=utf-8", "p.html": "text/html; charset=utf-8", "index.html": "text/html; charset=utf-8", "s.css": "text/css; charset=utf-8", "d.json": "application/json", "i.png": "image/png", "none": "text/plain; charset=utf-8", "e.txt": "text/plain; charset=utf-8", "404.html": "text/html; charset=utf-8", "big.bin": "application/octet-stream", "UP.TXT": "text/plain; charset=utf-8", "x y%.txt": "text/plain; charset=utf-8", "caf\u00e9.txt": "text/plain; charset=utf-8"}

TREE1 = {"a.txt": b"one", "p.html": b"<p>", "s.css": b"a{}", "d.json": b"{}", "i.png": bytes(range(256)), "none": b"plain", "e.txt": b"", "UP.TXT": b"UP", "big.bin": bytes(i * 7 % 251 for i in range(65536)), "sub/index.html": b"<sub>", "sub/a.txt": b"sub a", "sub/deep/none": b"deep", "x y%.txt": b"odd name", "caf\u00e9.txt": b"accent", "x y%/index.html": b"<odd>", "idxdir/index.html/a.txt": b"in a dir called index.html", "404.html": b"<not found>"}
TREE2 = {"a.txt": b"second one", "only2.txt": b"only in the second", "sub/only2.txt": b"second sub", "sub2/index.html": b"<sub2>", "404.html": b"<second not found>", "sub/deep/index.html": b"<deep of second>", "none/under.txt": b"below a file of the first", "sub/deep/none/index.html": b"<below a file of the first>", "idxdir": b"a directory of the first", "esc.txt": b"not the one outside", "escdir/a.txt": b"in a dir that escapes above", "escdir/index.html": b"<escdir>"}
LINKS = {"esc.txt": "../outside/esc.txt", "escdir": "../outside", "in.txt": "a.txt", "indir": "sub"}
TYPES.update(dict.fromkeys(("idxdir", "under.txt", "only2.txt", "esc.txt", "in.txt"), TYPES["a.txt"]))


def put(path, data, mtime):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".new"
    with open(tmp, "wb") as f:
        f.write(data)
    os.utime(tmp, ns=(int(mtime * 10), int(mtime * 10)))
    os.rename(tmp, path)


# put() counts time in units of 10 ns, to keep clear of float rounding
def sec(t):
    return t * 10 ** 8


def setup():
    global TOP
    TOP = os.path.realpath(tempfile.mkdtemp(prefix="c18-"))
    for i, (name, tree) in enumerate((("static", TREE1), ("pkg18/statics", TREE2), ("plain", {k: v for k, v in TREE1.items() if k != "404.html"}))):
        for j, (f, data) in enumerate(sorted(tree.items())):
            put(os.path.join(TOP, name, f), data, sec(T0 + 1000 * i + j))
    put(os.path.join(TOP, "pkg18/__init__.py"), b"", sec(T0))
    for f in ("esc.txt", "a.txt", "index.html"):
        put(os.path.join(TOP, "outside", f), b"outside", sec(T0))
    for d in ("static", "plain"):
        for name, to in LINKS.items():
            os.symlink(to, os.path.join(TOP, d, name))


def teardown():
    shutil.rmtree(TOP)


def make(html=False, two=0, mount="", directory="static", **kw):
    kw.update(html=html)
    if two:
        sys.path.insert(0, TOP)
        sys.path_importer_cache.clear()
        try:
            kw["packages"] = ["pkg18"] if two == 1 else [("pkg18", "statics")]
            app = StaticFiles(directory=os.path.join(TOP, directory) if directory else None, **kw)
        finally:
            sys.path.remove(TOP)
    else:
        app = StaticFiles(directory=os.path.join(TOP, directory), **kw)
    if mount:
        return Starlette(routes=[Mount(mount, app=app)])
    return ExceptionMiddleware(app)


async def one(app, path, method="GET", headers=(), query=b"", root=""):
    srv = asgi.Server()
    hs = [(k.encode(), v.encode("latin-1")) for k, v in headers]
    await app(asgi.scope(path, method, headers=hs, host=b"h", query=query, root_path=root), srv.receive, srv.send)
    return asgi.judge(srv.sent)


def play(app, reqs):
    """reqs: (path, method, headers, query); gives their responses."""
    out = []
    for i in range(0, len(reqs), 150):
        async def main():
            return [await one(app, *r) for r in reqs[i:i + 150]]

        with rt.vthreads("inline"):
            out += asgi.result(rt.run(main))
    return out


# ---------------------------------------------------------------- what is there

PATHS = ["a.txt", "p.html", "s.css", "d.json", "i.png", "none", "e.txt", "UP.TXT", "big.bin", "sub/a.txt", "sub/index.html", "sub/deep/none", "only2.txt", "sub/only2.txt", "x y%.txt", "caf\u00e9.txt", "404.html",
         "", "sub", "sub/", "sub/deep", "sub/deep/", "sub2", "sub2/", "idxdir", "idxdir/", "idxdir/index.html", "idxdir/index.html/", "idxdir/index.html/a.txt", "x y%", "x y%/",
         "nope", "nope/", "sub/nope", "a.txt/x", "up.txt", "A.TXT", "sub2/index.html", "sub2/nope", "none/under.txt", "none/nope", "sub/deep/none/index.html", "sub/deep/none/", "idxdir/a.txt", "none.html", "sub/deep/x/", "nope.html",
         "esc.txt", "escdir/a.txt", "escdir", "escdir/", "escdir/index.html", "escdir/nope", "in.txt", "indir/a.txt", "indir", "indir/"]


def tree_view(dirs):
    """Name -> (bytes, mtime seconds, full path) or "dir", as the directories together show it."""
    view = {}
    for d in reversed(dirs):
        tree = {"static": TREE1, "plain": {k: v for k, v in TREE1.items() if k != "404.html"}, "pkg18/statics": TREE2}[d]
        i = ["static", "pkg18/statics", "plain"].index(d)
        for j, (f, data) in enumerate(sorted(tree.items())):
            view[f] = (data, T0 + 1000 * i + j)
            parts = f.split("/")
            for n in range(1, len(parts)):
                view["/".join(parts[:n])] = "dir"
            view[""] = "dir"
        if tree is not TREE2:
            view["in.txt"] = view["a.txt"]
            view["indir"] = "dir"
            view.update({"indir" + f[3:]: v for f, v in view.items() if f.startswith("sub/")})
    return view


def check_file(x, r, name, data, mtime, method, status=200):
    x.eq(r.status, status, "status of %s" % name)
    x.eq(r.body, b"" if method == "HEAD" else data, "body of %s" % name)
    x.eq(r.all("content-length"), [str(len(data)).encode()], "length of %s" % name)
    x.eq(r.all("content-type"), [TYPES[name.split("/")[-1]].encode()], "type of %s" % name)
    x.eq(r.all("last-modified"), [imf(mtime).encode()], "date of %s" % name)
    x.check(len(r.all("etag")) == 1 and r.get("etag")[:1] == b'"' == r.get("etag")[-1:] and len(r.get("etag")) > 2 and b'"' not in r.get("etag")[1:-1], "etag of %s: %r" % (name, r.all("etag")))


CONFIGS = [(h, t, m, d) for h in (False, True) for t, d in ((0, "static"), (1, "static"), (2, "plain"), (0, "plain"), (1, None)) for m in ("", "/m", "/caf\u00e9 m")]


def served_cases(tier):
    yield from CONFIGS


@C.family("served", served_cases, "every kind of path x method x html mode x directories (with and without 404.html) x mount prefix")
def served(case, x):
    html, two, mount, directory = case
    dirs = ([directory] if directory else []) + (["pkg18/statics"] if two else [])
    view = tree_view(dirs)
    app = make(html, two, mount, directory)
    methods = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "HEADS"]
    reqs = [(mount + "/" + p, m, (), q) for p in PATHS for m in methods for q in (b"", b"v=1&u=%2F")]
    reqs += [(mount + "/" + p, m, hs, b"") for p in PATHS for m in ("GET", "HEAD") for hs in ([("range", "bytes=0-0")], [("if-none-match", '"x"')], [("if-modified-since", imf(T0 - 1))])]
    gets = {}
    for (p, m, hs, q), r in zip(reqs, play(app, reqs)):
        what = "%s %s %s" % (m, p, hs)
        rel = p[len(mount) + 1:]
        x.outcome((r.status, m, html))
        x.step()
        if m not in ("GET", "HEAD"):
            x.check(r.status == 405, "%s got %r" % (what, r), case)
            continue
        name = rel.rstrip("/")
        node = view.get(name)
        if node is not None and node != "dir":
            if rel.endswith("/"):
                continue
            if hs and hs[0][0] == "range":  # the subject of C19
                if node[0]:
                    x.check(r.status == 206 and r.get("content-length") == b"1", "%s got %r" % (what, r))
                continue
            check_file(x, r, name, node[0], node[1], m)
        else:
            idx = name + "/index.html" if name else "index.html"
            page = view.get(idx)
            if html and node == "dir" and page not in (None, "dir"):
                if not p.endswith("/"):
                    x.check(r.status == 307 and r.body == b"", "%s got %r" % (what, r))
                    want = "http://h" + quoted(p) + "/" + ("?" + q.decode() if q else "")
                    x.eq(r.all("location"), [want.encode()], "location of %s" % what)
                    continue
                if hs and hs[0][0] == "range":
                    continue
                check_file(x, r, idx, page[0], page[1], m)
            else:
                nf = view.get("404.html")
                if html and nf:
                    check_file(x, r, "404.html", nf[0], nf[1], m, 404)
                else:
                    x.check(r.status == 404, "%s got %r" % (what, r), case)
        if not hs and not q:
            if m == "GET":
                gets[rel] = r
            else:
                x.eq(sorted(r.headers), sorted(gets[rel].headers), "headers of HEAD %s" % p)


def quoted(p):
    return "".join(chr(b) if chr(b) in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-~" else "%%%02X" % b for b in p.encode())


# ---------------------------------------------------------------- conditional requests

NOTMOD = {b"cache-control", b"content-location", b"date", b"etag", b"expires", b"vary"}


def judge_304(x, r, etag, what):
    x.eq(r.body, b"", "body of the 304 to " + what)
    x.check(not {k for k, v in r.headers} - NOTMOD, "304 to %s with %s" % (what, r.headers))
    x.check(r.all("etag") == [etag], "304 to %s with etag %s" % (what, r.all("etag")))


def inm_values(etag):
    e = etag.decode()
    bare = e.strip('"')
    tags = [(None, None), (e, True), ("W/" + e, True), ('"other"', False), ('W/"other"', False), ("", False), (bare, None), ('"%s' % bare, None), ('"%s-x"' % bare, False), ('"%s"' % bare[:-1], False), ('"%s"' % bare.upper(), False if bare.upper() != bare else None), ('"w/%s"' % bare, False), ('""', False), (",", False)]
    one = [t for t in tags if t[0]]
    out = list(tags)
    for sep in (",", ", ", " , ", "\t,\t"):
        for (a, ma), (b, mb) in itertools.product(one[:6], repeat=2):
            out.append((a + sep + b, None if None in (ma, mb) or "\t" in sep else ma or mb))
    for (a, ma), (b, mb), (c, mc) in itertools.product(one[:4], repeat=3):
        out.append((", ".join((a, b, c)), ma or mb or mc))
    return out


def ims_values(mt):
    out = [(None, None)]
    for d in (-86400 * 366, -86400, -3600, -60, -1, 0, 1, 60, 3600, 86400, 86400 * 400):
        for f in (imf, rfc850, asctime):
            out.append((f(mt + d), d >= 0))
        for off in (-300, 60, 330, 0):
            out.append((zoned(mt + d, off), d >= 0))
    out += [("", False), ("garbage", False), ("0", False), ("Sun", False), ("99 99 9999", False), ("Sun, 09 Foo 2001 01:46:40 GMT", False), ("%d" % (mt + 10 ** 6), False), ("Sun, 09 Sep 2001", None), (imf(mt)[5:], None), (imf(mt)[:-4], None), ("Sun, 09 Sep 99999 01:46:40 GMT", None), ("Sun, 09 Sep 2001 xx:46:40 GMT", False), ("Sun, 09 Sep 2001 25:61:61 GMT", None), ("Sun, 40 Sep 2001 01:46:40 GMT", None)]
    return out


def cond_cases(tier):
    for target in ("a.txt", "e.txt", "sub/", "big.bin", "404.html", "caf\u00e9.txt"):
        for mtime in (sec(T0), sec(T0) + 10 ** 8 - 100, sec(T0) + 5 * 10 ** 7, sec(86400 * 59), sec(1_709_164_800)) if tier != "quick" or target == "a.txt" else (sec(T0) + 5 * 10 ** 7,):
            for mount in ("", "/m"):
                yield (target, mtime, mount)


@C.family("conditional", cond_cases, "If-None-Match lists x If-Modified-Since dates in every format x method x range, for files with whole and broken second mtimes")
def conditional(case, x):
    target, mtime, mount = case
    name = "cond%d" % os.getpid()
    rel = target + "index.html" if target.endswith("/") else target
    data = TREE1[rel]
    put(os.path.join(TOP, name, rel), data, mtime)
    app = make(True, 0, mount, name)
    path = mount + "/" + target
    first = play(app, [(path, "GET", (), b"")])[0]
    mt = mtime // 10 ** 8
    check_file(x, first, rel, data, mt, "GET")
    etag = first.get("etag")
    inms, imss = inm_values(etag), ims_values(mt)
    core = [v for v in inms[:14]]
    combos = [(a, b) for a in inms for b in (imss if a in core or a[0] is None else imss[:1])]
    reqs = []
    for (a, ma), (b, mb) in combos:
        hs = []
        if a is not None:
            hs.append(("if-none-match", a))
        if b is not None:
            hs.append(("if-modified-since", b))
        for m in ("GET", "HEAD"):
            reqs.append((path, m, hs, b""))
        if x.tier != "quick" or a is None or b is None:
            reqs.append((path, "GET", [("range", "bytes=0-1")] + hs, b""))
            reqs.append((path, "GET", hs[::-1] + [("if-range", etag.decode())], b""))
            reqs.append((mount + "/missing", "GET", hs, b""))
    known = dict(combos_key(combos))
    for (p, m, hs, q), r in zip(reqs, play(app, reqs)):
        d = dict(hs)
        want = known[d.get("if-none-match"), d.get("if-modified-since")]
        what = "%s %s %s" % (m, p, hs)
        x.outcome((r.status, want))
        x.step()
        if p.endswith("/missing"):
            x.check(r.status == 404, "%s got %r" % (what, r))
            continue
        if r.status == 304:
            x.check(want is not False, "%s got 304" % what, "etag %r, modified %s" % (etag, imf(mt)))
            judge_304(x, r, etag, what)
        else:
            x.check(want is not True, "%s got %r rather than 304" % (what, r), "etag %r, modified %s" % (etag, imf(mt)))
            if "range" in d:
                x.check(r.status in ((206,) if data else (416,)), "%s got %r" % (what, r))
            else:
                check_file(x, r, rel, data, mt, m)
    shutil.rmtree(os.path.join(TOP, name))


def combos_key(combos):
    for (a, ma), (b, mb) in combos:
        yield (a, b), (ma if a is not None else (mb if b is not None else False))


# ---------------------------------------------------------------- histories of rewrites

# (content, mtime in 10 ns): pairs differ in size, in second, within the second, or only in content (same validators: left out of sequences)
VERSIONS = [(b"aaa", sec(T0)), (b"bbbb", sec(T0)), (b"ccc", sec(T0 + 1)), (b"ddd", sec(T0) + 10 ** 7), (b"", sec(T0)), (b"eee", sec(T0 - 100)), (b"gone", None)]
CLIENT = ["get", "inm", "ims", "both", "head"]


def hist_cases(tier):
    n = len(VERSIONS)
    depth = 3 if tier == "quick" else 4
    for where in ("first", "second", "index", "custom404", "shadow"):
        for first in range(n):
            for second in range(n):
                yield (where, depth, (first, second))


@C.family("histories", hist_cases, "a caching client against one app: sequences of rewrites, deletions and re-creations x kinds of revalidation after each; also for the file in the second directory, index.html, 404.html, a file that comes to shadow another")
def histories(case, x):
    where, depth, start = case
    base = "hist%d" % os.getpid()
    for rest in itertools.product(range(len(VERSIONS)), repeat=depth - 2):
        seq = start + rest
        if any(a == b for a, b in zip(seq, seq[1:])):
            continue
        for kinds in itertools.product(CLIENT, repeat=2 if depth == 3 else 3):
            run_history(x, where, seq, ("get",) + kinds + ("get",), base)
            x.step()


def run_history(x, where, seq, kinds, base):
    d1, d2 = os.path.join(TOP, base), os.path.join(TOP, base + "b")
    for d in (d1, d2):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "s"))
    html = where in ("index", "custom404")
    app0 = StaticFiles(directory=d1, html=html)
    app0.all_directories.append(d2)
    app = ExceptionMiddleware(app0)
    target = os.path.join(d2 if where == "second" else d1, {"index": "s/index.html", "custom404": "404.html"}.get(where, "f.txt"))
    path = {"index": "/s/", "custom404": "/zzz"}.get(where, "/f.txt")
    below = None
    if where == "shadow":
        below = (b"below", sec(T0 + 50))
        put(os.path.join(d2, "f.txt"), *below)
    cached = None

    async def main():
        nonlocal cached
        for v, kind in zip(seq, kinds):
            data, mtime = VERSIONS[v]
            if mtime is None:
                if os.path.exists(target):
                    os.remove(target)
                current = below
            else:
                put(target, data, mtime)
                current = (data, mtime)
            hs = []
            if cached is not None:
                if kind in ("inm", "both"):
                    hs.append(("if-none-match", cached[1].decode()))
                if kind in ("ims", "both"):
                    hs.append(("if-modified-since", cached[2].decode()))
            method = "HEAD" if kind == "head" else "GET"
            r = await one(app, path, method, hs)
            what = "%s of version %s in %s (%s, %s)" % (kind, v, seq, where, kinds)
            if where == "custom404":
                x.check(r.status == 404, "%s got %r" % (what, r))
                if current is not None:
                    x.eq(r.body, b"" if method == "HEAD" else current[0], what)
                    x.eq(r.get("content-length"), b"%d" % len(current[0]), what)
                continue
            if current is None:
                x.check(r.status == 404, "%s got %r" % (what, r))
                continue
            if r.status == 304:
                x.check(cached is not None and hs, "%s got an unasked 304" % what)
                fresh = cached[0] == current[0]
                if not fresh and kind == "ims":
                    fresh = cached[3] // 10 ** 8 >= current[1] // 10 ** 8
                x.check(fresh, "%s got 304 for an outdated copy" % what)
                if cached[0] == current[0]:
                    x.check(r.get("etag") == cached[1] or cached[3] != current[1], what)
            else:
                x.eq(r.status, 200, what)
                x.eq(r.body, b"" if method == "HEAD" else current[0], what)
                x.eq(r.get("content-length"), b"%d" % len(current[0]), what)
                x.eq(r.get("last-modified"), imf(current[1] // 10 ** 8).encode(), what)
                if cached is not None and (len(cached[0]), cached[3]) != (len(current[0]), current[1]):
                    x.check(r.get("etag") != cached[1], "%s: the etag did not change" % what)
                if cached is not None and kind in ("inm", "both"):
                    x.check((cached[0], cached[3]) != current, "%s: no 304 for a current copy" % what)
                if method == "GET":
                    cached = (current[0], r.get("etag"), r.get("last-modified"), current[1])

    with rt.vthreads("inline"):
        asgi.result(rt.run(main))


# ---------------------------------------------------------------- a file that grows while it is sent

def grow_cases(tier):
    return [(n, chunk, m) for n in (0, 1, 5, 8) for chunk in (1, 3, 8, None) for m in ("GET", "HEAD")]


@C.family("growing", grow_cases, "the file gets longer before each message of the answer: the answer is the file as it was, complete, under its validators; the next one is the longer file under others")
def growing(case, x):
    from starlette.responses import FileResponse

    n, chunk, method = case
    top = tempfile.mkdtemp(prefix="c18-")
    path = os.path.join(top, "log.txt")
    full = bytes(range(48, 90))
    old = FileResponse.chunk_size
    try:
        if chunk:
            FileResponse.chunk_size = chunk
        app = StaticFiles(directory=top)
        for more in (1, 3, 30):
            for at in range(n + 3):
                put(path, full[:n], sec(T0))
                sent = []

                async def receive():
                    return {"type": "http.request", "body": b"", "more_body": False}

                async def send(m):
                    if len(sent) == at:
                        with open(path, "ab") as f:
                            f.write(full[n:n + more])
                        os.utime(path, ns=(sec(T0 + 5) * 10, sec(T0 + 5) * 10))
                    sent.append(m)

                async def main():
                    await app(asgi.scope("/log.txt", method), receive, send)
                    return await one(app, "/log.txt", method)

                with rt.vthreads("inline"):
                    nxt = asgi.result(rt.run(main))
                r = asgi.judge(sent)
                what = "%s of %d bytes (chunks of %s), %d more at message %d" % (method, n, chunk, more, at)
                x.check((r.status, r.body, r.get("content-length")) == (200, b"" if method == "HEAD" else full[:n], b"%d" % n), "%s: %r" % (what, r))
                grown = at < len(sent)
                x.check(nxt.body == (b"" if method == "HEAD" else full[:n + (more if grown else 0)]), "%s: next %r" % (what, nxt))
                x.check((nxt.get("etag") != r.get("etag")) is grown and (nxt.get("last-modified") != r.get("last-modified")) is grown, "%s: validators %r and %r" % (what, r.headers, nxt.headers))
                x.step(2)
    finally:
        FileResponse.chunk_size = old
        shutil.rmtree(top)
    x.outcome(case)


# ---------------------------------------------------------------- requests at once

def conc_cases(tier):
    pool = [("/a.txt", "GET"), ("/sub/", "GET"), ("/sub", "GET"), ("/nope", "GET"), ("/a.txt", "HEAD"), ("/only2.txt", "GET")]
    if tier == "quick":
        pool = pool[:4]
    for a, b in itertools.combinations_with_replacement(pool, 2):
        for backend in ("asyncio", "trio") if tier != "quick" else ("asyncio",):
            yield (a, b, backend)


@C.family("concurrent", conc_cases, "two first requests of one app at once, each file operation finishing when the scheduler likes")
def concurrent(case, x):
    import anyio

    a, b, backend = case
    alone = [play(make(True, 1), [(p, m, (), b"")])[0] for p, m in (a, b)]

    def go(ch):
        app = make(True, 1)
        env = rt.Env(ch, early=None if x.tier == "quick" else 1)
        got = [None, None]

        async def main():
            async def req(i, p, m):
                got[i] = await one(app, p, m)

            async with anyio.create_task_group() as tg:
                tg.start_soon(req, 0, *a)
                tg.start_soon(req, 1, *b)

        with rt.vthreads("env"):
            asgi.result(rt.run(main, env=env, backend=backend))
        for i in (0, 1):
            x.check((got[i].status, got[i].headers, got[i].body) == (alone[i].status, alone[i].headers, alone[i].body), "%s got %r" % (case[i], got[i]), "alone: %r" % (alone[i],))

    x.explore(go, 1)


# ---------------------------------------------------------------- a directory that is not there

def absent_cases(tier):
    for html in (False, True):
        for first in ("absent", "file", "dir"):
            yield (html, first)


@C.family("absent", absent_cases, "a directory that is missing or a file: refused at construction, or (checked late) at every request until it is there; all sequences of 3 (4) requests and changes, requests alone and in pairs")
def absent(case, x):
    import anyio

    html, first = case
    top = tempfile.mkdtemp(prefix="c18a-")
    d = os.path.join(top, "d")

    def become(kind):
        if os.path.isdir(d):
            shutil.rmtree(d)
        elif os.path.exists(d):
            os.unlink(d)
        if kind == "file":
            put(d, b"x", sec(T0))
        elif kind == "dir":
            put(d + "/a.txt", b"one", sec(T0))

    try:
        for hist in itertools.product(("get", "pair", "absent", "file", "dir"), repeat=3 if x.tier == "quick" else 4):
            if not {"get", "pair"} & set(hist):
                continue
            become(first)
            for early in (True, False):
                if early:
                    try:
                        StaticFiles(directory=d, html=html)
                        x.check(first == "dir", "a directory that is not there was accepted", case)
                    except RuntimeError:
                        x.check(first != "dir", "a directory was refused", case)
            app = ExceptionMiddleware(StaticFiles(directory=d, html=html, check_dir=False))
            now, seen = first, False
            for i, op in enumerate(hist):
                if op not in ("get", "pair"):
                    become(op)
                    now = op
                    continue
                got = []

                async def main():
                    async def req():
                        try:
                            got.append(await one(app, "/a.txt"))
                        except RuntimeError as exc:
                            got.append(exc)

                    async with anyio.create_task_group() as tg:
                        for _ in range(1 + (op == "pair")):
                            tg.start_soon(req)

                with rt.vthreads("inline"):
                    asgi.result(rt.run(main))
                seen = seen or now == "dir"
                for r in got:
                    if not seen:
                        x.check(isinstance(r, RuntimeError), "request %d of %r was answered %r without the directory" % (i, hist, r), case)
                    else:
                        x.check(not isinstance(r, RuntimeError) and r.status == (200 if now == "dir" else 404), "request %d of %r got %r" % (i, hist, r), case)
                x.step()
            x.state((case, hist))
    finally:
        shutil.rmtree(top)
