"""C17 Static files never escape their directory."""
from __future__ import annotations

import itertools
import os
import pathlib
import shutil
import sys
import tempfile

from mc import asgi, rt
from mc.core import Check, short

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

C = Check("C17", [
    "the directory tree does not change during a request, and its regular files can be read",
    "a path that names '..' after a symlink may be read lexically or as the file system would",
    "no outside symlink leads back into the directory",
])

F, D, L, P = "file", "dir", "link", "fifo"
LONG = "n" * 300


def static_tree(outside):
    """`@` in a link target stands for the scratch directory."""
    return (D, {
        "a.txt": (F, b"inside a"),
        "sub": (D, {
            "b.txt": (F, b"inside sub/b"),
            "index.html": (F, b"<sub index>"),
            "up": (L, ".."),
            "in.txt": (L, "../a.txt"),
            "out.txt": (L, "../../secret.txt"),
            "deep": (D, {"c.txt": (F, b"inside deep c"), "index.html": (L, "../../../secret.txt")}),
        }),
        "in.txt": (L, "a.txt"),
        "in2": (L, "sub"),
        "insub": (L, "./sub/deep/../b.txt"),
        "abs_in": (L, "@/static/a.txt"),
        "self": (L, "../static"),
        "here": (L, "."),
        "out.txt": (L, "../secret.txt"),
        "outdir": (L, "../outside"),
        "abs_out": (L, "@/outside/o.txt"),
        "abs_outdir": (L, "@/outside"),
        "parent": (L, ".."),
        "rootlink": (L, "/"),
        "chain": (L, "outdir/o.txt"),
        "chain2": (L, "sub/up/../secret.txt"),
        "sibling": (L, "../static-private"),
        "dang_in": (L, "nowhere"),
        "dang_out": (L, "../nowhere"),
        "loop": (L, "loop"),
        "loop1": (L, "loop2"),
        "loop2": (L, "sub/up/loop1"),
        "loopdir": (D, {"index.html": (L, "index.html")}),
        "idxdir": (D, {"index.html": (D, {})}),
        "outidx": (D, {"index.html": (L, "../../outside/index.html")}),
        "empty": (D, {}),
        "...": (F, b"three dots"),
        "..a": (F, b"two dots a"),
        ".hid": (F, b"hidden"),
        "..\\secret.txt": (F, b"backslash name"),
        "%2e%2e": (F, b"percent name"),
        "pipe": (P,),
        "caf\u00e9": (F, b"unicode name"),
        " ": (F, b"space name"),
    })


def tree(outside):
    top = {
        "static": static_tree(outside),
        "linkdir": (L, "pkg17/../static"),
        "pkg17": (D, {
            "__init__.py": (F, b""),
            "statics": (D, {"a.txt": (F, b"second a"), "only2.txt": (F, b"only in second"), "sub2": (D, {"index.html": (F, b"<sub2>")}), "out2.txt": (L, "../../secret.txt"), "out.txt": (F, b"second out"), "outdir": (D, {"o.txt": (F, b"second o"), "index.html": (F, b"<second outdir>")}), "loop1": (F, b"second loop1"), "dang_out": (F, b"second dang"), "404.html": (F, b"<404 of second>")}),
        }),
    }
    if outside:
        top.update({
            "secret.txt": (F, b"SECRET"),
            "a.txt": (F, b"SECRET a"),
            "b.txt": (F, b"SECRET b"),
            "index.html": (F, b"SECRET index"),
            "404.html": (F, b"SECRET 404"),
            "outside": (D, {"o.txt": (F, b"SECRET o"), "index.html": (F, b"SECRET outside index"), "a.txt": (F, b"SECRET outside a")}),
            "static-private": (D, {"p.txt": (F, b"SECRET private"), "a.txt": (F, b"SECRET private a"), "index.html": (F, b"SECRET private index")}),
            "static2": (D, {"a.txt": (F, b"SECRET static2 a")}),
            "stati": (D, {"a.txt": (F, b"SECRET stati a")}),
            "sub": (D, {"b.txt": (F, b"SECRET outer sub b")}),
        })
    return (D, top)


SEGS = ["a.txt", "sub", "b.txt", "..", ".", "", "in.txt", "in2", "self", "out.txt", "outdir", "abs_outdir", "o.txt", "parent", "static", "static-private", "secret.txt", "up", "deep", "loop"]
MORE = ["insub", "abs_in", "abs_out", "here", "rootlink", "chain", "chain2", "sibling", "p.txt", "dang_in", "dang_out", "loop1", "loop2", "loopdir", "idxdir", "outidx", "empty", "...", "..a", ".hid", "..\\secret.txt", "%2e%2e", "%2e%2e%2fsecret.txt", "..%2fsecret.txt", "pipe", "caf\u00e9", " ", "\0", "a.txt\0", "..\0", LONG, "index.html", "404.html", "only2.txt", "out2.txt", "static2", "stati", "outside", "~", "C:", "c:\\", "\\..\\secret.txt", "\\\\h\\s", "a.txt ", "a.txt.", "\n", "statics"]


def build(path, node):
    kind = node[0]
    if kind == F:
        with open(path, "wb") as f:
            f.write(node[1])
        os.utime(path, (1_000_000_000, 1_000_000_000))
    elif kind == D:
        os.mkdir(path)
        for name, child in node[1].items():
            build(os.path.join(path, name), child)
    elif kind == L:
        t = node[1]
        if t.startswith("@"):
            top = path
            while not os.path.basename(top).startswith("vtop"):
                top = os.path.dirname(top)
            t = top + t[1:]
        os.symlink(t, path)
    else:
        os.mkfifo(path)


BASE = None
TOPS = {}


def setup():
    global BASE
    BASE = os.path.realpath(tempfile.mkdtemp(prefix="c17-"))
    for out in (True, False):
        top = os.path.join(BASE, "vtop%d" % out)
        build(top, tree(out))
        TOPS[out] = top
    os.chmod(BASE, 0o755)
    sys.addaudithook(hook)


def teardown():
    os.chdir("/")
    shutil.rmtree(BASE)


OPENED = None


def hook(event, args):
    if OPENED is not None and event in ("open", "os.listdir", "os.scandir"):
        OPENED.append(args[0])


# ---------------------------------------------------------------- reference: path resolution in a model tree

NOWHERE, LOOPS = ("nowhere",), ("loops",)


def walk(treenode, names, base):
    """Resolve names (may hold '..' and links) from the directory `base` (a tuple below the scratch directory).

    Gives (canonical tuple, node) or (None, NOWHERE/LOOPS); above the scratch directory is NOWHERE as well.
    """
    todo = list(names)
    at = list(base)
    hops = 0
    while True:
        node = treenode
        for n in at:
            node = node[1][n]
        if not todo:
            return tuple(at), node
        if node[0] != D:
            return None, NOWHERE
        n = todo.pop(0)
        if n in ("", "."):
            continue
        if len(n.encode("utf-8", "surrogatepass")) > 255:
            return None, LOOPS
        if n == "..":
            if not at:
                return None, NOWHERE
            at.pop()
            continue
        child = node[1].get(n)
        if child is None:
            return None, NOWHERE
        if child[0] != L:
            at.append(n)
            continue
        hops += 1
        if hops > 500:
            return None, LOOPS
        t = child[1]
        if t.startswith("@/"):
            at, t = [], t[2:]
        elif t.startswith("/"):
            return None, NOWHERE
        todo = t.split("/") + todo


def lexical(names):
    out = []
    for n in names:
        if n in ("", "."):
            continue
        if n == ".." and out and out[-1] != "..":
            out.pop()
        else:
            out.append(n)
    return out


def look(treenode, dirs, names, follow):
    """The node a request path stands for, by the directories in turn; None when there is none to show."""
    for d in dirs:
        full = lexical(list(d) + list(names)) if follow else list(d) + list(names)
        if follow and tuple(full[:len(d)]) != d:
            continue
        if any("\0" in n or len(n.encode("utf-8", "surrogatepass")) > 255 for n in full) or sum(len(n) + 1 for n in names) > 3500:
            return LOOPS
        canon, node = walk(treenode, full, ())
        if node is LOOPS:
            return LOOPS
        if canon is None:
            continue
        if not follow and canon[:len(d)] != d:
            continue
        return node
    return None


def expect(treenode, dirs, names, slash, follow, html):
    node = look(treenode, dirs, names, follow)
    if node is LOOPS:  # such a path cannot name a file: any 404 page will do
        return ("404", None)
    if node is not None and node[0] == F:
        return ("200", node[1])
    if html:
        if node is not None and node[0] == D:
            idx = look(treenode, dirs, list(names) + ["index.html"], follow)
            if idx is LOOPS:
                return ("404", None)
            if idx is not None and idx[0] == F:
                return ("200", idx[1]) if slash else ("307",)
        nf = look(treenode, dirs, ["404.html"], follow)
        if nf is not None and nf[0] == F:
            return ("404", nf[1])
    return ("404", None)


# ---------------------------------------------------------------- driving

def apps(out, cfg):
    follow, html, mounted, two, reldir = cfg
    top = TOPS[out]
    kw = dict(follow_symlink=follow, html=html)
    d = os.path.join(top, "static")
    if reldir == 1:
        d = d + "/"
    elif reldir == 2:
        d = os.path.join(top, "static", "sub", "..", "..", "static")
    elif reldir == 3:
        d = os.path.join(top, "pkg17", "..", "static", ".")
    elif reldir == 4:
        d = os.path.join(top, "linkdir")
    elif reldir == 5:
        d = "static"
    elif reldir == 6:
        d = pathlib.Path("linkdir", "sub", "..")
    if reldir >= 5:
        os.chdir(top)
    if two:
        # find_spec() answers from sys.modules and its caches: give it this scratch directory only
        sys.path.insert(0, top)
        sys.path_importer_cache.clear()
        try:
            app = StaticFiles(directory=d, packages=["pkg17"] if two == 1 else [("pkg17", "statics")], **kw)
        finally:
            sys.path.remove(top)
    else:
        app = StaticFiles(directory=d, **kw)
    if mounted:
        return Starlette(routes=[Mount("/m", app=app)])
    return ExceptionMiddleware(app)


async def one(app, sc):
    srv = asgi.Server()
    await app(sc, srv.receive, srv.send)
    return asgi.judge(srv.sent)


def sweep(x, cfg, paths, x_twin=True):
    global OPENED
    follow, html, mounted, two, reldir = cfg
    treenode = tree(True)
    dirs = [("static",)] + ([("pkg17", "statics")] if two else [])
    prefix = "/m" if mounted else ""
    pair = [apps(True, cfg), apps(False, cfg)]
    res = []

    def play(app, chunk, top):
        if reldir >= 5:
            os.chdir(top)

        async def main():
            return [await one(app, asgi.scope(prefix + p, host=b"h")) for p in chunk]

        with rt.vthreads("inline"):
            return asgi.result(rt.run(main))

    OPENED = opened = []
    try:
        for i in range(0, len(paths), 200):
            chunk = paths[i:i + 200]
            del opened[:]
            a = play(pair[0], chunk, TOPS[True])
            for o in opened:
                o = os.path.abspath(os.fspath(o)) if not isinstance(o, int) else None
                if isinstance(o, bytes):
                    o = os.fsdecode(o)
                if o and o.startswith(BASE) and not follow:
                    real = os.path.relpath(os.path.realpath(o), TOPS[True])
                    x.check(real.split("/")[0] == "static" or real.startswith("pkg17/statics"), "opened %r" % real, cfg)
            b = play(pair[1], chunk, TOPS[False])
            res += list(zip(chunk, a, b))
    finally:
        OPENED = None
    for p, r, r2 in res:
        names = p.split("/")
        slash = p.endswith("/")
        want = [expect(treenode, dirs, names, slash, follow, html)]
        lex = lexical(names)
        if lex != names:
            want.append(expect(treenode, dirs, lex, slash, follow, html))
        if mounted and "\n" in p:  # not a path of the mount
            want.append(("404", None))
        got = ("307",) if r.status == 307 else (str(r.status), r.body)
        ok = any(w == got or (w == ("404", None) and r.status == 404 and b"SECRET" not in r.body) for w in want)
        x.check(ok, "%r answered %s" % (p, short(got)), "expected %s" % short(want), "config (follow, html, mounted, two, dir form) = %s" % (cfg,))
        if not follow:
            x.check((r.status, r.headers, r.body) == (r2.status, r2.headers, r2.body), "%r tells whether an outside file exists" % p, "with: %r, without: %r" % (r, r2), cfg)
        x.outcome((r.status, cfg[:2]))
        x.step()


def path_of(names):
    return "/" + "/".join(names)


CFGS = [(f, h, m, t, r) for f in (0, 1) for h in (0, 1) for m, t, r in ((0, 0, 0), (1, 1, 0))]
FORMS = [(f, h, 1, 2, r) for f in (0, 1) for h in (0, 1) for r in (1, 2, 3, 4, 5, 6) if not (f and r in (4, 6))]


def deep_cases(tier):
    for cfg in CFGS:
        for s in SEGS:
            yield (cfg, s, 3 if tier == "quick" else 4)


@C.family("paths", deep_cases, "all paths of up to 3 (4) segments over an alphabet of hostile segments x follow_symlink x html x mounted / several directories")
def paths(case, x):
    cfg, first, depth = case
    ps = []
    for n in range(0, depth):
        ps += [path_of((first,) + rest) for rest in itertools.product(SEGS, repeat=n)]
    for i in range(0, len(ps), 8000):
        sweep(x, cfg, ps[i:i + 8000])


def odd_cases(tier):
    for cfg in CFGS + FORMS:
        yield (cfg, tier)


@C.family("odd", odd_cases, "rare segments (null bytes, backslashes, percent escapes, overlong, special names, loops) alone and beside every other segment x spellings of the directory")
def odd(case, x):
    cfg, tier = case
    ps = []
    allsegs = SEGS + MORE
    for m in MORE:
        ps.append(path_of((m,)))
        ps.append(path_of((m, "")))
        for s in allsegs:
            ps.append(path_of((s, m)))
            if tier != "quick" or cfg[4] == 0:
                ps.append(path_of((m, s)))
                ps.append(path_of((s, m, "")))
        for s in ("..", "", "sub", "outdir", "self", "."):
            ps.append(path_of((s, "..", m)))
            ps.append(path_of((m, "..", s)))
            ps.append(path_of((m, "..", "..", s)))
            ps.append(path_of(("..", s, m)))
            if tier != "quick":
                for s2 in allsegs:
                    ps += [path_of((s, s2, m)), path_of((s, m, s2)), path_of((m, s, s2))]
    for top in TOPS[True].split("/"), TOPS[True].split("/")[1:]:
        for rest in (["secret.txt"], ["static", "a.txt"], ["outside", "o.txt"], ["static-private", "p.txt"]):
            ps.append(path_of(top + rest))
            for up in range(1, 9):
                if rest[0] != "static":
                    ps.append(path_of([".."] * up + list(top) + rest))
                ps.append(path_of([".."] * up + rest))
                ps.append(path_of(["sub"] + [".."] * up + rest))
    for n in (10, 39, 40, 41, 42, 60):
        ps.append(path_of(["self"] * n + ["a.txt"]))
        ps.append(path_of(["self"] * n + ["out.txt"]))
    ps += ["/\udcff", "/sub/\udcff"]
    ps.append("/" + "d/" * 3000)
    ps.append("/" + "sub/../" * 2000 + "a.txt")
    ps = [p for p in ps if not (cfg[0] and "self/self/self/self/self" in p)]
    sweep(x, cfg, ps)


def bare_cases(tier):
    for cfg in CFGS:
        yield cfg


@C.family("prefix", bare_cases, "paths and root paths of servers and mounts that overlap with the path")
def prefix(case, x):
    treenode = tree(True)
    follow, html, mounted, two, _ = case
    dirs = [("static",)] + ([("pkg17", "statics")] if two else [])
    app = apps(True, (follow, html, 0, two, 0))
    outer = Starlette(routes=[Mount("/{p}", app=apps(True, (follow, html, 0, two, 0)))])
    rests = ["", "/", "/a.txt", "a.txt", "/../secret.txt", "/..", "/sub", "/sub/", "-private/p.txt", "//a.txt", "/./a.txt", "/sub/../a.txt", "/sub/..", "/sub/../../secret.txt"]
    reqs = []
    for root in ("", "/r", "/static", "/sub", "/r/s", "/..", "/a.txt"):
        for rest in rests:
            reqs.append((app, root + rest, root, rest))
        if root.count("/") == 1 and root != "/..":
            for rest in rests:
                if rest.startswith("/"):
                    reqs.append((outer, root + rest, "", rest))

    async def main():
        return [await one(a, asgi.scope(p, root_path=root, host=b"h")) for a, p, root, rest in reqs]

    with rt.vthreads("inline"):
        got = asgi.result(rt.run(main))
    for (a, p, root, rest), r in zip(reqs, got):
        x.check(b"SECRET" not in r.body, "%r below %r showed an outside file" % (p, root))
        x.check(r.status in (200, 307, 404), "%r below %r got %r" % (p, root, r))
        if rest.startswith("/") or not rest:
            wants = [expect(treenode, dirs, nm, p.endswith("/"), follow, html) for nm in (rest.split("/"), lexical(rest.split("/")))]
            have = ("307",) if r.status == 307 else (str(r.status), r.body)
            x.check(any(w == have or (w == ("404", None) and r.status == 404) for w in wants), "%r below %r got %s" % (p, root, short(have)), "expected %s" % wants)
        x.outcome((r.status, root))
        x.step()


# ---------------------------------------------------------------- directories the server may not search

def locked_cases(tier):
    for follow in (0, 1):
        for html in (0, 1):
            for nf in ("none", "file", "loop", "locked"):
                yield (follow, html, nf)


@C.family("locked", locked_cases, "directories that may not be searched (as an unprivileged user), broken index and 404 pages")
def locked(case, x):
    follow, html, nf = case
    top = tempfile.mkdtemp(prefix="c17l-")
    os.chmod(top, 0o755)
    try:
        st = os.path.join(top, "static")
        build(st, (D, {
            "a.txt": (F, b"inside a"),
            "locked": (D, {"x.txt": (F, b"locked x"), "index.html": (F, b"locked index"), "d": (D, {})}),
            "into": (L, "locked/x.txt"),
            "idx": (D, {"index.html": (L, "../locked/index.html")}),
            "loopidx": (D, {"index.html": (L, "index.html")}),
            "longidx": (D, {"index.html": (L, LONG)}),
            "outlocked": (L, "../outer/x.txt"),
            "ok": (D, {"index.html": (F, b"<ok>")}),
        }))
        build(os.path.join(top, "outer"), (D, {"x.txt": (F, b"SECRET")}))
        if nf == "file":
            build(st + "/404.html", (F, b"<404>"))
        elif nf == "loop":
            build(st + "/404.html", (L, "404.html"))
        elif nf == "locked":
            build(st + "/404.html", (L, "locked/x.txt"))
        os.chmod(st + "/locked", 0)
        os.chmod(top + "/outer", 0)
        paths = ["/a.txt", "/locked", "/locked/", "/locked/x.txt", "/locked/nope", "/locked/d/", "/into", "/idx", "/idx/", "/loopidx", "/loopidx/", "/longidx/", "/outlocked", "/../outer/x.txt", "/ok", "/ok/", "/nope", "/", "", "/locked/../a.txt", "/" + LONG, "/\0"]
        app = ExceptionMiddleware(StaticFiles(directory=st, html=bool(html), follow_symlink=bool(follow)))

        async def main():
            out = []
            for p in paths:
                try:
                    out.append(await one(app, asgi.scope(p, host=b"h")))
                except BaseException as e:
                    out.append(e)
            return out

        os.seteuid(65534)
        try:
            with rt.vthreads("inline"):
                got = asgi.result(rt.run(main))
        finally:
            os.seteuid(0)
        for p, r in zip(paths, got):
            x.check(not isinstance(r, BaseException), "%r is a server error: %r" % (p, r), case)
            want = {"/a.txt": 200, "/locked/../a.txt": 200, "/ok": 307 if html else None, "/ok/": 200 if html else None}.get(p)
            if want:
                x.eq(r.status, want, "status of %r" % p)
            else:
                x.check(r.status in (401, 403, 404), "%r got %r" % (p, r), case)
                x.check(b"locked" not in r.body and b"SECRET" not in r.body, "%r got %r" % (p, r), case)
            x.outcome((p[:12], r.status))
            x.step()
    finally:
        os.chmod(st + "/locked", 0o755)
        os.chmod(top + "/outer", 0o755)
        shutil.rmtree(top)
