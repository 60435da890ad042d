"""C24 Headers are an ordered case-insensitive multimap."""
from __future__ import annotations

import copy
import itertools

from mc import asgi, rt
from mc.core import Check, short

from starlette.datastructures import Headers, MutableHeaders
from starlette.requests import HTTPConnection, Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse

C = Check("C24", [
    "names and values are latin-1, and the names of raw headers lower-case, as ASGI says",
    "a copy is mutablecopy(), a | b, a header object made from a mapping, or a deep copy; objects made from a raw list or a message are views of it (the newest one, when several are made from one message)",
])


class Model:
    def __init__(self, pairs=()):
        self.l = list(pairs)

    def get(self, k):
        return [v for a, v in self.l if a == k.lower()]

    def set(self, k, v):
        k = k.lower()
        at = [i for i, p in enumerate(self.l) if p[0] == k]
        if at:
            self.l[at[0]] = (k, v)
            for i in at[:0:-1]:
                del self.l[i]
        else:
            self.l.append((k, v))

    def apply(self, op):
        name, *a = op
        if name == "set":
            self.set(*a)
        elif name == "del":
            self.l = [p for p in self.l if p[0] != a[0].lower()]
        elif name == "setdefault":
            if not self.get(a[0]):
                self.l.append((a[0].lower(), a[1]))
            return self.get(a[0])[0]
        elif name == "append":
            self.l.append((a[0].lower(), a[1]))
        elif name in ("update", "ior"):
            for k, v in items_of(a[0]):
                self.set(k, v)
        elif name == "or":
            new = Model(self.l)
            new.apply(("update", a[0]))
            return new
        elif name == "vary":
            self.set("vary", ", ".join(self.get("vary") + [a[0]]))
        elif name == "self":
            for k, v in list(self.l):
                self.set(k, v)
        elif name != "copy":
            raise AssertionError(op)


def items_of(v):
    return list(v.items())


def apply(h, op):
    """-> (result, the object to go on with)"""
    name, *a = op
    if name == "set":
        h[a[0]] = a[1]
    elif name == "del":
        del h[a[0]]
    elif name == "setdefault":
        return h.setdefault(*a), h
    elif name == "append":
        return h.append(*a), h
    elif name == "update":
        return h.update(a[0]), h
    elif name == "ior":
        g = h
        g |= a[0]
        return (None if g is h else g), h
    elif name == "or":
        return h | a[0], h
    elif name == "vary":
        return h.add_vary_header(a[0]), h
    elif name == "self":
        return h.update(h), h
    elif name == "copy":
        g = h.mutablecopy()
        g["a"] = "changed"
        g.append("new", "1")
        del g["vary"]
    return None, h


PROBE = ["a", "A", "X-B", "x-b", "x-B", "vary", "Vary", "zz", "new", ""]


def agree(x, h, pairs, what, deep=True):
    """Every view shows exactly these (lower-case name, value) pairs."""
    if h.items() != pairs if isinstance(h.items(), list) else list(h.items()) != pairs:
        x.fail("entries after %s: %s, expected %s" % (what, short(h.items()), short(pairs)))
    for k in PROBE:
        want = [v for a, v in pairs if a == k.lower()]
        if h.getlist(k) != want or (k in h) != bool(want) or h.get(k) != (want[0] if want else None):
            x.fail("%r after %s: getlist %s, get %r, in %r; expected %s" % (k, what, short(h.getlist(k)), h.get(k), k in h, want))
        try:
            got = h[k]
        except KeyError:
            got = None
        if got != (want[0] if want else None):
            x.fail("%r after %s: %r" % (k, what, got))
    if not deep:
        return
    raw = [(k.encode("latin-1"), v.encode("latin-1")) for k, v in pairs]
    if not (list(h.keys()) == list(h) == [k for k, _ in pairs] and list(h.values()) == [v for _, v in pairs] and len(h) == len(pairs) and bool(h) == bool(pairs) and list(h.raw) == raw):
        x.fail("views after %s: %s %s %d %s" % (what, list(h.keys()), list(h.values()), len(h), short(h.raw)))


DUP = Headers(raw=[(b"a", b"5"), (b"x-b", b"6"), (b"a", b"7")])
OPS = [("set", "a", "1"), ("set", "A", "9"), ("set", "X-B", "2"), ("set", "zz", ""), ("set", "Vary", "q"), ("del", "a"), ("del", "X-b"), ("del", "zz"), ("del", "vARY"), ("setdefault", "A", "3"), ("setdefault", "x-B", "4"), ("setdefault", "New", "5"), ("append", "A", "1"), ("append", "a", "6"), ("append", "X-B", "7"), ("append", "vary", "w"), ("update", {"A": "1", "Q": "2", "a": "3"}), ("update", {}), ("update", DUP), ("ior", {"x-b": "8"}), ("ior", DUP), ("or", {"A": "0", "new": "1"}), ("or", DUP), ("vary", "Origin"), ("vary", "Accept, Cookie"), ("self",), ("copy",)]
ENTRIES = [("a", "1"), ("a", "2"), ("x-b", "1"), ("vary", "v"), ("vary", "")]


def contents(n):
    for k in range(n + 1):
        yield from itertools.product(ENTRIES, repeat=k)


def raws(pairs):
    return [(k.encode("latin-1"), v.encode("latin-1")) for k, v in pairs]


def step(x, h, m, op, what):
    before = list(m.l)
    got, _ = apply(h, op)
    want = m.apply(op)
    if op[0] == "or":
        x.check(got is not h and isinstance(got, MutableHeaders), "%s gave %r" % (what, got))
        agree(x, got, want.l, "%s (the result)" % (what,))
        got["a"] = "changed"
        got.append("later", "1")
        if h.items() != before:
            x.fail("changing the result of %s changed the operand to %s" % (what, short(h.items())))
    elif got != want:
        x.fail("%s gave %r, expected %r" % (what, got, want))


def history_cases(tier):
    for i, pairs in enumerate(contents(3)):
        yield (pairs, 3 if len(pairs) < 3 or tier != "quick" else 2)


@C.family("histories", history_cases, "every sequence of up to 2-3 (3) of 27 operations in several spellings, from every list of up to 3 entries out of 5: every view shows the model's list after each; results and copies are independent")
def histories(case, x):
    pairs, depth = case
    raw = raws(pairs)
    for n in range(depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            h, m = MutableHeaders(raw=list(raw)), Model(pairs)
            for op in seq:
                step(x, h, m, op, seq)
            agree(x, h, m.l, seq)
        x.step(len(OPS) ** n)
    x.check(len(DUP) == 3, "the other operand was changed")
    x.outcome(pairs)


def reach_cases(tier):
    for op in range(len(OPS)):
        yield (op, 2 if tier == "quick" else 3)


@C.family("reachable", reach_cases, "explicit-state search on copies of the real object: every operation from every reachable list of up to 2 (3) entries")
def reachable(case, x):
    first, limit = case
    h, m = MutableHeaders(), Model()
    step(x, h, m, OPS[first], OPS[first])
    if len(m.l) > limit:
        return
    seen = {tuple(m.l)}
    todo = [(h, m)]
    while todo:
        h, m = todo.pop()
        for op in OPS:
            g, n = copy.deepcopy(h), Model(m.l)
            step(x, g, n, op, "%s on %s" % (op, m.l))
            agree(x, g, n.l, "%s on %s" % (op, m.l))
            x.step()
            if len(n.l) <= limit and tuple(n.l) not in seen and not any(len(v) > 12 for _, v in n.l):
                seen.add(tuple(n.l))
                todo.append((g, n))
        agree(x, h, m.l, "operations on copies of %s" % m.l)
    for s in seen:
        x.outcome(s)


# ---------------------------------------------------------------- construction

def made_cases(tier):
    for n in range(4 if tier == "quick" else 5):
        for cls in ("Headers", "MutableHeaders"):
            yield (n, cls)


@C.family("made", made_cases, "every list of up to 3 (4) entries x every way of making headers (raw list, scope of lists/tuples/iterators, mapping, other headers, copies, connection): the same views and equality; what is a copy is independent, what is a view shows edits on both sides")
def made(case, x):
    n, clsname = case
    cls = {"Headers": Headers, "MutableHeaders": MutableHeaders}[clsname]
    for pairs in itertools.product(ENTRIES + [("c", "\xe9\xff")], repeat=n):
        pairs = list(pairs)
        raw = raws(pairs)
        ref = cls(raw=list(raw))
        objs = [("raw", ref)]
        for kind in (list, tuple, iter):
            sc = {"headers": kind(raw), "x": 1}
            h = cls(scope=sc)
            agree(x, h, pairs, "scope of a %s" % kind.__name__)
            x.check(list(sc["headers"]) == raw, "the scope has %s left" % (sc["headers"],))
            h = cls(scope=sc)
            agree(x, h, pairs, "the same scope again")
            objs.append((kind.__name__, h))
            if cls is MutableHeaders:
                for op in OPS:
                    m = Model(h.items())
                    step(x, h, m, op, op)
                    x.check(list(sc["headers"]) == raws(m.l), "after %s the message has %s, expected %s" % (op, short(sc["headers"]), short(m.l)))
                objs.pop()
        objs.append(("headers", cls(ref)))if len(dict(pairs)) == len(pairs) else None
        if len(dict(pairs)) == len(pairs):
            for up in (str, str.upper, str.title):
                h = cls({up(k): v for k, v in pairs})
                agree(x, h, pairs, "mapping of %s names" % up.__name__)
                objs.append(("mapping", h))
                h = cls(headers={up(k): v for k, v in pairs})
                objs.append(("mapping", h))
        if not pairs:
            objs += [("nothing", cls()), ("none", cls(None)), ("none", cls(raw=[])), ("none", cls({}))]
        objs.append(("mutablecopy", ref.mutablecopy()))
        objs.append(("copy of a copy", ref.mutablecopy().mutablecopy()))
        objs.append(("deepcopy", copy.deepcopy(ref)))
        objs.append(("request", Request({"type": "http", "headers": tuple(raw)}).headers))
        objs.append(("connection", HTTPConnection({"type": "websocket", "headers": list(raw)}).headers))
        if cls is MutableHeaders:
            objs.append(("or", ref | {}))
        for how, h in objs:
            agree(x, h, pairs, how)
            x.check(h == ref and not h != ref, "made from %s it is unequal" % how)
            repr(h), str(h)
        # copies do not see changes
        for how, h in objs:
            if not isinstance(h, MutableHeaders):
                r = h.raw
                r.append((b"a", b"z"))
                r[:1] = []
                for l in (h.keys(), h.values(), h.items(), h.getlist("a")):
                    l.append(1)
                agree(x, h, pairs, "changing what it returned (%s)" % how)
                for bad in (lambda: h.__setitem__("a", "1"), lambda: h.__delitem__("a"), lambda: h.append("a", "1"), lambda: h.setdefault("n", "1")):
                    try:
                        bad()
                    except Exception:
                        pass
                agree(x, h, pairs, "failed changes (%s)" % how)
        for how, h in objs:
            if isinstance(h, MutableHeaders):
                for op in OPS:
                    apply(h, op)
                for how2, other in objs:
                    if isinstance(other, MutableHeaders) and other is not h and (how2, how) != ("raw", "raw"):
                        continue
                    if other is not h:
                        agree(x, other, pairs, "changing another copy (%s)" % how)
                break
        if cls is MutableHeaders:
            src = MutableHeaders(raw=list(raw))
            copies = [src.mutablecopy(), src | {}, copy.deepcopy(src)]
            for op in OPS:
                apply(src, op)
                for c in copies:
                    agree(x, c, pairs, "changing its source by %s" % (op,), deep=False)
            for j, c in enumerate(copies):
                src = MutableHeaders(raw=list(raw))
                c = [src.mutablecopy(), src | {}, copy.deepcopy(src)][j]
                for op in OPS:
                    apply(c, op)
                agree(x, src, pairs, "changing a copy")
        x.step()
    x.outcome(case)


def equal_cases(tier):
    yield ()


@C.family("equality", equal_cases, "all pairs of lists of up to 3 entries: equal means the same entries in any order; never equal to anything but headers")
def equality(case, x):
    all_ = list(contents(3))
    for a in (Headers, MutableHeaders):
        for b in (Headers, MutableHeaders):
            right = [(sorted(p), b(raw=raws(p))) for p in all_]
            for p in all_:
                u = a(raw=raws(p))
                s = sorted(p)
                for q, v in right:
                    if (u == v) is not (s == q) or (u != v) is (s == q):
                        x.fail("%r == %r is %r" % (u, v, u == v))
                for other in (dict(p), list(p), raws(p), None, 1, "x"):
                    if u == other or not u != other:
                        x.fail("%r == %r" % (u, other))
                x.step(len(right))


def latin_cases(tier):
    yield ()


@C.family("latin1", latin_cases, "every latin-1 character in names and values, through every way of setting: value unchanged, name lower-cased, raw bytes latin-1; text that is not latin-1 is refused without a trace")
def latin1(case, x):
    for i in range(256):
        c = chr(i)
        name, value = "n" + c, c + "v" + c
        hs = [Headers({name: value}), MutableHeaders({name: value}), MutableHeaders({name: "old"}), MutableHeaders(), MutableHeaders(), MutableHeaders(), MutableHeaders()]
        hs[2][name] = value
        hs[3].append(name, value)
        x.eq(hs[4].setdefault(name, value), value, "setdefault")
        hs[5].update({name: value})
        hs[6] |= {name: value}
        hs.append(MutableHeaders() | {name: value})
        hs.append(Headers(raw=[(name.lower().encode("latin-1"), value.encode("latin-1"))]))
        hs.append(Response(headers={name: value}).headers)
        del hs[-1]["content-length"]
        for h in hs:
            x.check(h[name] == value and h[name.upper() if name.upper().lower() == name.lower() else name] == value and h.items() == [(name.lower(), value)], "%r: %r gave %r" % (name, value, h.items()))
            x.check(list(h.raw) == [(name.lower().encode("latin-1"), value.encode("latin-1"))], "raw %r" % (h.raw,))
        x.step(len(hs))
    for name, value in (("n\u0100", "v"), ("n", "\u20ac"), ("\U0001f600", "\U0001f600")):
        for do in (lambda h: h.__setitem__(name, value), lambda h: h.append(name, value), lambda h: h.setdefault(name, value), lambda h: h.update({name: value})):
            h = MutableHeaders({"a": "1", "b": "2"})
            try:
                do(h)
                x.fail("%r: %r was accepted" % (name, value))
            except UnicodeEncodeError:
                pass
            agree(x, h, [("a", "1"), ("b", "2")], "refused text")


# ---------------------------------------------------------------- what is sent

def make_response(kind):
    if kind == "plain":
        return PlainTextResponse("hello", headers={"A": "1", "Vary": "x"})
    if kind == "empty":
        return Response(status_code=204)
    if kind == "json":
        return JSONResponse([1], headers={"content-type": "a/b", "content-length": "3"})
    if kind == "redirect":
        return RedirectResponse("/x")
    if kind == "stream":
        return StreamingResponse(iter(["a", "b"]), headers={"x-b": "1"})
    if kind == "file":
        return FileResponse(__file__, headers={"a": "1"})
    raise AssertionError(kind)


def sent_cases(tier):
    for kind in ("plain", "empty", "json", "redirect", "stream", "file"):
        for first in range(len(OPS)):
            yield (kind, first, 2 if tier == "quick" else 3)


@C.family("sent", sent_cases, "every response class x every sequence of up to 2 (3) operations on response.headers, the same through a wrapped send and MutableHeaders(scope=message) or (raw=message['headers']): the response start that is sent carries the model's list")
def sent(case, x):
    kind, first, depth = case
    if kind == "file" and depth > 2:
        depth = 2
    seqs = [(OPS[first],) + r for n in range(depth) for r in itertools.product(OPS, repeat=n)]

    async def start(app):
        srv = asgi.Server()
        await app(asgi.scope("/"), srv.receive, srv.send)
        return [m for m in srv.sent if m["type"].endswith("response.start")]

    def check(got, want, what):
        x.check(len(got) == 1, "%d response starts" % len(got))
        x.check([tuple(p) for p in got[0]["headers"]] == raws(want), "%s sent %s, expected %s" % (what, short(got[0]["headers"]), short(raws(want))))

    async def main(some):
        base = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in (await start(make_response(kind)))[0]["headers"]]
        for seq in some:
            # on the response
            r = make_response(kind)
            m = Model(r.headers.items())
            for i, op in enumerate(seq):
                step(x, r.headers, m, op, seq[:i + 1])
                if i == 0:
                    list(r.headers.raw)
            agree(x, r.headers, m.l, seq, deep=False)
            want = list(m.l)
            if kind == "file":  # adds the file's own headers where the name is missing
                for k, v in base:
                    if k in ("content-length", "last-modified", "etag") and k not in [n for n, _ in want]:
                        want.append((k, v))
            check(await start(r), want, "%s on %s.headers" % (seq, kind))
            # in a middleware
            for how in ("scope", "raw"):
                m = Model(base)
                for op in seq:
                    m.apply(op)

                async def app(scope, receive, send):
                    async def send2(message):
                        if message["type"] == "http.response.start":
                            for op in seq:
                                h = MutableHeaders(scope=message) if how == "scope" else MutableHeaders(raw=message["headers"])
                                apply(h, op)
                        await send(message)

                    await make_response(kind)(scope, receive, send2)

                check(await start(app), m.l, "%s on the message (%s)" % (seq, how))
            x.step()

    with rt.vthreads("inline"):
        for i in range(0, len(seqs), 100):
            asgi.result(rt.run(lambda: main(seqs[i:i + 100])))
    x.outcome(case)
