"""C23 Multidicts keep their list and dict views consistent."""
from __future__ import annotations

import collections
import copy
import io
import itertools

from mc.core import Check, short

from starlette.datastructures import FormData, ImmutableMultiDict, MultiDict, QueryParams, UploadFile

C = Check("C23", [
    "the order of the distinct keys is not specified, nor which key popitem() takes",
    "a copy is a new object made from another one, or a deep copy",
    "str() of a value is what query parameters hold; text with lone surrogates cannot be encoded",
])

MISSING = object()


class Model:
    """An ordered list of pairs, nothing else."""

    def __init__(self, pairs=()):
        self.l = list(pairs)

    def get(self, k):
        return [v for a, v in self.l if a == k]

    def drop(self, k):
        self.l = [p for p in self.l if p[0] != k]

    def setlist(self, k, vs):
        self.drop(k)
        self.l += [(k, v) for v in vs]

    def apply(self, op):
        """Result, or KeyError."""
        name, *a = op
        if name == "set":
            self.setlist(a[0], [a[1]])
        elif name == "del":
            if not self.get(a[0]):
                return KeyError
            self.drop(a[0])
        elif name == "pop":
            got = self.get(a[0])
            self.drop(a[0])
            return got[-1] if got else (a[1] if len(a) > 1 else None)
        elif name == "poplist":
            got = self.get(a[0])
            self.drop(a[0])
            return got
        elif name == "clear":
            self.l = []
        elif name == "setdefault":
            if not self.get(a[0]):
                self.l.append((a[0], a[1] if len(a) > 1 else None))
            return self.get(a[0])[-1]
        elif name == "setlist":
            self.setlist(a[0], a[1])
        elif name == "append":
            self.l.append((a[0], a[1]))
        elif name == "update":
            new = pairs_of(a[0]) + list((a[1] if len(a) > 1 else {}).items())
            for k in {k for k, _ in new}:
                self.drop(k)
            self.l += new
        elif name == "update_self":
            pass
        else:
            raise AssertionError(op)


def pairs_of(v):
    if isinstance(v, ImmutableMultiDict):
        return v.multi_items()
    if isinstance(v, dict):
        return list(v.items())
    return list(v)


def apply(d, op):
    name, *a = op
    if name == "set":
        d[a[0]] = a[1]
    elif name == "del":
        del d[a[0]]
    elif name == "update":
        return d.update(a[0], **(a[1] if len(a) > 1 else {}))
    elif name == "update_self":
        return d.update(d)
    elif name == "setlist":
        given = list(a[1])
        r = d.setlist(a[0], given)
        given.append("later")
        return r
    else:
        return getattr(d, name)(*a)


def agree(x, d, pairs, keys, what):
    """Every view of d shows exactly these pairs."""
    if d.multi_items() != pairs:
        x.fail("pairs after %s: %s, expected %s" % (what, short(d.multi_items()), short(pairs)))
    last = dict(pairs)
    for k in keys:
        want = [v for a, v in pairs if a == k]
        if d.getlist(k) != want:
            x.fail("getlist(%r) after %s: %s, expected %s" % (k, what, short(d.getlist(k)), want))
        try:
            got = d[k]
        except KeyError:
            got = MISSING
        if got != last.get(k, MISSING) or (k in d) != (k in last) or d.get(k, MISSING) != last.get(k, MISSING):
            x.fail("item %r after %s: %r, in %r, expected %r" % (k, what, got, k in d, last.get(k, MISSING)))
    ks = list(d)
    if not (len(d) == len(ks) == len(last) and set(ks) == set(last)):
        x.fail("len/iter after %s: %d %s, expected %s" % (what, len(d), ks, list(last)))
    if not (list(d.keys()) == ks and list(d.values()) == [last[k] for k in ks] and list(d.items()) == [(k, last[k]) for k in ks] and bool(d) == bool(pairs)):
        x.fail("views after %s: %s %s %s" % (what, list(d.keys()), list(d.values()), list(d.items())))


# the empty key and the value 0 are keys and values like others
KEYS = ["a", "", "c"]
OPS = [("set", "a", 0), ("set", "", 2), ("set", "c", 3), ("del", "a"), ("del", ""), ("del", "c"), ("pop", "a"), ("pop", "", 9), ("pop", "c"), ("pop", "c", 9), ("popitem",), ("poplist", "a"), ("poplist", "c"), ("clear",), ("setdefault", "a", 5), ("setdefault", "c"), ("setdefault", "c", 5), ("setlist", "a", []), ("setlist", "a", [0]), ("setlist", "", [2, 3]), ("setlist", "c", [3, 3]), ("append", "a", 0), ("append", "a", 2), ("append", "", 2), ("append", "c", None), ("update", {"a": 7}), ("update", {}), ("update", [("a", 0), ("c", 2), ("a", 3)]), ("update", MultiDict([("", 0), ("", 2)])), ("update", [("", 4)], {"c": 5, "": 6}), ("update", ImmutableMultiDict([("c", 1), ("a", 2), ("c", 3)])), ("update_self",)]


def step(x, d, m, op, what):
    """Apply op to both."""
    try:
        got = apply(d, op)
    except KeyError:
        got = KeyError
    if op[0] == "popitem":
        if not m.l:
            x.check(got is KeyError, "popitem() of an empty one gave %r" % (got,))
            return
        x.check(isinstance(got, tuple) and len(got) == 2 and m.get(got[0]) and m.get(got[0])[-1] == got[1], "popitem() after %s gave %r" % (what, got))
        m.drop(got[0])
        return
    want = m.apply(op)
    if got is not want and got != want or (got is KeyError) != (want is KeyError):
        x.fail("%s gave %s, expected %s" % (what, short(got), short(want)))


def contents(n, keys=("a", ""), values=(0, 2)):
    kinds = list(itertools.product(keys, values))
    for k in range(n + 1):
        yield from itertools.product(kinds, repeat=k)


def history_cases(tier):
    for i, pairs in enumerate(contents(3)):
        yield (pairs, 2 if tier == "quick" and len(pairs) > 2 else 3)


@C.family("histories", history_cases, "every sequence of up to 2-3 (3) of 32 operations from every content of up to 3 pairs over 2 keys and 2 values: all views show the model's list of pairs after each")
def histories(case, x):
    pairs, depth = case
    for n in range(depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            d, m = MultiDict(list(pairs)), Model(pairs)
            for i, op in enumerate(seq):
                step(x, d, m, op, seq)
            agree(x, d, m.l, KEYS, seq)
        x.step(len(OPS) ** n)
    x.outcome(pairs)


def reach_cases(tier):
    for op in range(len(OPS)):
        yield (op, 3 if tier == "quick" else 4)


@C.family("reachable", reach_cases, "all states reachable through each first operation with up to 3 (4) pairs, by explicit-state search on copies of the real object (order of keys included in the state): every operation from every one of them; the source of a copy never changes")
def reachable(case, x):
    first, limit = case
    d, m = MultiDict(), Model()
    step(x, d, m, OPS[first], OPS[first])

    def key(d, m):
        return (tuple(m.l), tuple(d))

    seen = {key(d, m)}
    todo = [(d, m)]
    while todo:
        d, m = todo.pop()
        for op in OPS:
            e, n = copy.deepcopy(d), Model(m.l)
            step(x, e, n, op, "%s on %s" % (op, m.l))
            agree(x, e, n.l, KEYS, "%s on %s" % (op, m.l))
            x.step()
            if len(n.l) <= limit:
                k = key(e, n)
                if k not in seen:
                    seen.add(k)
                    todo.append((e, n))
        agree(x, d, m.l, KEYS, "operations on copies of %s" % m.l)
    for s in seen:
        x.outcome(s)


# ---------------------------------------------------------------- construction, equality, copies

CLASSES = [ImmutableMultiDict, MultiDict, FormData, QueryParams]


def ways(pairs, cls):
    """Every way of saying the same pairs."""
    yield "list", lambda: cls(list(pairs))
    yield "tuple", lambda: cls(tuple(pairs))
    yield "lists", lambda: cls([[k, v] for k, v in pairs]) if not pairs else cls(list(pairs))
    for other in CLASSES:
        yield other.__name__, lambda: cls(other(list(pairs)))
    keys = [k for k, _ in pairs]
    if len(set(keys)) == len(keys):
        yield "dict", lambda: cls(dict(pairs))
        yield "kwargs", lambda: cls(**dict(pairs))
        yield "items", lambda: cls(dict(pairs).items())
        yield "empty and kwargs", lambda: cls([], **dict(pairs))
    for i in range(1, len(pairs)):
        if len(set(keys[i:])) == len(keys[i:]):
            yield "list and kwargs", lambda: cls(list(pairs[:i]), **dict(pairs[i:]))
            yield "multidict and kwargs", lambda: cls(cls(list(pairs[:i])), **dict(pairs[i:]))
            if len(set(keys[:i])) == len(keys[:i]):
                yield "dict and kwargs", lambda: cls(dict(pairs[:i]), **dict(pairs[i:]))
    yield "generator", lambda: cls(p for p in pairs)
    if not pairs:
        yield "nothing", lambda: cls()
    if cls is QueryParams:
        text = "&".join("%s=%s" % p for p in pairs)
        yield "text", lambda: cls(text)
        yield "bytes", lambda: cls(text.encode())
        if pairs and len(set(keys[1:])) == len(keys[1:]):
            yield "text and kwargs", lambda: cls("%s=%s" % pairs[0], **dict(pairs[1:]))
            yield "bytes and kwargs", lambda: cls(("%s=%s" % pairs[0]).encode(), **dict(pairs[1:]))


def make_cases(tier):
    for cls in range(len(CLASSES)):
        for n in range(4 if tier == "quick" else 5):
            yield (cls, n)


MUTATORS = ["__setitem__", "__delitem__", "pop", "popitem", "poplist", "clear", "setdefault", "setlist", "append", "update", "__ior__"]


@C.family("made", make_cases, "every class x every way of making one from each content of up to 3 (4) pairs: the same views; independent of what it was made from, and what its views return; immutable ones have no way to change")
def made(case, x):
    ci, n = case
    cls = CLASSES[ci]
    for pairs in contents(n, values=("1", "2")):
        if len(pairs) != n:
            continue
        pairs = list(pairs)
        first = None
        for how, make in ways(pairs, cls):
            d = make()
            x.check(type(d) is cls, "type")
            agree(x, d, pairs, KEYS, "making it from %s" % how)
            if first is not None:
                x.check(d == first and not d != first, "%s made from %s is unequal to the one made from a list" % (cls.__name__, how))
            first = d
            for got in (d.multi_items(), d.getlist("a"), list(d)):
                got.append(("c", "9"))
                got.reverse()
            agree(x, d, pairs, KEYS, "changing lists it returned")
            repr(d), str(d)
            deep = copy.deepcopy(d)
            agree(x, deep, pairs, KEYS, "a deep copy")
            x.step()
        # independence of the source
        source = list(pairs)
        d = cls(source)
        source.append(("c", "3"))
        source[:0] = [("a", "0")]
        agree(x, d, pairs, KEYS, "changing the list it was made from")
        base = MultiDict(list(pairs))
        d = cls(base)
        again = MultiDict(d)
        for op in OPS:
            try:
                apply(base, op)
            except KeyError:
                pass
            agree(x, d, pairs, KEYS, "changing the multidict it was made from by %s" % (op,))
        for op in OPS:
            try:
                apply(again, op)
            except KeyError:
                pass
            agree(x, d, pairs, KEYS, "changing a copy of it by %s" % (op,))
        if cls is not MultiDict:
            have = [m for m in MUTATORS if hasattr(d, m)]
            x.check(not have, "%s offers %s" % (cls.__name__, have))
            for bad in (lambda: d.__setitem__("a", 1), lambda: d.__delitem__("a")):
                try:
                    bad()
                except Exception:
                    pass
            agree(x, d, pairs, KEYS, "failed changes")
    x.outcome(case)


def equal_cases(tier):
    for a in range(len(CLASSES)):
        for b in range(len(CLASSES)):
            yield (a, b)


@C.family("equality", equal_cases, "every pair of classes x contents of up to 3 pairs: equal means the same class and the same pairs in any order; never equal to anything else")
def equality(case, x):
    a, b = CLASSES[case[0]], CLASSES[case[1]]
    all_ = list(contents(3, values=("1", "2")))
    left = [(p, a(list(p))) for p in all_]
    right = [(sorted(p), b(list(p))) for p in all_]
    for p, u in left:
        s = sorted(p)
        for q, v in right:
            want = s == q and a is b
            if (u == v) is not want or (u != v) is want:
                x.fail("%r == %r is %r" % (u, v, u == v))
        for other in (list(p), dict(p), tuple(p), str(p), None, 1, p, set(p)):
            if u == other or not u != other or other == u:
                x.fail("%r == %r" % (u, other))
        x.step(len(right))


class Thing:
    """Equal to itself only, without any order."""


def unordered_cases(tier):
    for a in range(len(CLASSES)):
        for n in (1, 2, 3):
            yield (a, n)


@C.family("unordered", unordered_cases, "every class x all pairs of contents of up to 3 pairs over keys and values of kinds that have no order (files, objects, None, numbers and text, dictionaries, sets): equal means the same pairs in any order")
def unordered(case, x):
    cls, n = CLASSES[case[0]], case[1]
    f1, f2 = UploadFile(io.BytesIO(b"1"), filename="n"), UploadFile(io.BytesIO(b"1"), filename="n")
    if cls is QueryParams:
        values = ["1", "2"]
    elif cls is FormData:
        values = [f1, f2, "x"]
    else:
        values = [Thing(), None, 1, "x", {}, {1}, {2}]
    keys = ["a", "b"] if cls in (QueryParams, FormData) or n == 3 else ["a", 1, None]
    pool = list(itertools.product(keys, range(len(values))))
    if n == 3:
        pool = [p for p in pool if p[1] < 3]
    made = [(p, cls([(k, values[v]) for k, v in p])) for p in itertools.product(pool, repeat=n)]
    made += [(p, cls([(k, values[v]) for k, v in p])) for p in ([], pool[:1], pool[:n + 1])]
    marks = [(collections.Counter(p), d) for p, d in made]
    for i, (p, u) in enumerate(marks):
        for q, v in marks:
            want = p == q
            if (u == v) is not want or (u != v) is want:
                x.fail("%r == %r is %r" % (u, v, u == v))
        x.step(len(marks))
    x.outcome(case)


# ---------------------------------------------------------------- query strings

def unpercent(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "%" and i + 2 < len(s) + 0 and all(h in "0123456789abcdefABCDEF" for h in s[i + 1:i + 3]) and len(s[i + 1:i + 3]) == 2:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
            continue
        out += b" " if c == "+" else c.encode("utf-8")
        i += 1
    return out.decode("utf-8", "replace")


def parse(q):
    out = []
    for f in q.split("&"):
        if f:
            k, _, v = f.partition("=")
            out.append((unpercent(k), unpercent(v)))
    return out


ALPHA = ["a", "", "=", "&", "+", "%", "2", "C", ";", "\xe9", "%41", "%26", "%3D", "%c3%A9", "%ff"]


def query_cases(tier):
    for c in ALPHA:
        for d in ALPHA:
            yield (c, d, 4 if tier == "quick" else 6)
    yield None


@C.family("queries", query_cases, "every query string of up to 4 (6) of 15 symbols (separators, escapes, broken escapes, non-ASCII), as text and bytes: its pairs, the views, and re-encoding gives the same pairs")
def queries(case, x):
    if case is None:
        todo = ["", *ALPHA]
    else:
        c1, c2, n = case
        todo = (c1 + c2 + "".join(r) for k in range(n - 1) for r in itertools.product(ALPHA, repeat=k))
    count = 0
    for q in todo:
        want = parse(q)
        d = QueryParams(q)
        if d.multi_items() != want:
            x.fail("%r parsed to %s, expected %s" % (q, short(d.multi_items()), short(want)))
        again = QueryParams(str(d))
        if again.multi_items() != want or not again == d:
            x.fail("%r re-encoded as %r gives %s" % (q, str(d), short(again.multi_items())))
        if not str(d).isascii() or QueryParams(str(d).encode()) != d:
            x.fail("%r re-encoded as %r" % (q, str(d)))
        if q.isascii() and QueryParams(q.encode()).multi_items() != want:
            x.fail("%r as bytes" % q)
        if count % 50 == 0:
            agree(x, d, want, {k for k, _ in want} | {"a", ""}, "parsing %r" % q)
            repr(d)
        count += 1
    x.step(count)
    x.outcome(case)


KV = ["", "a", "1", " ", "&", "=", "a=b", "+", "%41", "\xe9", "\u20ac\U0001f600", "a\r\n", "#", ";", "\0"]


class T:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o


def encode_cases(tier):
    for i in range(len(KV)):
        yield i


@C.family("encoding", encode_cases, "pairs of every two special keys and values, strings and other objects: held as text, every view consistent, and str() parses to the same pairs")
def encoding(case, x):
    k = KV[case]
    for v, k2, v2 in itertools.product(KV, KV, KV[:6]):
        pairs = [(k, v), (k2, v2)]
        d = QueryParams(pairs)
        x.check(parse(str(d)) == pairs and QueryParams(str(d)).multi_items() == pairs, "%s encoded as %r" % (pairs, str(d)))
        agree(x, d, pairs, [k, k2], "pairs")
    objs = [1, "1", T("1"), 2, "2", None, "None", 1.0, True, T("a")]
    for ks in itertools.product(objs, repeat=3):
        pairs = list(zip(ks, [k, 5, None]))
        want = [(str(a), str(b)) for a, b in pairs]
        agree(x, QueryParams(pairs), want, {str(a) for a in ks}, "making query parameters of %s" % (pairs,))
        agree(x, QueryParams(dict(pairs)), [(str(a), str(b)) for a, b in dict(pairs).items()], {str(a) for a in ks}, "making query parameters of %s" % dict(pairs))
        agree(x, QueryParams(MultiDict(pairs)), want, {str(a) for a in ks}, "making query parameters of a multidict of %s" % (pairs,))
        x.step()
    x.outcome(case)
