"""Reference router: matching by explicit enumeration of splits, no regular expressions."""
from __future__ import annotations

import string
import uuid

DIGITS = set("0123456789")
HEX = set("0123456789abcdefABCDEF")


def digits(s):
    return bool(s) and all(c in DIGITS for c in s)


def is_float(s):
    a, dot, b = s.partition(".")
    return digits(a) and (not dot or digits(b))


def is_uuid(s):
    out, i = [], 0
    for n in (8, 4, 4, 4, 12):
        part = s[i:i + n]
        if len(part) != n or any(c not in HEX for c in part):
            return False
        i += n
        if n != 12 and s[i:i + 1] == "-":
            i += 1
    return i == len(s)


ADMIT = {
    "str": lambda s: bool(s) and "/" not in s,
    "path": lambda s: "\n" not in s,
    "int": digits,
    "float": is_float,
    "uuid": is_uuid,
}
CONVERT = {"str": str, "path": str, "int": int, "float": float, "uuid": lambda s: uuid.UUID(s)}

NAME0 = set(string.ascii_letters + "_")
NAME = NAME0 | DIGITS


def ident(s):
    return bool(s) and s[0] in NAME0 and all(c in NAME for c in s)


def parse(path):
    """'/a/{x:int}' -> ['/a/', ('x', 'int')]"""
    toks, i, lit = [], 0, ""
    while i < len(path):
        if path[i] == "{":
            j = path.find("}", i)
            if j > 0:
                name, colon, conv = path[i + 1:j].partition(":")
                if ident(name) and (not colon or ident(conv)):
                    if lit:
                        toks.append(lit)
                        lit = ""
                    toks.append((name, conv or "str"))
                    i = j + 1
                    continue
        lit += path[i]
        i += 1
    if lit:
        toks.append(lit)
    return toks


def splits(toks, text, k=0):
    """All ways to read text as toks: yields dicts name -> raw text."""
    if k == len(toks):
        if text == "":
            yield {}
        return
    t = toks[k]
    if isinstance(t, str):
        if text.startswith(t):
            yield from splits(toks, text[len(t):], k + 1)
        return
    name, conv = t
    for n in range(len(text), -1, -1):
        if ADMIT[conv](text[:n]):
            for rest in splits(toks, text[n:], k + 1):
                yield {name: text[:n], **rest}


def convert(toks, raw):
    convs = dict(t for t in toks if not isinstance(t, str))
    return {k: CONVERT[convs[k]](v) for k, v in raw.items()}


class Entry:
    """One declared route."""

    def __init__(self, kind, path="", methods=None, children=None, id=None, redirect=True):
        self.kind = kind  # route | ws | mount | host | app (mount of a plain ASGI app) | hostapp
        self.path = path.rstrip("/") if kind in ("mount", "app") else path
        self.methods = methods  # None: every method
        self.children = children
        self.id = id
        if kind in ("host", "hostapp"):
            cut = path.rfind("}")
            self.toks = parse(path[:cut + 1] + path[cut + 1:].split(":")[0])
        else:
            self.toks = parse(self.path)

    def allowed(self):
        ms = {m.upper() for m in self.methods}
        if "GET" in ms:
            ms.add("HEAD")
        return ms

    def match(self, type, method, host, path):
        """-> (full|partial|None, [(params, prefix, rest)])"""
        if self.kind in ("host", "hostapp"):
            ms = [(convert(self.toks, r), "", path) for r in splits(self.toks, host.split(":")[0])]
            return ("full" if ms else None), ms
        if self.kind in ("mount", "app"):
            ms = []
            for i in [i for i, c in enumerate(path) if c == "/" and "\n" not in path[i:]]:
                for r in splits(self.toks, path[:i]):
                    ms.append((convert(self.toks, r), path[:i], path[i:]))
            return ("full" if ms else None), ms
        if (self.kind == "route") != (type == "http"):
            return None, []
        ms = [(convert(self.toks, r), "", path) for r in splits(self.toks, path)]
        if not ms:
            return None, []
        if self.kind == "route" and self.methods is not None and method not in self.allowed():
            return "partial", ms
        return "full", ms


def dispatch(entries, type, method, host, path, root="", params=None, redirect=True):
    """-> (what, detail...) with every acceptable outcome as a list."""
    params = params or {}
    partial = None
    for e in entries:
        how, ms = e.match(type, method, host, path)
        if how == "full":
            out = []
            for p, prefix, rest in ms:
                newp = {**params, **p}
                if e.children is not None:
                    out += dispatch(e.children, type, method, host, rest, root + prefix, newp, True)
                else:
                    out.append(("hit", e.id, newp, root + prefix, rest))
            return out
        if how == "partial" and partial is None:
            partial = (e, ms)
    if partial:
        return [("405", partial[0].allowed(), partial[0].id, {**params, **m[0]}, root) for m in partial[1]]
    if type == "http" and redirect and path != "/":
        other = path.rstrip("/") if path.endswith("/") else path + "/"
        if any(e.match(type, method, host, other)[0] for e in entries):
            return [("redirect", root + other)]
    return [("default",)]
