"""C32 Configuration resolves by precedence and is read-once."""
from __future__ import annotations

import copy
import functools
import itertools
import os
import pprint
import shutil
import tempfile
import warnings
from pathlib import Path

from mc.core import Check, Violation, short

import starlette.config as config_module
from starlette.config import Config, Environ, EnvironError
from starlette.datastructures import URL, CommaSeparatedStrings, Secret

C = Check("C32", [
    "asking for a key (by get, 'in' or through a Config) is reading it, whether it is there or not; listing keys is not",
    "pop, popitem, setdefault and clear are only required not to change a key that has been read",
    "items of a comma-separated value are not blank; quoting is that of a POSIX shell",
    "a cast rejects a bad value with ValueError or TypeError",
])

TMP = None


def setup():
    global TMP
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    TMP = tempfile.mkdtemp(prefix="c32-", dir=base)


def teardown():
    if TMP:
        shutil.rmtree(TMP, ignore_errors=True)


def env_file(text):
    p = os.path.join(TMP, "env%d" % os.getpid())
    with open(p, "w", newline="") as f:
        f.write(text)
    return p


# ------------------------------------------------------------------ precedence

class Strict:
    """A cast with no __name__."""

    def __call__(self, v):
        if v not in ("1", 1):
            raise ValueError("strict")
        return ("strict", v)


def reject_type(v):
    raise TypeError("never")


def tagged(v):
    return ("tagged", v)


CASTS = {"none": None, "str": str, "int": int, "bool": bool, "float": float, "secret": Secret, "csv": CommaSeparatedStrings, "url": URL, "tagged": tagged,
         "lambda": lambda v: int(v), "partial": functools.partial(int, base=2), "object": Strict(), "type-error": reject_type, "path": Path,
         "method": "abc".index}
TEXTS = ["1", "0", "true", "TRUE", "tRuE", "False", "fALSE", "yes", "no", "on", "t", "2", "-1", "", " ", "1.5", "abc", "00", "None", "a, b", "1 ", "tru\u00e9", "10"]
UNSET = object()
DEFAULTS = [UNSET, None, "1", "abc", "True", "", 1, 0, True, False, 2, "0"]


def text(v):
    try:
        return str(v)
    except TypeError:
        return "not a string"


def norm(v):
    if isinstance(v, Secret):
        return ("Secret", text(v))
    if isinstance(v, CommaSeparatedStrings):
        return ("csv", list(v))
    if isinstance(v, URL):
        return ("url", text(v))
    return (type(v).__name__, v)


def expected(raw, cast):
    """The value, or ValueError."""
    if raw is UNSET:
        return KeyError
    if cast is None or raw is None:
        return norm(raw)
    if cast is bool and isinstance(raw, str):
        low = raw.lower()
        return norm(True) if low in ("true", "1") else norm(False) if low in ("false", "0") else ValueError
    try:
        return norm(cast(raw))
    except (TypeError, ValueError):
        return ValueError


def ask(fn):
    try:
        return norm(fn())
    except KeyError:
        return KeyError
    except ValueError:
        return ValueError


def resolve_cases(tier):
    for cast in CASTS:
        for prefix in ("", "APP_", "K"):
            yield {"cast": cast, "prefix": prefix}


@C.family("resolve", resolve_cases, "presence of the three sources x values x casts x prefixes x ways of asking")
def _(case, x):
    cast, prefix = CASTS[case["cast"]], case["prefix"]
    texts = TEXTS if x.tier == "thorough" or case["prefix"] == "" else TEXTS[:8] + ["", "abc"]
    for env_v in [UNSET] + texts:
        for file_v in [UNSET] + (texts if env_v is UNSET else texts[:3]):
            file_text = "OTHER=zz\n" + ("" if file_v is UNSET else "%sKEY=%s\n" % (prefix, file_v)) + "KEYX=1\nXKEY=2\n"
            path = env_file(file_text)
            environ = {"OTHER": "q", "KEYX": "1", "XKEY": "2", "key": "low", prefix + "key": "low"}
            if env_v is not UNSET:
                environ[prefix + "KEY"] = env_v
            if prefix:
                environ["KEY"] = "unprefixed"
            for shared in (False, True):
                before = dict(environ)
                cfg = Config(path if file_v is not UNSET or shared else None, environ=Environ(environ) if shared else environ, env_prefix=prefix)
                for default in DEFAULTS:
                    x.step()
                    raw = env_v if env_v is not UNSET else file_v.strip() if file_v is not UNSET else default
                    want = expected(raw, cast)
                    kw = {}
                    if cast is not None:
                        kw["cast"] = cast
                    if default is not UNSET:
                        kw["default"] = default
                    got = ask(lambda: cfg("KEY", **kw))
                    msg = "%s prefix=%r env=%r file=%r default=%r" % (case["cast"], prefix, _show(env_v), _show(file_v), _show(default))
                    if got != want:
                        x.fail("%s: %r instead of %r" % (msg, got, want))
                    got = ask(lambda: cfg.get("KEY", **kw))
                    if got != want:
                        x.fail("%s: get() gives %r instead of %r" % (msg, got, want))
                x.eq(environ, before, "the environment was changed")
        x.outcome((case["cast"], prefix, str(_show(env_v))))
    x.check(ask(lambda: Config(environ={}, env_prefix=prefix)("KEY")) is KeyError, "missing key")


def _show(v):
    return "-" if v is UNSET else v


# ---------------------------------------------------------------- booleans

def bool_cases(tier):
    yield {}


@C.family("booleans", bool_cases, "every text up to three characters and every case variant: booleans accept exactly true/false/1/0")
def _(case, x):
    alphabet = "01tTrRuUeEfFaAlLsS -\u0130\u0131yn"
    texts = ["".join(p) for n in range(4) for p in itertools.product(alphabet, repeat=n)]
    for word in ("true", "false"):
        texts += ["".join(p) for p in itertools.product(*[(c, c.upper()) for c in word])]
        texts += [word + c for c in alphabet] + [c + word for c in alphabet] + [word[:i] + word[i + 1:] for i in range(len(word))]
    good = {"true": True, "1": True, "false": False, "0": False}
    for t in texts:
        x.step()
        want = ("bool", good[t.lower()]) if t.lower() in good else ValueError
        for cfg, kw in ((Config(environ={"K": t}), {}), (Config(environ={}), {"default": t})):
            got = ask(lambda: cfg("K", cast=bool, **kw))
            if got != want:
                x.fail("bool of %r is %r, not %r" % (t, got, want))
    x.outcome(len(texts))


# ------------------------------------------------------------------- env files

ALPHA = ["a", "b", "=", "#", '"', "'", " ", "\n", "\r"]


def ref_file(text):
    lines, cur, i = [], "", 0
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    res = {}
    for line in text.split("\n"):
        line = line.strip(" \t")
        if not line or line[0] == "#":
            continue
        eq = line.find("=")
        if eq < 0:
            continue
        k, v = line[:eq].strip(" \t"), line[eq + 1:].strip(" \t")
        while v and v[0] in "\"'":
            v = v[1:]
        while v and v[-1] in "\"'":
            v = v[:-1]
        res[k] = v
    return res


def file_cases(tier):
    for a in ALPHA:
        for b in ALPHA:
            yield {"start": a + b}
    yield {"lines": True}
    yield {"missing": True}


LINES = ["a=1", "a=2", " a = 3 ", "a='4'", 'a="5 "', "#a=6", "  # a=7", "a", "", "b=x=y", "a=", "=v", "b=#c", "export a=8", "\ta\t=\t9\t", "a b=c", "A=10", "b='",
         'a=""', "c=\u00e9", "a=k # comment", "x=1;y=2", "a=\\n"]


@C.family("files", file_cases, "every env file over the syntax alphabet, and all sequences of three lines, against a reference reading")
def _(case, x):
    if "missing" in case:
        for p in (os.path.join(TMP, "absent"), Path(TMP) / "absent", TMP):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                cfg = Config(p, environ={"E": "1"})
            x.eq(len(w), 1, "warning for a missing file")
            x.eq((cfg("E"), ask(lambda: cfg("F")), cfg("G", default="d")), ("1", KeyError, "d"), "values without a file")
            x.step()
        p = env_file("a=1\n")
        cfg = Config(Path(p), environ={})
        x.eq(cfg("a"), "1", "a Path")
        env_file("a=2\n")
        x.eq((cfg("a"), Config(p, environ={})("a")), ("1", "2"), "read when constructed")
        return
    if "lines" in case:
        todo = ["\n".join(p) + e for p in itertools.product(LINES, repeat=3) for e in ("", "\n")] + ["\r\n".join(p) for p in itertools.product(LINES, repeat=2)]
    else:
        depth = 4 if x.tier == "thorough" else 3
        todo = [case["start"] + "".join(p) for n in range(depth + 1) for p in itertools.product(ALPHA, repeat=n)]
        todo.append(case["start"][0])
    absent = ["c", "ab", "ba"]
    for t in todo:
        x.step()
        want = ref_file(t)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            cfg = Config(env_file(t), environ={})
        for k in list(want) + [k for k in ("a", "b", "", "#a", "aa", " a", "a ") if k not in want]:
            got = ask(lambda: cfg(k))
            if got != (norm(want[k]) if k in want else KeyError):
                x.fail("env file %r: key %r is %r, not %r" % (t, k, got, want.get(k, KeyError)))
        if cfg.file_values != want:
            x.fail("env file %r is read as %r, not %r" % (t, cfg.file_values, want))
    x.outcome((str(case), len(todo)))


# ------------------------------------------------------------------- read-once

OPS = ["get a", "get b", "a in", "b in", "default a", "set a", "set b", "del a", "del b", "list", "len", "items", "config a", "config b", "prefix a", "pop a",
       "setdefault a", "setdefault b", "update a", "clear", "under a", "popitem", "copy", "eq"]


def once_cases(tier):
    for i, op in enumerate(OPS):
        for start in ("none", "a", "ab"):
            yield {"op": op, "start": start}


@C.family("read-once", once_cases, "all sequences of operations on a shared environment, against a model of the mapping and the keys read")
def _(case, x):
    depth = 5 if x.tier == "thorough" else 4
    first = {"none": {}, "a": {"a": "0"}, "ab": {"a": "0", "b": "1"}}[case["start"]]
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (case["op"],) + rest
        x.step()
        under = dict(first)
        env = Environ(under)
        cfg = Config(environ=env)
        pcfg = Config(environ=env, env_prefix="a")
        model, read = dict(first), set()
        free = False  # after an operation that is only constrained on read keys
        for n, op in enumerate(seq):
            key = op.split()[-1] if op.split()[0] not in ("a", "b") else op[0]
            what = op.replace(key, "").strip() if key in "ab" and len(key) == 1 else op
            new = str(n + 5)
            try:
                if what == "get":
                    got = ("v", env[key])
                elif what == "in":
                    got = ("v", key in env)
                elif what == "default":
                    got = ("v", env.get(key, "dflt"))
                elif what == "set":
                    env[key] = new
                    got = ("v", None)
                elif what == "del":
                    del env[key]
                    got = ("v", None)
                elif what == "list":
                    got = ("v", sorted(env))
                elif what == "len":
                    got = ("v", len(env))
                elif what == "items":
                    got = ("v", sorted(env.items()))
                elif what == "config":
                    got = ("v", cfg(key, default="dflt"))
                elif what == "prefix":
                    got = ("v", pcfg("", default="dflt"))
                elif what == "pop":
                    got = ("free", env.pop(key, None))
                elif what == "setdefault":
                    got = ("free", env.setdefault(key, new))
                elif what == "update":
                    env.update({key: new})
                    got = ("v", None)
                elif what == "clear":
                    env.clear()
                    got = ("free", None)
                elif what == "popitem":
                    got = ("free", env.popitem())
                elif what == "copy":
                    got = ("v", dict(env))
                elif what == "eq":
                    got = ("v", env == {"zz": "1"})
                elif what == "under":
                    under[key] = new
                    got = ("v", None)
            except EnvironError:
                got = ("EnvironError",)
            except KeyError:
                got = ("KeyError",)
            # the model
            if what in ("get",):
                read.add(key)
                want = ("v", model[key]) if key in model else ("KeyError",)
            elif what == "in":
                read.add(key)
                want = ("v", key in model)
            elif what in ("default", "config", "prefix"):
                read.add(key)
                want = ("v", model.get(key, "dflt"))
            elif what in ("set", "update"):
                want = ("EnvironError",) if key in read else ("v", None)
                if key not in read:
                    model[key] = new
            elif what == "del":
                want = ("EnvironError",) if key in read else ("v", None) if key in model else ("KeyError",)
                if key not in read:
                    model.pop(key, None)
            elif what == "list":
                want = ("v", sorted(model))
            elif what == "len":
                want = ("v", len(model))
            elif what in ("items", "copy"):
                read.update(model)
                want = ("v", sorted(model.items())) if what == "items" else ("v", dict(model))
            elif what == "eq":
                read.update(model)
                want = ("v", False)
            elif what == "under":
                model[key] = new
                want = ("v", None)
            else:
                # pop, popitem, setdefault, clear: a key that was read stays
                for k in read:
                    if under.get(k, UNSET) != model.get(k, UNSET):
                        x.fail("%r: %s changed key %r after it was read" % (seq[:n + 1], op, k))
                if what == "pop" and key in read and key in model and got[0] == "free":
                    x.fail("%r: pop of a key that was read succeeded" % (seq[:n + 1],))
                break
            if got != want:
                x.fail("%r: %s gives %r instead of %r" % (seq[:n + 1], op, got, want))
            if under != model:
                x.fail("%r: the mapping is %r, not %r" % (seq[:n + 1], under, model))
    x.outcome((case["op"], case["start"]))


def shared_cases(tier):
    yield {}


@C.family("shared", shared_cases, "the environment of the process: reading through any Config locks the key for all, separate environments stay separate")
def _(case, x):
    names = ["MC_C32_%d" % i for i in range(6)]
    for n in names:
        os.environ.pop(n, None)
    try:
        env = config_module.environ
        x.check(isinstance(env, Environ), "starlette.config.environ")
        env[names[0]] = "x"
        x.eq(os.environ.get(names[0]), "x", "os.environ is written")
        os.environ[names[0]] = "y"
        c1, c2 = Config(), Config(env_prefix="MC_C32_")
        x.eq(c1(names[0]), "y", "default environment")
        for act in (lambda: env.__setitem__(names[0], "z"), lambda: env.__delitem__(names[0])):
            try:
                act()
            except EnvironError:
                pass
            else:
                x.fail("a key read through Config() was changed")
        x.eq(os.environ.get(names[0]), "y", "unchanged")
        env[names[1]] = "1"
        del env[names[1]]
        x.check(names[1] not in os.environ, "other keys stay writable")
        env[names[2]] = "p"
        x.eq(c2("2"), "p", "prefix")
        try:
            env[names[2]] = "q"
        except EnvironError:
            pass
        else:
            x.fail("a key read under a prefix was changed")
        other = Environ()
        other[names[2]] = "r"
        x.eq((os.environ[names[2]], Environ(os.environ)[names[2]]), ("r", "r"), "another environment object")
        e1, e2 = Environ({"k": "1"}), Environ({"k": "2"})
        x.eq(e1["k"], "1", "first")
        e2["k"] = "3"
        x.eq((e1["k"], e2["k"]), ("1", "3"), "separate environments")
        c = Config(environ={"A": "1"})
        x.eq((c("A"), c("A", cast=int), c("A", cast=bool)), ("1", 1, True), "asked again with another cast")
        x.step(8)
    finally:
        for n in names:
            os.environ.pop(n, None)


# ----------------------------------------------------------- comma-separated

ITEMS = ["a", "b c", "x.y:1", "*", "#h", "a-b", "$v", "(z)", "\u00e9", "0", "a=b", "http://x/?q", "{}", "a\tb", "!", "|", "&&", "<>"]
TRICKY = ["a,b", ",", "a, b", '"', "'", "it's", 'q"q', "\\", "a\\b", "a,'b", "#,#"]


def quote_forms(item, tricky):
    """All the ways to write an item."""
    out = []
    if not any(c in item for c in ",\"'\\"):
        out.append(item)
    else:
        out.append("".join("\\" + c if c in ",\"'\\" else c for c in item))
    if "'" not in item:
        out.append("'%s'" % item)
    out.append('"%s"' % item.replace("\\", "\\\\").replace('"', '\\"'))
    return out


def csv_cases(tier):
    for i in range(len(ITEMS) + len(TRICKY)):
        yield {"item": i}
    yield {"misc": True}


@C.family("comma-separated", csv_cases, "all lists of up to three items x ways of writing each x separators")
def _(case, x):
    pool = ITEMS + TRICKY
    if "misc" in case:
        x.eq(list(CommaSeparatedStrings("")), [], "empty")
        for given in ([], ["a"], ("a", "b,c", ""), [" a "]):
            c = CommaSeparatedStrings(given)
            x.eq((list(c), len(c), [c[i] for i in range(len(c))], c[:], c[-1:]), (list(given), len(given), list(given), list(given), list(given)[-1:]), "sequence")
            x.eq(CommaSeparatedStrings(str(c)) and str(c), ", ".join(repr(i) for i in given) if given else [], "str") if given else None
            x.eq(repr(c), "CommaSeparatedStrings(%r)" % list(given), "repr")
            x.step()
        src = ["a"]
        c = CommaSeparatedStrings(src)
        src.append("b")
        x.eq(list(c), ["a"], "keeps its own items")
        x.check("a" in c and "b" not in c and c.index("a") == 0 and c.count("a") == 1 and list(reversed(CommaSeparatedStrings("a,b"))) == ["b", "a"], "sequence protocol")
        return
    first = pool[case["item"]]
    second = pool if x.tier == "thorough" else pool
    for rest in [()] + [(p,) for p in second] + [(p, q) for p in ("a", "a,b", "it's") for q in second]:
        items = [first, *rest]
        for forms in itertools.product(*[quote_forms(i, True) for i in items]):
            for sep in (",", ", ", " , "):
                x.step()
                text = sep.join(forms)
                try:
                    got = CommaSeparatedStrings(text)
                    got_list = list(got)
                except Exception as exc:
                    x.fail("%r raised %r" % (text, exc))
                if got_list != items:
                    x.fail("%r is split into %r, not %r" % (text, got_list, items))
            if len(got) != len(items) or got[0] != items[0] or got[-1] != items[-1]:
                x.fail("%r: len or index" % text)
    cfg = Config(environ={"H": "%s, z" % quote_forms(first, True)[-1]})
    x.eq(list(cfg("H", cast=CommaSeparatedStrings)), [first, "z"], "through Config")
    x.outcome((first,))


# ---------------------------------------------------------------------- secret

def secret_cases(tier):
    yield {}


@C.family("secret", secret_cases, "no value of up to three characters is shown by any representation of a Secret")
def _(case, x):
    alphabet = ["a", "S", "7", "'", '"', "\\", "\n", "\u00e9", " ", "%", "{", "k"]
    values = ["".join(p) for n in range(4) for p in itertools.product(alphabet, repeat=n)] + ["hunter2" * 20, "0"]
    reprs = set()
    for v in values:
        x.step()
        s = Secret(v)
        x.eq((str(s), bool(s), "%s" % s, f"{s}"), (v, bool(v), v, v), "the value of Secret(%r)" % v)
        reprs.update((repr(s), "%r" % (s,), f"{s!r}", repr([s])[1:-1], pprint.pformat(s), repr(copy.copy(s)), repr(Config(environ={"K": v})("K", cast=Secret)),
                      repr(Config(environ={})("K", cast=Secret, default=v)), "{0!r}".format(s), ascii(s)))
    x.eq(len(reprs), 1, "representations that depend on the value: %s" % short(sorted(reprs)))

    class Sub(Secret):
        pass

    x.check("hunter2" not in repr(Sub("hunter2")) and str(Sub("hunter2")) == "hunter2", "subclass")
    x.outcome(len(values))
