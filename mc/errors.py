"""Error classes that user code may raise: every builtin one and those of the libraries in use."""
from __future__ import annotations

import asyncio
import builtins
import concurrent.futures
import functools
import json
import queue
import subprocess

import anyio

SPECIAL = {
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    "UnicodeEncodeError": lambda: UnicodeEncodeError("ascii", "\xe9", 0, 1, "bad"),
    "UnicodeTranslateError": lambda: UnicodeTranslateError("\xe9", 0, 1, "bad"),
    "ExceptionGroup": lambda: ExceptionGroup("two", [ValueError(1), KeyError(2)]),
    "OSError-errno": lambda: OSError(2, "no such", "file"),
    "JSONDecodeError": lambda: json.JSONDecodeError("bad", "doc", 0),
    "CalledProcessError": lambda: subprocess.CalledProcessError(1, "cmd"),
}
LIBRARY = (anyio.EndOfStream, anyio.ClosedResourceError, anyio.BrokenResourceError, anyio.WouldBlock, anyio.IncompleteRead, anyio.BrokenWorkerProcess,
           asyncio.InvalidStateError, asyncio.QueueEmpty, concurrent.futures.BrokenExecutor, queue.Empty, queue.Full)


def table():
    """name -> function making a new exception of that class."""
    out = {}
    for n, c in sorted(vars(builtins).items()):
        if isinstance(c, type) and issubclass(c, Exception) and c.__name__ == n and not issubclass(c, (StopIteration, StopAsyncIteration)):
            out[n] = SPECIAL.get(n) or functools.partial(c, "text of " + n)
    for c in LIBRARY:
        out[c.__module__.split(".")[0] + "." + c.__name__] = c
    out.update({n: f for n, f in SPECIAL.items() if n not in out})
    return out
