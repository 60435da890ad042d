"""C22 Uploaded files behave like binary files."""
from __future__ import annotations

import io
import itertools
import os
import tempfile

import anyio

from mc import asgi, rt
from mc.core import Check, short

from starlette.datastructures import Headers, UploadFile
from starlette.formparsers import MultiPartParser
from starlette.requests import Request

C = Check("C22", [
    "offsets are not negative; one operation on a file at a time (as on any file)",
    "a failed write may have written part of its data, as on any file; then only the exception is compared",
])

BLOCKED = []  # operations on disk outside a worker thread
FAIL = None
NAMES = ("write", "read", "seek", "close", "rollover")
_orig = {n: getattr(tempfile.SpooledTemporaryFile, n) for n in NAMES}


def setup():
    def wrap(name):
        orig = _orig[name]

        def method(self, *a):
            global FAIL
            if FAIL is not None and name == "write" and a[0]:
                FAIL -= 1
                if FAIL < 0:
                    raise OSError(28, "No space left on device")
            was = self._rolled
            try:
                return orig(self, *a)
            finally:
                if (was or self._rolled) and not rt.VT.in_worker:
                    BLOCKED.append(name)

        return method

    for n in NAMES:
        setattr(tempfile.SpooledTemporaryFile, n, wrap(n))


def teardown():
    for n in NAMES:
        setattr(tempfile.SpooledTemporaryFile, n, _orig[n])


class DiskFile:
    """An ordinary file on disk, which knows who touches it."""

    def __init__(self):
        self.f = tempfile.TemporaryFile()

    def _do(self, name, *a):
        if not rt.VT.in_worker:
            BLOCKED.append(name)
        return getattr(self.f, name)(*a)

    def write(self, *a):
        return self._do("write", *a)

    def read(self, *a):
        return self._do("read", *a)

    def seek(self, *a):
        return self._do("seek", *a)

    def close(self):
        return self._do("close")

    @property
    def closed(self):
        return self.f.closed


def make(kind):
    if kind == "disk":
        return DiskFile()
    if kind == "bytesio":
        return io.BytesIO()
    f = tempfile.SpooledTemporaryFile(max_size=kind if kind != "rolled" else 0)
    if kind == "rolled":
        _orig["rollover"](f)
    return f


M = 4
OPS = [("write", b""), ("write", b"a"), ("write", b"bcde"), ("write", b"fghij"), ("read",), ("read", 0), ("read", 2), ("read", -1), ("seek", 0), ("seek", 3), ("seek", 9), ("close",)]
FEW = [("write", b""), ("write", b"ab"), ("write", b"cdef"), ("read",), ("read", 2), ("seek", 0), ("seek", 5)]
KINDS = [M, 1, 0, "rolled", "disk", "bytesio"]


async def do(up, op):
    try:
        r = await getattr(up, op[0])(*op[1:])
    except (ValueError, OSError) as e:
        return ("error", type(e) if not isinstance(e, io.UnsupportedOperation) else ValueError)
    return ("ok", r)


def ref(f, op):
    try:
        r = getattr(f, op[0])(*op[1:])
    except ValueError as e:
        return ("error", ValueError)
    return ("ok", r if op[0] == "read" else None)


def peek(f):
    """The contents and position, without disturbing anything."""
    if f.closed:
        return None
    if isinstance(f, DiskFile):
        f = f.f
    pos = f.tell()
    if isinstance(f, tempfile.SpooledTemporaryFile):
        _orig["seek"](f, 0)
        data = _orig["read"](f)
        _orig["seek"](f, pos)
    else:
        f.seek(0)
        data = f.read()
        f.seek(pos)
    return data, pos


def run(main, env=None, backend="asyncio"):
    return asgi.result(rt.run(main, env=env, backend=backend))


HEAD = Headers({"content-type": "text/x", "a": "b"})


def history_cases(tier):
    for kind in KINDS:
        for size in (0, 7, None):
            for first in range(len(OPS)):
                yield (kind, size, first, "all", 4 if tier == "quick" and size is None or tier != "quick" and size != None else 3 if tier == "quick" else 5)
            for first in range(len(FEW)):
                yield (kind, size, first, "few", 5 if tier == "quick" and size == 0 else 4 if tier == "quick" else 6)


@C.family("histories", history_cases, "every sequence of write/read/seek/close up to depth 3-4 (5), of fewer operations up to 5 (6), x where the file lives (in memory with spool limits 4, 1 and none, on disk, a plain file, BytesIO) x known and unknown size; against io.BytesIO; nothing touches the disk on the event loop")
def histories(case, x):
    kind, size, first, which, depth = case
    ops = OPS if which == "all" else FEW
    seqs = [(ops[first],) + rest for rest in itertools.product(ops, repeat=depth - 1)]
    for k in range(0, len(seqs), 400):
        some = seqs[k:k + 400]

        async def main():
            for seq in some:
                f = make(kind)
                up = UploadFile(f, size=size, filename="n.txt", headers=HEAD)
                model = io.BytesIO()
                count = size
                del BLOCKED[:]
                for i, op in enumerate(seq):
                    got = await do(up, op)
                    want = ref(model, op)
                    if got != want:
                        x.fail("%s of %s gave %s, expected %s" % (op, seq[:i + 1], short(got), short(want)))
                    if op[0] == "write" and want[0] == "ok" and count is not None:
                        count += len(op[1])
                    if up.size != count:
                        x.fail("size %r after %s, expected %r" % (up.size, seq[:i + 1], count))
                    if BLOCKED:
                        x.fail("%s blocked the event loop with %s" % (seq[:i + 1], BLOCKED))
                if peek(f) != peek(model):
                    x.fail("after %s the file is %s, expected %s" % (seq, short(peek(f)), short(peek(model))))
                if (up.filename, up.content_type, up.headers, up.file) != ("n.txt", "text/x", HEAD, f):
                    x.fail("attributes after %s: %r" % (seq, up))
                x.outcome((kind, peek(f), up.size))
                f.close()
                model.close()

        with rt.vthreads("inline"):
            run(main)
        x.step(len(some) * depth)


def attr_cases(tier):
    yield ()


@C.family("attributes", attr_cases, "filename, size, headers given and not given: what it was made with, of its own")
def attributes(case, x):
    for filename, size, headers in itertools.product((None, "", "a b/\xe9"), (None, 0, 5), (None, {}, {"Content-Type": "a/b; c=d"}, {"x": "y"})):
        h = None if headers is None else Headers(headers)
        kw = {"filename": filename, "size": size, "headers": h}
        kw = {k: v for k, v in kw.items() if v is not None or k == "filename"}
        f = io.BytesIO(b"data")
        up, other = UploadFile(f, **kw), UploadFile(io.BytesIO())
        x.eq((up.filename, up.size, up.content_type, list(up.headers.items())), (filename, size, (headers or {}).get("Content-Type"), [(k.lower(), v) for k, v in (headers or {}).items()]), "attributes")
        x.eq((other.filename, other.size, other.content_type, len(other.headers)), (None, None, None, 0), "attributes")
        x.check(up.file is f, "another file")
        repr(up)
        x.step()


def fault_cases(tier):
    for kind in (M, 1, 0, "rolled"):
        for size in (0, None):
            yield (kind, size)


@C.family("faults", fault_cases, "every sequence of up to 4 writes and reads where the n-th write fails: the exception arrives and the size counts only what was written")
def faults(case, x):
    global FAIL
    kind, size = case

    async def main():
        global FAIL
        for n in (1, 2, 3, 4):
            for seq in itertools.product([("write", b"ab"), ("write", b"cdef"), ("seek", 0)], repeat=n):
                for at in range(n):
                    if seq[at][0] != "write":
                        continue
                    FAIL = sum(o[0] == "write" for o in seq[:at])
                    f = make(kind)
                    up = UploadFile(f, size=size)
                    model = io.BytesIO()
                    for i, op in enumerate(seq):
                        got = await do(up, op)
                        if i == at:
                            x.check(got == ("error", OSError), "%s at %d gave %s" % (seq, i, got))
                            FAIL = None
                        else:
                            ref(model, op)
                            x.check(got[0] == "ok", "%s at %d gave %s" % (seq, i, got))
                    x.check(up.size == (None if size is None else sum(len(o[1]) for i, o in enumerate(seq) if i != at and o[0] == "write")), "%s failing at %d: size %r" % (seq, at, up.size))
                    x.check(peek(f) == peek(model), "%s failing at %d: %s" % (seq, at, peek(f)))
                    f.close()
                    x.step()

    try:
        with rt.vthreads("inline"):
            run(main)
    finally:
        FAIL = None


# ---------------------------------------------------------------- several at a time

def parallel_cases(tier):
    for backend in ("asyncio", "trio"):
        for kinds in ((M, M), (M, "disk"), (1, 0), ("rolled", "rolled")):
            for what in ("write", "mixed"):
                for cancel in (False, True):
                    yield (backend, kinds, what, cancel)


PROG = {"write": [("write", b"abc"), ("write", b"de"), ("seek", 1), ("read", 3)], "mixed": [("write", b"abcdef"), ("seek", 2), ("write", b"X"), ("read",)]}


@C.family("parallel", parallel_cases, "two uploads used by two tasks, worker threads in every order, one of them cancelled at every point: each is a file of its own, and an operation that was cancelled happened once or not at all")
def parallel(case, x):
    backend, kinds, what, cancel = case

    def go(ch):
        env = rt.Env(ch, early=None if x.tier == "quick" and backend == "trio" else 1)
        del BLOCKED[:]
        files = [make(k) for k in kinds]
        ups = [UploadFile(f, size=0) for f in files]
        results = [[], []]
        done = [0, 0]
        stopped = []

        async def task(i):
            with anyio.CancelScope() as cs:
                if cancel and i == 0:
                    env.add("cancel", cs.cancel, background=True)
                for op in PROG[what]:
                    results[i].append(await do(ups[i], op))
                    done[i] += 1
            if done[i] < len(PROG[what]):
                stopped.append(i)

        async def main():
            async with anyio.create_task_group() as tg:
                tg.start_soon(task, 0)
                tg.start_soon(task, 1)

        with rt.vthreads("env"):
            run(main, env, backend)
        for i in (0, 1):
            model = io.BytesIO()
            want = [ref(model, op) for op in PROG[what][:done[i]]]
            x.check(results[i] == want, "task %d got %s, expected %s" % (i, results[i], want), env.fired)
            states = [(peek(model), sum(len(o[1]) for o in PROG[what][:done[i]] if o[0] == "write"))]
            if i in stopped:
                x.check(cancel and i == 0, "task %d was cancelled" % i)
                op = PROG[what][done[i]]
                ref(model, op)
                states.append((peek(model), states[0][1] + (len(op[1]) if op[0] == "write" else 0)))
            got = (peek(files[i]), ups[i].size)
            x.check(got in states, "file %d is %s, expected one of %s" % (i, got, states), env.fired)
        x.check(not BLOCKED, "the event loop was blocked by %s" % BLOCKED)
        x.outcome((tuple(done), tuple(stopped)))
        for f in files:
            if isinstance(f, DiskFile):
                f.f.close()
            else:
                f.close()

    x.explore(go, 1 if x.tier == "quick" else 3, cap=6000 if x.tier == "quick" else 60000)


# ---------------------------------------------------------------- as parsed

def parsed_cases(tier):
    for spool in (0, 1, 4, 100):
        for sizes in itertools.product((0, 1, 4, 5, 11), repeat=2):
            yield (spool, sizes)


@C.family("parsed", parsed_cases, "files as the multipart parser hands them out x spool limits x sizes x chunkings: rewound, with size, filename, headers; then every sequence of two operations; parsing does not touch the disk on the event loop")
def parsed(case, x):
    spool, sizes = case
    body = b""
    datas = [bytes(range(97, 97 + n)) for n in sizes]
    for i, d in enumerate(datas):
        body += b'--bb\r\nContent-Disposition: form-data; name="f%d"; filename="n%d"\r\nContent-Type: a/b%d\r\nX-Y: z\r\n\r\n' % (i, i, i) + d + b"\r\n"
    body += b"--bb--\r\n"
    old = MultiPartParser.spool_max_size
    MultiPartParser.spool_max_size = spool
    try:
        async def main():
            for step in (1, 5, 1000):
                for seq in itertools.product(FEW, repeat=2):
                    if step == 5 and seq[0] != FEW[0]:
                        continue
                    del BLOCKED[:]
                    chunks = [body[i:i + step] for i in range(0, len(body), step)]
                    srv = asgi.Server([{"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)])
                    async with Request(asgi.scope("/", "POST", headers=[(b"content-type", b"multipart/form-data; boundary=bb")]), srv.receive).form() as form:
                        for i, d in enumerate(datas):
                            up = form["f%d" % i]
                            x.check((up.filename, up.size, up.content_type) == ("n%d" % i, len(d), "a/b%d" % i), "attributes %r" % up)
                            x.check([(k, v) for k, v in up.headers.items()] == [("content-disposition", 'form-data; name="f%d"; filename="n%d"' % (i, i)), ("content-type", "a/b%d" % i), ("x-y", "z")], "headers %r" % up.headers)
                            model = io.BytesIO(d)
                            for op in seq:
                                got, want = await do(up, op), ref(model, op)
                                x.check(got == want, "%s of %s gave %s, expected %s" % (op, seq, got, want))
                            x.check(peek(up.file) == peek(model), "file after %s: %s" % (seq, peek(up.file)))
                            x.check(up.size == len(d) + sum(len(o[1]) for o in seq if o[0] == "write"), "size %r" % up.size)
                    x.check(not BLOCKED, "the event loop was blocked by %s (spool %d, sizes %s, chunks of %d)" % (BLOCKED, spool, sizes, step))
                    x.check(all(form["f%d" % i].file.closed for i in (0, 1)), "files left open")
                    x.step()

        with rt.vthreads("inline"):
            run(main)
    finally:
        MultiPartParser.spool_max_size = old
    x.outcome(case)
