"""C02 Streaming survives every disconnect and failure schedule."""
from __future__ import annotations

from mc import asgi, rt
from mc.core import Check, Violation, short

from starlette.background import BackgroundTask
from starlette.requests import ClientDisconnect
from starlette.responses import StreamingResponse

C = Check("C02", ["asyncio's FIFO ready queue and trio's batch order are the schedulers; environment actions complete at poll points",
                  "a sync producer's step is atomic at the environment action that runs it"])


class Boom(Exception):
    pass


class Boom2(ValueError):
    pass


class SubOS(FileNotFoundError):
    pass


FAILS = {"boom": Boom, "os": SubOS, "value": Boom2}
ITEMS = [b"a", "b\xe9", b"", b"d"]


def producer(kind, n, fail, env, log, failname):
    """n chunks, then (if fail == k) raise before chunk k."""
    exc = FAILS[failname]("producer") if fail is not None else None

    def item(i):
        log.append(("pull", i))
        return ITEMS[i]

    if kind == "agen":
        async def g():
            for i in range(n + 1):
                await rt.Gate(env).wait("produce")
                if fail == i:
                    raise exc
                if i == n:
                    return
                yield item(i)
        return g(), exc
    if kind == "eager":
        async def g():
            for i in range(n + 1):
                if fail == i:
                    raise exc
                if i == n:
                    return
                yield item(i)
        return g(), exc
    if kind == "gen":
        def s():
            for i in range(n + 1):
                if fail == i:
                    raise exc
                if i == n:
                    return
                yield item(i)
        return s(), exc
    if kind == "iter":
        class It:
            i = 0

            def __iter__(self):
                return self

            def __next__(self):
                i, self.i = self.i, self.i + 1
                if fail == i:
                    raise exc
                if i >= n:
                    raise StopIteration
                return item(i)
        return It(), exc
    raise KeyError(kind)


def enc(c):
    return c.encode("utf-8") if isinstance(c, str) else bytes(c)


class Frozen(rt.Env):
    """After the hang-up nothing but worker threads ever completes again."""

    frozen = False

    def add(self, label, fn, background=False):
        if self.frozen and not label.startswith("thread:"):
            return -1
        return super().add(label, fn, background)

    def freeze(self):
        self.frozen = True
        for i, a in list(self.actions.items()):
            if not a[0].startswith("thread:"):
                del self.actions[i]


def execute(x, ch, kind, n, fail, failname, spec, gate, freeze, send_fail, backend, incoming, early, background=False):
    env = (Frozen if freeze else rt.Env)(ch, early=early)
    log = []
    src, exc = producer(kind, n, fail, env, log, failname)
    srv = asgi.Server(asgi.body_messages(incoming), env=env, gate=gate, log=log)
    if freeze:
        hang = srv.hang_up

        def hang_up():
            hang()
            env.freeze()

        env.actions[[i for i, a in env.actions.items() if a[0] == "disconnect"][0]] = ("disconnect", hang_up, True)
    if spec == "2.4":
        srv.disconnect_fails = True
    if send_fail is not None:
        srv.fail_at, srv.fail_exc = send_fail
    ran = []
    resp = StreamingResponse(src, status_code=200, headers={"x": "y"}, background=BackgroundTask(ran.append, 1) if background else None)
    sc = asgi.scope(spec=spec)
    with rt.vthreads("env"):
        async def main():
            await resp(sc, srv.receive, srv.send)

        out = rt.run(main, env, backend)
    asgi.settled(out)
    left = [a[0] for a in env.actions.values() if a[0].startswith("thread:")]
    x.check(not left, "worker thread abandoned", left, log)
    sent = srv.sent
    r = asgi.judge(sent, need_complete=False, allow_empty=True, framing=False)
    want = [enc(c) for c in ITEMS[:n]]
    ok_upto = n if fail is None else fail
    chunks = [c for c in (r.chunks if r else []) if c]
    full = [c for c in want[:ok_upto] if c]
    x.check(chunks == full[: len(chunks)], "chunks are not an in-order prefix", "sent %r" % chunks, "produced %r" % full, log)
    if r is not None:
        x.check(r.status == 200 and r.headers == [(b"x", b"y")], "start message", r)
    gone = srv.disconnected and any(e == ("hangup",) for e in log)
    told = srv.told
    failed_send = any(e[0] == "sendfail" for e in log)
    # after a failed send nothing more may be sent
    if failed_send:
        k = [i for i, e in enumerate(log) if e[0] == "sendfail"][0]
        x.check(not any(e[0] in ("send", "sendfail") for e in log[k + 1:]), "sent after a failed send", log)
    complete = r is not None and r.complete
    if complete:
        x.check(chunks == full and fail is None, "final message although not all chunks were sent or the producer failed", log)
        finals = [m for m in sent if m["type"] == "http.response.body" and not m.get("more_body", False)]
        x.check(len(finals) == 1, "number of final messages", log)
    if not gone and not failed_send:
        if fail is None:
            x.check(complete, "stream did not complete", log)
            x.check(out.exc is None, "unexpected exception %r" % out.exc, log)
        else:
            x.check(out.exc is exc, "producer's exception did not reach the caller as itself: %r" % (out.exc,), log)
            x.check(chunks == full, "chunks before the producer's failure were not sent", log)
    elif failed_send:
        if spec == "2.4" and issubclass(srv.fail_exc, OSError):
            x.check(isinstance(out.exc, ClientDisconnect), "failed send under spec 2.4 must raise ClientDisconnect, got %r" % (out.exc,), log)
        elif told or gone:
            x.check(out.exc is None or isinstance(out.exc, srv.fail_exc) or out.exc is exc, "unexpected exception %r" % (out.exc,), log)
        else:
            x.check(type(out.exc) is srv.fail_exc, "send failure surfaced as %r" % (out.exc,), log)
    else:
        x.check(out.exc is None or out.exc is exc, "unexpected exception %r after disconnect" % (out.exc,), log)
        if out.exc is None and not told:
            x.check(complete, "ended early without having seen the disconnect", log)
        if out.exc is None and told and complete is False and fail is not None:
            pass
    if told and not (kind == "eager" and "s" not in gate):  # (such a stream never suspends)
        k = [i for i, e in enumerate(log) if e == ("recv", "http.disconnect")][0]
        after = [e for e in log[k + 1:] if e[0] == "send"]
        # cancellation reaches a task at its first wait that is not already
        # satisfied: each completion the environment still grants allows one step
        grace = 1 + len(env.fired) - srv.told_fired
        x.check(len(after) <= grace, "kept sending after the disconnect was observed", log, env.fired)
        pulls = [e for e in log[k + 1:] if e[0] == "pull"]
        x.check(len(pulls) <= grace, "kept producing after the disconnect was observed", log, env.fired)
    if background:
        x.check(len(ran) <= 1, "background task ran twice")
        if ran and log:
            pass
        if out.exc is not None:
            x.check(not ran, "background ran although the response failed")
        elif not gone:
            x.check(ran == [1], "background task did not run")
    for i in range(len(log) + 1):
        x.state(tuple(log[:i]))
    x.step(len(env.fired))
    x.outcome((tuple(log), type(out.exc).__name__))


def cases_sched(tier):
    q = tier == "quick"
    for backend in ("asyncio", "trio"):
        for kind in ("agen", "gen", "iter", "eager"):
            for n in range(0, 4 if q else 5):
                for fail in [None] + list(range(0, n + 1)):
                    for spec in ("2.0", "2.3", "2.4"):
                        for mode in ("sd", "d", "rsd", "s"):
                            if spec == "2.0" and (mode != "sd" or n > 2):
                                continue
                            if mode == "rsd" and n > 2:
                                continue
                            if backend == "trio" and (n > 2 or (q and (mode == "rsd" or kind == "iter"))):
                                continue
                            names = ("boom",) if fail is None or n > 1 else ("boom", "os", "value")
                            for fn in names:
                                yield (backend, kind, n, fail, fn, spec, mode)


@C.family("schedules", cases_sched, "every schedule of producer steps, send completions, request messages and client disconnect, <=2 early completions (thorough 3; trio 1/2)")
def _(case, x):
    backend, kind, n, fail, fn, spec, mode = case
    q = x.tier == "quick"
    bound = (2 if n <= 2 else 1) if q else (3 if n <= 2 else 2)
    if backend == "trio":
        bound = 1 if q else 2
    inc = [b""] if mode != "rsd" else [b"x", b"y"]
    x.explore(lambda ch: execute(x, ch, kind, n, fail, fn, spec, mode, False, None, backend, inc, 1, background=(n == 1)), bound)


def cases_freeze(tier):
    for backend in ("asyncio", "trio"):
        for kind in ("agen", "gen", "iter", "eager"):
            for n in range(0, 4):
                for spec in ("2.0", "2.3"):
                    for mode in ("sd", "d"):
                        if mode == "d" and kind == "eager":
                            continue
                        for inc in ((b"",), (b"x", b"y"), (b"x", b"y", b"", b"z")):
                            yield (backend, kind, n, spec, mode, inc)


@C.family("prompt-end", cases_freeze, "as above, but once the client is gone no send, receive or async producer step ever completes again: the call must still end")
def _(case, x):
    backend, kind, n, spec, mode, inc = case
    bound = 1 if x.tier == "quick" else 2
    if backend == "asyncio":
        bound += 1
    x.explore(lambda ch: execute(x, ch, kind, n, None, "boom", spec, mode, True, None, backend, list(inc), 1), bound)


def cases_fail(tier):
    for backend in ("asyncio", "trio"):
        for kind in ("agen", "gen", "eager"):
            for n in range(0, 4):
                for at in range(0, n + 2):
                    for spec in ("2.0", "2.3", "2.4", "2.5", "2.10", "3.0"):
                        for exc in ("TransportError", "ConnectionResetError", "Boom"):
                            if backend == "trio" and (n > 1 or exc == "ConnectionResetError"):
                                continue
                            yield (backend, kind, n, at, spec, exc)


@C.family("send-failure", cases_fail, "the k-th send fails, for every k, spec generation and exception type, on every schedule with <=1 early completion")
def _(case, x):
    backend, kind, n, at, spec, exc = case
    cls = {"TransportError": asgi.TransportError, "ConnectionResetError": ConnectionResetError, "Boom": Boom}[exc]
    norm = "2.4" if spec in ("2.4", "2.5", "2.10", "3.0") else spec

    def run(ch):
        execute(x, ch, kind, n, None, "boom", norm if norm == spec else spec, "s", False, (at, cls), backend, [b""], 1, background=True)

    if norm != spec:
        # newer spec versions behave like 2.4
        def run(ch):  # noqa: F811
            env = rt.Env(ch, early=1)
            log = []
            src, _ = producer(kind, n, None, env, log, "boom")
            srv = asgi.Server(env=env, gate="s", log=log, fail_at=at, fail_exc=cls)
            with rt.vthreads("env"):
                async def main():
                    await StreamingResponse(src)(asgi.scope(spec=spec), srv.receive, srv.send)
                out = rt.run(main, env, backend)
            asgi.settled(out)
            want = ClientDisconnect if issubclass(cls, OSError) else cls
            x.check(type(out.exc) is want, "failed send surfaced as %r" % (out.exc,), log)
            x.outcome((tuple(log), type(out.exc).__name__))

    x.explore(run, 1 if backend == "asyncio" else 0)
