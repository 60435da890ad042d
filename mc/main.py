from __future__ import annotations

import argparse
import contextlib
import faulthandler
import importlib
import io
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.path.join(HERE, "mc") in sys.path:
    sys.path.remove(os.path.join(HERE, "mc"))

from mc import core, loader  # noqa: E402

import logging  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def load_findings(pid):
    """Known findings of this property: {key: text}. Committed file, never written here."""
    path = os.path.join(HERE, "known-findings.txt")
    found = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                key, _, text = rest.partition(" ")
                if key.startswith("key="):
                    found[key[4:]] = text
    return found


QUICK_S = 700  # a quick run that takes longer stops here and reports what is left as capped


class KnownFinding(Exception):
    pass


def run_case(fam, idx, case, tier, forced=None):
    x = core.Ctx(fam.name, idx, tier, forced)
    err = None
    core.arm()
    try:
        fam.run(case, x)
    except core.Violation as exc:
        err = ("violation", str(exc), traceback.format_exc())
    except core.Stuck as exc:
        err = ("livelock", str(exc), traceback.format_exc())
    except MemoryError:
        err = ("memory", "execution exhausted its memory limit", traceback.format_exc())
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:
        err = ("exception", "%s: %s" % (type(exc).__name__, str(exc)[:500]), traceback.format_exc())
    finally:
        core.disarm()
    return x, err


def stdio_closed_imports():
    pass


def worker(wid, check, tier, t0, counter, vmin, vtime, conn, only, chunk, current):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    core.install_watchdog()
    stats = []
    violations = []
    deadline = t0 + QUICK_S if tier == "quick" else float("inf")
    core.stop = lambda: time.time() > (deadline if vmin.value < 0 else min(deadline, vtime.value + 30))
    base = 0
    try:
        plan = []
        for fam in check.families:
            if only and fam.name not in only:
                continue
            plan.append(fam)
        st = None
        lo = hi = -1
        gidx = -1
        for fi, fam in enumerate(plan):
            st = dict(family=fam.name, cases=0, executions=0, states=0, transitions=0, validated=0,
                      diverged=0, capped=0, max_dev=0, samples=[], outcomes=set(), wall=0.0)
            stats.append(st)
            idx = -1
            for case in fam.cases(tier):
                idx += 1
                gidx += 1
                while gidx >= hi:
                    with counter.get_lock():
                        lo = counter.value
                        counter.value = lo + chunk
                    hi = lo + chunk
                if gidx < lo:
                    continue
                if vmin.value >= 0 and gidx > vmin.value:
                    continue
                if core.stop():  # (a simpler case that fails would be nicer to report, but not at any price)
                    st["capped"] += 1
                    continue
                current[wid] = gidx
                t0 = time.perf_counter()
                x, err = run_case(fam, idx, case, tier)
                st["wall"] += time.perf_counter() - t0
                st["cases"] += 1
                st["executions"] += max(x.executions, 1)
                st["states"] += len(x.states)
                st["transitions"] += x.transitions
                st["validated"] += x.validated
                st["diverged"] += x.diverged
                st["capped"] += x.capped
                st["max_dev"] = max(st["max_dev"], x.max_dev)
                if len(st["outcomes"]) < 300000:
                    st["outcomes"] |= x.outcomes
                if len(st["samples"]) < 2 and (x.sample is not None or idx % 97 == 5 or idx == 0):
                    st["samples"].append(core.short([fam.name, case, x.sample], 700))
                if err:
                    choices = x.cur.choices() if x.cur is not None else None
                    violations.append(dict(gidx=gidx, family=fam.name, case_index=idx, case=core.short(case, 4000),
                                           choices=choices, kind=err[0], message=err[1], traceback=err[2]))
                    with vmin.get_lock():
                        if vmin.value < 0:
                            vtime.value = time.time()
                        if vmin.value < 0 or gidx < vmin.value:
                            vmin.value = gidx
        conn.send(("ok", stats, violations))
    except BaseException:
        conn.send(("error", traceback.format_exc(), violations))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    faulthandler.enable()
    loader.install()
    os.umask(0o022)
    from mc import rt

    rt.install()
    mod = importlib.import_module("checks." + args.pid.lower())
    check = mod.C
    assert check.pid == args.pid

    if args.replay:
        return replay(check, args.replay)

    scratch = None
    if hasattr(mod, "setup"):
        scratch = mod.setup()
    try:
        rc = drive(check, tier, seed, args, t0)
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    return rc


def replay(check, path):
    data = json.load(open(path))
    mod = importlib.import_module("checks." + check.pid.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    core.install_watchdog()
    try:
        for fam in check.families:
            if fam.name != data["family"]:
                continue
            for idx, case in enumerate(fam.cases(data["tier"])):
                if idx == data["case_index"]:
                    x, err = run_case(fam, idx, case, data["tier"], forced=data.get("choices"))
                    print("replayed %s %s case %d: %s" % (check.pid, fam.name, idx, core.short(case)))
                    if err:
                        print(err[0] + ": " + err[1])
                        print(err[2])
                        print("VIOLATION property=%s replay=%s" % (check.pid, path))
                        return 1
                    print("no violation")
                    return 0
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    print("case not found")
    return 2


def locate(check, tier, only, gidx):
    n = 0
    for fam in check.families:
        if only and fam.name not in only:
            continue
        for idx, case in enumerate(fam.cases(tier)):
            if n == gidx:
                return fam.name, idx, case
            n += 1
    return "?", -1, None


def drive(check, tier, seed, args, t0):
    ctx = multiprocessing.get_context("fork")
    counter = ctx.Value("q", 0)
    vmin = ctx.Value("q", -1)
    vtime = ctx.Value("d", 0.0)
    current = ctx.Array("q", [-1] * max(1, args.jobs), lock=False)
    jobs = max(1, args.jobs)
    procs = []
    sys.stdout.flush()
    chunk = getattr(check, "chunk", 1)
    for w in range(jobs):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(w, check, tier, t0, counter, vmin, vtime, s, args.family, chunk, current))
        p.start()
        s.close()
        procs.append((p, r))
    results = []
    errors = []
    died = []
    for w, (p, r) in enumerate(procs):
        try:
            kind, a, v = r.recv()
            results.append((kind, a, v))
            if kind == "error":
                errors.append(a)
        except EOFError:
            p.join()
            if current[w] >= 0:
                died.append((current[w], p.exitcode))
            errors.append("worker died with exit code %s" % p.exitcode)
        p.join()

    fams = {}
    order = []
    violations = []
    for kind, a, v in results:
        violations.extend(v)
        if kind != "ok":
            continue
        for st in a:
            f = fams.get(st["family"])
            if f is None:
                f = fams[st["family"]] = dict(st, samples=list(st["samples"]), outcomes=set(st["outcomes"]))
                order.append(st["family"])
            else:
                for k in ("cases", "executions", "states", "transitions", "validated", "diverged", "capped", "wall"):
                    f[k] += st[k]
                f["max_dev"] = max(f["max_dev"], st["max_dev"])
                f["outcomes"] |= st["outcomes"]
                f["samples"] += st["samples"]
    for gidx, code in died:
        fam, idx, case = locate(check, tier, args.family, gidx)
        violations.append(dict(gidx=gidx, family=fam, case_index=idx, case=core.short(case, 4000), choices=None, kind="killed",
                               message="the process executing this case died (exit code %s): killed, out of memory, or "
                               "not interruptible" % code, traceback=""))
    violations.sort(key=lambda v: v["gidx"])

    findings = load_findings(check.pid)
    known_hits = {}
    real = []
    for v in violations:
        key = v["message"].split("[finding:", 1)[1].split("]", 1)[0] if "[finding:" in v["message"] else None
        if key in findings:
            known_hits[key] = v
        else:
            real.append(v)

    outdir = os.path.join(HERE, "out", check.pid)
    os.makedirs(outdir, exist_ok=True)
    tot = dict.fromkeys(("cases", "executions", "states", "transitions", "validated", "diverged", "capped"), 0)
    for f in fams.values():
        for k in tot:
            tot[k] += f[k]
    wall = round(time.time() - t0, 2)
    samples = []
    for n in order:
        samples += fams[n]["samples"][:1]
    cov = dict(
        states=tot["states"],
        transitions=tot["transitions"],
        traces_validated_against_impl=tot["validated"],
        samples=samples[:12],
        exhaustive=not errors and not real and tot["diverged"] == 0 and tot["capped"] == 0,
        cases=tot["cases"],
        executions=tot["executions"],
        distinct_outcomes=len(set().union(*[f["outcomes"] for f in fams.values()])) if fams else 0,
        replay_divergences=tot["diverged"],
        capped_cases=tot["capped"],
        families=[
            dict(name=n, doc=[f.doc for f in check.families if f.name == n][0], cases=fams[n]["cases"],
                 executions=fams[n]["executions"], states=fams[n]["states"], transitions=fams[n]["transitions"],
                 validated=fams[n]["validated"], distinct_outcomes=len(fams[n]["outcomes"]),
                 max_deviations=fams[n]["max_dev"], cpu_s=round(fams[n]["wall"], 2))
            for n in order
        ],
    )
    ev = dict(property=check.pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=check.assumptions, wall_s=wall, violations=len(real))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", check.pid + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", check.pid + ".json"))

    for f in cov["families"]:
        print("  %-28s cases=%-7d executions=%-8d states=%-8d outcomes=%-6d dev<=%d cpu=%.1fs" % (
            f["name"], f["cases"], f["executions"], f["states"], f["distinct_outcomes"], f["max_deviations"], f["cpu_s"]))
    print("%s %s: cases=%d executions=%d states=%d transitions=%d validated=%d divergences=%d capped=%d wall=%.1fs" % (
        check.pid, tier, tot["cases"], tot["executions"], tot["states"], tot["transitions"], tot["validated"],
        tot["diverged"], tot["capped"], wall))
    for key in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (check.pid, findings[key]))
    if real:
        shown = real if args.verbose else real[:3]
        for v in shown:
            path = os.path.join(outdir, "%s-%d.json" % (v["family"].replace("/", "_"), v["case_index"]))
            with open(path, "w") as fh:
                json.dump(dict(v, property=check.pid, tier=tier, how="./check %s --replay %s" % (check.pid, path)), fh, indent=1)
            print("---- %s %s case %d (%s)" % (check.pid, v["family"], v["case_index"], v["kind"]))
            print("case: " + v["case"][:600])
            if v["choices"]:
                print("choices: %s" % v["choices"])
            print(v["message"][:3000])
            if v["kind"] != "violation" or args.verbose:
                print(v["traceback"][-2500:])
            print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e[-3000:])
        return 3
    if tot["cases"] == 0:
        print("ERROR: no case was run")
        return 3
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
