"""C16: run time records are truthful and reach the requested log, and tracking never changes what a call does."""

import importlib
import logging
import os
import re

from dst import disk, sim, simclock
from dst.runner import Out

import artist.util as autil

LINE = re.compile(r"(\w+) (started|finished in (\d+\.\d+)\s*s)")
ERRORS = {"value": ValueError, "key": KeyError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "os": OSError, "stop": StopIteration}


class Clock:
    """Elapsed time is that of the simulated process; the wall clock may be off and be set at any time."""

    def __init__(self, proc, jumps):
        self.p, self.jumps = proc, jumps

    def elapsed(self):
        return 5000.0 + self.p.clock

    def wall(self):
        return 1.7e9 + self.p.clock + sum(d for t, d in self.jumps if t <= self.p.clock)

    def cpu(self):
        return 3.0


class Collect(logging.Handler):
    def __init__(self, k, into):
        super().__init__()
        self.k, self.into = k, into

    def emit(self, record):
        self.into.setdefault(self.k.current().rank, []).append(record.getMessage())


def parse(messages):
    """The start and finish records among messages; others are no claim about a run time."""
    got = []
    for m in messages:
        hit = LINE.search(m)
        if hit:
            got.append((hit.group(1), None if hit.group(3) is None else float(hit.group(3))))
    return got


def gen_call(rng, depth=0):
    steps = [rng.choice([0.0, 0.0004, 0.013, 0.4, 7.25, 3600.5, 100000.0]) if depth > 2 or rng.random() < 0.6 else gen_call(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return dict(fn=rng.randrange(3), steps=steps, error=rng.choice([None, None, None, rng.choice(sorted(ERRORS))]), catch=rng.random() < 0.7, n=rng.randrange(100))


class Check:
    id = "C16"
    level = "fault_injection"
    rule = (
        "track run = simulated ranks call tracked functions (nested, recursive, raising) under virtual clocks that are set forwards and backwards; file run = one or two simulated processes import ARTIST, choose log files and call tracked "
        "functions while the disk fails; non-trivial = nested, raising or interleaved calls, a clock jump, or a fault that fired"
    )
    measure = "hash of schedule trace or disk operations, and the records"
    real = ["track_runtime, set_runtime_logger and the import-time logger of artist.util, Python logging, file writes"]
    stub = ["clocks", "disk faults injected below the C library"]
    assumptions = ["a record may be missing after a failed write, a false one may not be there"]
    tiers = {"quick": dict(cases=420, wall=60), "thorough": dict(cases=20000, wall=900)}

    def gen(self, rng, i, tier):
        if i % 3:
            w = rng.choice([1, 2, 3, 5])
            return dict(
                kind="track",
                ranks=w,
                calls=[[gen_call(rng) for _ in range(rng.randint(1, 3))] for _ in range(w)],
                sched=sim.gen_sched(rng, w),
                level=rng.choice([20, 20, 20, 10, 30, 50]),
                jumps=[[round(rng.uniform(0, 10), 2), rng.choice([-86400.0, -3.5, 0.7, 3600.0])] for _ in range(rng.choice([0, 1, 3]))],
            )
        steps = []
        for _ in range(rng.randint(1, 6)):
            steps.append(["log", rng.choice(["a.log", "deep/er/b.log", "runtime_log.txt", "c.log"])] if rng.random() < 0.4 else ["call", rng.choice([None, None, rng.choice(sorted(ERRORS))])])
        steps.append(["call", None])
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice(["errno", "errno", "errno", "short", "eintr"])
            faults.append(dict(op=rng.randint(0, 18), kind=kind, errno=rng.choice(["EIO", "ENOSPC", "EROFS", "EACCES"])) if kind == "errno" else dict(op=rng.randint(0, 18), kind=kind))
        return dict(kind="file", steps=steps, faults=faults, capacity=rng.choice([None, None, None, 0, 60, 200]), second=rng.random() < 0.3, order=rng.randrange(1 << 30), relative=rng.random() < 0.5)

    def run(self, case):
        return self.track(case) if case["kind"] == "track" else self.file(case)

    # ------------------------------------------------------------ ranks and clocks
    def track(self, case):
        out = Out()
        w = case["ranks"]
        job = sim.Job(w, case["sched"])
        logger = logging.getLogger("dst.c16")
        logger.propagate = False
        logger.setLevel(case["level"])
        records, truth = {}, {}
        handler = Collect(job.k, records)
        logger.handlers = [handler]
        fns = []

        def make(name):
            def fn(call, *rest, key=None):
                p = job.k.current()
                mine = truth.setdefault(p.rank, [])
                mine.append((name, None))
                begin = p.clock
                for s in call["steps"]:
                    if isinstance(s, dict):
                        use(p, s)
                    else:
                        p.clock += s
                        job.k.point("work")
                if call["error"]:
                    err = ERRORS[call["error"]](f"call {call['n']}")
                    p.data["raised"] = err
                    raise err
                mine.append((name, p.clock - begin))
                return [call["n"], rest, key]

            fn.__name__ = name
            fn.__doc__ = f"doc of {name}"
            return fn

        def use(p, call):
            """Call a tracked function; its result or exception has to be the function's own."""
            mark = object()
            p.data["raised"] = None
            try:
                got = fns[call["fn"]](call, mark, 3, key=mark)
            except BaseException as e:  # noqa: BLE001
                if p.data["raised"] is None or e is not p.data["raised"]:
                    if isinstance(e, (AssertionError, *ERRORS.values(), RuntimeError, TypeError, NameError, AttributeError, UnboundLocalError)):
                        p.data.setdefault("bad", f"a tracked function raised {type(e).__name__} instead of " + (type(p.data["raised"]).__name__ if p.data["raised"] else "returning"))
                    raise
                if not call["catch"]:
                    raise
                return
            if p.data["raised"] is not None and call["error"]:
                p.data.setdefault("bad", f"{type(p.data['raised']).__name__} raised by a tracked function disappeared")
            if not (isinstance(got, list) and len(got) == 3 and got[0] == call["n"] and got[1] == (mark, 3) and got[2] is mark):
                p.data.setdefault("bad", "a tracked function did not return what the function returned")

        for name in ("load", "trace_rays", "load_again"):
            fns.append(autil.track_runtime(logger)(make(name)))
        meta = [f.__name__ for f in fns] == ["load", "trace_rays", "load_again"]

        def body(p):
            simclock.use(Clock(p, case["jumps"]))
            try:
                for call in case["calls"][p.rank]:
                    try:
                        use(p, call)
                    except tuple(ERRORS.values()):
                        pass
            finally:
                simclock.use(None)

        job.run(body)
        logger.handlers = []
        job.account(out)
        out.nontrivial = w > 1 or bool(case["jumps"]) or any(isinstance(s, dict) for c in sum(case["calls"], []) for s in c["steps"])
        out.stats["fault:clock_jump"] += len(case["jumps"])
        for p in job.procs:
            if p.data.get("bad"):
                return out.fail("outcome", f"rank {p.rank}: {p.data['bad']}")
        if job.outcomes() != ["ok"] * w:
            return out.fail("outcome", f"{w} ranks: {job.describe()}")
        if not meta:
            return out.fail("outcome", "a tracked function lost its name")
        for r in range(w):
            got, want = parse(records.get(r, [])), truth.get(r, [])
            if case["level"] > 20:
                want = []
            if [(n, d is None) for n, d in got] != [(n, d is None) for n, d in want]:
                return out.fail("records", f"rank {r}: {len(want)} starts and finishes happened, the log has {len(got)}" if len(got) != len(want) else f"rank {r}: the log names other starts and finishes than happened")
            for (n, d), (_, t) in zip(got, want):
                if t is not None and abs(d - t) > 2e-3 + 1e-6 * t:
                    return out.fail("duration", f"rank {r}: {n} took {t:.3f} s, the log says {d:.3f} s")
            out.stats["records"] += len(want)
        return out

    # ------------------------------------------------------------ processes and disks
    def file(self, case):
        out = Out()

        def process(folder, tag):
            def go():
                os.chdir(folder)
                runtime = logging.getLogger("artist.runtime")
                runtime.handlers.clear()
                said = []
                try:
                    util = importlib.reload(autil)
                except BaseException as e:  # noqa: BLE001
                    return dict(imported=type(e).__name__, said=said)
                logger = util.runtime_log
                current, truth, calls, logs = {"runtime_log.txt"}, {}, [], []
                for n, (what, arg) in enumerate(case["steps"]):
                    if what == "log":
                        try:
                            logger = util.set_runtime_logger(arg if case["relative"] else os.path.join(folder, arg))
                            current = {os.path.normpath(arg)}
                            logs.append("ok")
                        except OSError as e:
                            current = current | {os.path.normpath(arg)}  # either is fine, nothing was promised
                            logs.append(type(e).__name__)
                        except BaseException as e:  # noqa: BLE001
                            logs.append("!" + type(e).__name__)
                        continue
                    name = f"job_{tag}{n}"

                    def fn(x):
                        if arg:
                            raise ERRORS[arg](x)
                        return x + 1

                    fn.__name__ = name
                    for c in sorted(current):
                        truth.setdefault(c, []).append([name, "started"])
                    try:
                        r = util.track_runtime(logger)(fn)(41)
                    except BaseException as e:  # noqa: BLE001
                        calls.append([arg, type(e).__name__, 0])
                    else:
                        for c in sorted(current):
                            truth[c].append([name, "finished"])
                        calls.append([arg, None, r])
                return dict(imported=None, truth=truth, calls=calls, logs=logs)

            return go

        with disk.Scratch() as folder:
            with open(os.path.join(folder, "a.log"), "w") as f:
                f.write("an earlier run\n")
            if case["second"]:
                kids = [disk.Child(process(folder, t), folder, case["faults"] if t == "x" else (), None, tokens=True) for t in "xy"]
                import random

                rng = random.Random(case["order"])
                live = list(kids)
                while live:
                    c = rng.choice(live)
                    if c.next_op() is None:
                        live.remove(c)
                    else:
                        c.go()
                results = [c.wait() for c in kids]
            else:
                results = [disk.run(process(folder, "x"), folder, case["faults"], case["capacity"])]
            written = {}
            for root, _, names in os.walk(folder):
                for n in names:
                    with open(os.path.join(root, n), errors="replace") as f:
                        written[os.path.relpath(os.path.join(root, n), folder)] = f.read().split("\n")
        fired = results[0].fired > 0 or case["capacity"] is not None
        for f in case["faults"][: results[0].fired]:
            out.stats[f"fault:{f['kind']}"] += 1
        out.nontrivial = fired or case["second"]
        out.sig = "file:" + "/".join(r.ops for r in results) + repr(case["steps"])
        for t, r in zip("xy", results):
            if r.outcome != "ok":
                return out.fail("outcome", f"process {t} ended with {r.outcome}: {r.error[0] if r.error else ''}")
            v = r.value
            if v["imported"]:
                return out.fail("outcome", f"importing ARTIST raised {v['imported']} because its log could not be opened")
            for want, err, val in v["calls"]:
                if err != (ERRORS[want].__name__ if want else None):
                    return out.fail("outcome", f"a tracked call ended with {err}, the function with {ERRORS[want].__name__ if want else 'a result'}")
                if not want and val != 42:
                    return out.fail("outcome", "a tracked call returned something else than the function")
            for x in v["logs"]:
                if x.startswith("!") or (x != "ok" and not fired):
                    return out.fail("outcome", f"choosing a log file raised {x.lstrip('!')}" + ("" if fired else " on a healthy disk"))
        if not fired and written.get("a.log", [""])[0] != "an earlier run":
            return out.fail("records", "records of an earlier run were removed")
        for t, r in zip("xy", results):
            for name in set(written) | set(r.value["truth"]):
                got = [[m.group(1), m.group(2).split(" ")[0]] for line in written.get(name, []) for m in [LINE.search(line)] if m and m.group(1).startswith(f"job_{t}")]
                want = r.value["truth"].get(name, [])
                faulted = fired and t == "x"
                if got != want and not (faulted and subsequence(got, want)):
                    return out.fail("records", f"process {t}: {name} has {len(got)} of {len(want)} records" if len(got) < len(want) else f"process {t}: {name} has records of calls that did not happen so or belong elsewhere")
                out.stats["records"] += len(got)
        return out

    def shrink(self, case):
        if case["kind"] == "file":
            yield from sim.shrink_list(case, "faults")
            yield from sim.shrink_list(case, "steps")
            if case["second"]:
                yield {**case, "second": False}
            return
        yield from sim.shrink_sched(case)
        yield from sim.shrink_list(case, "jumps")
        for r in range(case["ranks"]):
            for j in range(len(case["calls"][r])):
                if len(case["calls"][r]) > 1:
                    calls = [list(c) for c in case["calls"]]
                    del calls[r][j]
                    yield {**case, "calls": calls}


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


CHECK = Check()
