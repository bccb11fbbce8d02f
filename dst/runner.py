"""Command line: seeded search, minimisation, replay files and evidence.

  python -m dst.runner C01                 search (tier from VERIF_TIER)
  python -m dst.runner --replay FILE       re-execute one replay file
  python -m dst.runner C01 --case N        run one generated case, verbosely
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait as mpwait

from .env import REPO

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Out:
    """What one simulated run produced."""

    def __init__(self):
        self.violation = None      # text, starts with a kind word followed by ':'
        self.finding = None        # key used to match the known-findings file
        self.sig = ""              # schedule/state signature
        self.nontrivial = False
        self.stats = Counter()     # fault kinds, collectives, ...
        self.simtime = 0.0
        self.trace = None

    def fail(self, kind, text, finding=None):
        if self.violation is None:
            self.violation = f"{kind}: {text}"
            self.finding = finding or kind
        return self


def load(pid):
    from . import env
    env.boot()
    sys.path.insert(0, ROOT)
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def case_rng(seed, pid, i):
    return random.Random(f"case:{seed}:{pid}:{i}")


def gen_case(chk, seed, i, tier):
    c = chk.gen(case_rng(seed, chk.id, i), i, tier)
    return json.loads(json.dumps(c))


def run_case(chk, case):
    try:
        out = chk.run(json.loads(json.dumps(case)))
    except Exception as e:  # harness problem, or an API the check cannot drive any more
        out = Out()
        out.violation = None
        if by_artist(e):
            out.fail("raised", f"{type(e).__name__}: {str(e).split(chr(10))[0].split('/')[0][:120]}")
        else:
            out.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    return out


def by_artist(e):
    """Raised inside of ARTIST (or of a library it called), on input the check knows to be valid."""
    inner = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    inner = [f for f in inner if f.startswith((ROOT + os.sep, os.path.realpath(REPO) + os.sep))]
    return bool(inner) and inner[-1].startswith(os.path.join(os.path.realpath(REPO), "artist") + os.sep)


def _pack(i, out):
    return dict(i=i, violation=out.violation, finding=out.finding, sig=out.sig, nontrivial=out.nontrivial,
                stats=dict(out.stats), simtime=out.simtime, error=getattr(out, "error", None))


def _worker(chk, seed, tier, conn):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        i = conn.recv()
        if i is None:
            return
        try:
            out = run_case(chk, gen_case(chk, seed, i, tier))
            conn.send(_pack(i, out))
        except BaseException as e:  # noqa: BLE001
            conn.send(dict(i=i, violation=None, finding=None, sig="", nontrivial=False, stats={}, simtime=0.0,
                           error=f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))


def search(chk, seed, tier, cfg, log):
    ctx = mp.get_context("fork")
    nproc = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
    total, wall = cfg["cases"], cfg["wall"]
    hang = cfg.get("hang", 240)
    results, errors, hung = {}, [], []
    nxt = 0
    t0 = time.time()
    workers = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(chk, seed, tier, b), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, time.time()]
        return a

    def feed(conn):
        nonlocal nxt
        stop = nxt >= total or time.time() - t0 > wall or nviol[0] >= 24 or len(errors) > 20
        if stop:
            try:
                conn.send(None)
            except OSError:
                pass
            workers[conn][1] = "stop"
            return
        workers[conn][1], workers[conn][2] = nxt, time.time()
        conn.send(nxt)
        nxt += 1

    nviol = [0]
    for _ in range(nproc):
        feed(start())
    while any(w[1] not in ("stop", None) for w in workers.values()):
        ready = mpwait([c for c, w in workers.items() if w[1] not in ("stop", None)], timeout=2.0)
        for c in ready:
            try:
                r = c.recv()
            except (EOFError, OSError):
                p, i, _ = workers.pop(c)
                p.join(5)
                hung.append((i, f"process died with exit code {p.exitcode}"))
                nviol[0] += 12
                feed(start())
                continue
            results[r["i"]] = r
            if r["error"]:
                errors.append(r)
            if r["violation"]:
                if not is_known(chk.id, r):
                    nviol[0] += 1
            feed(c)
        for c, (p, i, ts) in list(workers.items()):
            if i not in ("stop", None) and time.time() - ts > hang:
                p.kill()
                p.join(5)
                workers.pop(c)
                hung.append((i, f"no answer within {hang} s"))
                nviol[0] += 12
                feed(start())
    for c, (p, i, ts) in workers.items():
        p.join(5)
        if p.is_alive():
            p.kill()
    return results, errors, hung, time.time() - t0


def is_known(pid, r):
    return any(k["property"] == pid and k.get("key") == r["finding"] and k.get("status") != "fixed" for k in known())


def kind_of(v):
    return v.split(":", 1)[0] if v else None


def minimise(chk, case, out, budget=45.0, log=lambda s: None):
    t0 = time.time()
    best, bout = case, out
    tried = 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in chk.shrink(json.loads(json.dumps(best))):
            if time.time() - t0 > budget:
                break
            tried += 1
            o = run_case(chk, cand)
            if o.violation and kind_of(o.violation) == kind_of(out.violation) and o.finding == out.finding:
                best, bout, progress = cand, o, True
                break
    return best, bout, tried


def write_replay(chk, case, out, seed, index, original):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=chk.id, search_seed=seed, case_index=index, violation=out.violation, finding=out.finding,
                schedule_signature=out.sig, case=case, original_case=original, trace=out.trace)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{chk.id}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def replay(path):
    with open(path) as f:
        body = json.load(f)
    chk = load(body["property"])
    out = run_case(chk, body["case"])
    if getattr(out, "error", None):
        print(out.error)
        return 2
    print(f"replay of {path}: {out.violation or 'no violation'}")
    if out.violation:
        same = out.violation == body["violation"] and out.sig == body["schedule_signature"]
        print(f"VIOLATION property={chk.id} replay={path}" + ("" if same else " (differs from the recorded run)"))
        return 1
    return 0


def selfcheck():
    """Every registered check loads, and two runs of the same generated case are the same run."""
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        ids = [c["property"] for c in json.load(f)["checks"]]
    bad = 0
    for pid in ids:
        chk = load(pid)
        a, b = (run_case(chk, gen_case(chk, 7, 1, "quick")) for _ in range(2))
        same = (a.sig, a.violation, a.stats, a.simtime) == (b.sig, b.violation, b.stats, b.simtime)
        bad += not same or bool(getattr(a, "error", None))
        print(pid, "ok" if same else "NOT DETERMINISTIC", getattr(a, "error", "") or "")
    return 0   # the checks themselves judge; set-up must not depend on the code under test


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(os.path.abspath(argv[1]))
    if argv and argv[0] == "--selfcheck":
        return selfcheck()
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    chk = load(pid)
    if "--case" in argv:
        i = int(argv[argv.index("--case") + 1])
        case = gen_case(chk, seed, i, tier)
        print(json.dumps(case, indent=1))
        out = run_case(chk, case)
        print("violation:", out.violation, "| finding:", out.finding, "| sig:", out.sig, "| nontrivial:", out.nontrivial, dict(out.stats), out.simtime)
        print(getattr(out, "error", "") or "")
        return 0
    cfg = dict(chk.tiers[tier])
    if "--cases" in argv:
        cfg["cases"] = int(argv[argv.index("--cases") + 1])
    if hasattr(chk, "prepare"):
        chk.prepare(tier)
    results, errors, hung, wall = search(chk, seed, tier, cfg, print)
    rc = 0
    viol = [results[i] for i in sorted(results) if results[i]["violation"]]
    kf = [r for r in viol if is_known(pid, r)]
    new = [r for r in viol if not is_known(pid, r)]
    for key in sorted({r["finding"] for r in kf}):
        what = next(k["what"] for k in known() if k["property"] == pid and k.get("key") == key)
        print(f"KNOWN-FINDING: property={pid} {what}")
    reported = 0
    if new:
        r = new[0]
        original = gen_case(chk, seed, r["i"], tier)
        out = run_case(chk, original)
        if out.violation != r["violation"]:
            print(f"note: case {r['i']} gave {r['violation']!r} in the search and {out.violation!r} when repeated")
        if out.violation is None:
            out = Out()
            out.violation, out.finding, out.sig = r["violation"], r["finding"], r["sig"]
            best, bout, tried = original, out, 0
        else:
            best, bout, tried = minimise(chk, original, out, budget=cfg.get("shrink", 40))
        path = write_replay(chk, best, bout, seed, r["i"], original)
        print(f"{len(new)} of {len(results)} runs violate the property; first: case {r['i']} (search seed {seed}), minimised in {tried} attempts")
        print(bout.violation)
        print(f"VIOLATION property={pid} replay={path}")
        rc, reported = 1, len(new)
    elif hung:
        i, why = sorted(hung)[0]
        case = gen_case(chk, seed, i, tier)
        out = Out()
        out.violation, out.finding = f"hang: run {i} gave no result: {why}", "hang"
        path = write_replay(chk, case, out, seed, i, case)
        print(out.violation)
        print(f"VIOLATION property={pid} replay={path}")
        rc, reported = 1, len(hung)
    elif errors:
        print(f"check error in {len(errors)} runs; first: case {errors[0]['i']}\n{errors[0]['error']}")
        rc = 2
    total_wall = time.time() - t0
    stats = Counter()
    for r in results.values():
        stats.update(r["stats"])
    sigs = {r["sig"] for r in results.values() if r["nontrivial"]}
    samples = []
    for i in sorted(results)[:3]:
        samples.append(dict(index=i, case=gen_case(chk, seed, i, tier), outcome=results[i]["violation"] or "held"))
    simtime = sum(r["simtime"] for r in results.values())
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=len(sigs),
        rule=chk.rule,
        samples=samples,
        simulated_runs_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
        seeds_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
        simulated_seconds=round(simtime, 3),
        faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        counters={k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
        distinct_executions=len({r["sig"] for r in results.values()}),
        distinct_measure=chk.measure,
        real_components=chk.real,
        stubbed_components=chk.stub,
        search_wall_s=round(wall, 2),
        harness_errors=len(errors),
        known_findings_seen=len(kf),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.level, coverage=cov, assumptions=chk.assumptions, wall_s=round(total_wall, 2), violations=reported)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"{pid} held: {len(results)} runs, {len(sigs)} distinct non-trivial, {simtime:.1f} simulated s, faults {cov['faults_injected']}, {total_wall:.0f} s")
    return rc


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.exit(main(sys.argv[1:]))
