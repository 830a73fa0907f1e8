#!/usr/bin/env python
"""
Entry point of every check:

    run.py C08                       (tier and seed from VERIF_TIER / VERIF_SEED)
    run.py C08 --replay replays/C08-....json
"""
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _load(pid):
    import importlib

    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    return importlib.import_module("checks." + pid.lower())


# how often a quick run generates its cases: cheap checks explore more
ROUNDS = {"C01": 4, "C02": 8, "C03": 20, "C04": 6, "C05": 20, "C06": 3, "C09": 2, "C15": 2, "C16": 5, "C17": 3,
          "C18": 5, "C19": 15, "C20": 3, "C21": 2, "C22": 10, "C23": 3, "C25": 6, "C26": 3, "C27": 3, "C28": 8,
          "C29": 4, "C30": 5}


def _cases(mod, pid, seed, tier):
    import numpy as np

    cs = []
    for j in range(ROUNDS.get(pid, 1) if tier == "quick" else 1):
        rng = np.random.default_rng([seed, int(pid[1:])] + [j] * (j > 0))
        more = mod.cases(rng, tier)
        for c in more:
            c.setdefault("seed", int(rng.integers(1 << 31)))
        cs += more
    for i, c in enumerate(cs):
        c["id"] = i
    return cs


def worker(pid, tier, seed, shard, shards, out, deadline):
    import json
    import time

    mod = _load(pid)
    from vlib import monitor as M

    import theboss

    assert os.path.realpath(theboss.__path__[0]).startswith(
        os.path.realpath(REPO) + os.sep
    ), theboss.__path__
    mon = M.Monitor()
    timeout = getattr(mod, "CASE_TIMEOUT", 60)
    if tier == "quick":
        # a case that hangs costs 3 * timeout; the whole check has to stay below 900 s
        timeout = min(timeout, 100)
    stop = os.path.join(os.path.dirname(out), "stop")
    timer = getattr(mod, "TIMER", "cpu")
    res = {"violations": [], "errors": [], "inconclusive": [], "done": 0, "skipped": 0}
    res["slowest"] = 0.0
    known = _known(pid)

    def dump():
        res["counts"] = dict(mon.counts)
        res["distinct"] = {k: sorted(v) for k, v in mon.distinct.items()}
        res["samples"] = mon.samples
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    import random as _random

    mine = [c for c in _cases(mod, pid, seed, tier) if c["id"] % shards == shard]
    # every group of cases is reached, also where the machine is too slow for all of them
    _random.Random(seed).shuffle(mine)
    for c in mine:
        if os.path.exists(stop):
            break
        if time.time() > deadline:
            res["skipped"] += 1
            continue
        started = time.time()
        status, info = M.run_one(mod, c, mon, timeout, timer)
        if status == "timeout" and info["in_code"]:
            status, info = M.run_one(mod, c, mon, 2 * timeout, timer)
            if status == "timeout" and info["in_code"]:
                status = "violation"
                info = {
                    "key": "no-progress:%s" % c.get("k", "?"),
                    "message": info["message"],
                    "details": {},
                }
        res["done"] += 1
        res["slowest"] = max(res["slowest"], time.time() - started)
        if status == "violation":
            info["case"] = M._jsonable(c)
            res["violations"].append(info)
            if info["key"] not in known:
                # the verdict is settled: no shard needs to start another case
                dump()
                open(stop, "w").close()
                break
        elif status == "error":
            res["errors"].append({"case": M._jsonable(c), "message": info["message"]})
            if len(res["errors"]) > 3:
                break
        elif status == "timeout":
            res["inconclusive"].append({"case": M._jsonable(c), "message": info["message"]})
    dump()


def _known(pid):
    """finding: property=C06 key=<mechanism> <what fails>"""
    d = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                d[key] = what
    return d


def main():
    import argparse
    import json
    import subprocess
    import tempfile
    import time
    from collections import Counter

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=4)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.worker:
        shard, shards, out, deadline = a.worker
        worker(a.pid, tier, a.seed, int(shard), int(shards), out, float(deadline))
        return 0

    mod = _load(a.pid)
    if a.replay:
        from vlib import monitor as M

        case = json.load(open(a.replay))["case"]
        mon = M.Monitor()
        st, info = M.run_one(mod, case, mon, 600, "real")
        print(st, json.dumps(info, indent=1) if info else "")
        return 1 if st == "violation" else (0 if st == "ok" else 2)

    t0 = time.time()
    budget = getattr(mod, "BUDGET", {}).get(tier, 300 if tier == "quick" else 1800)
    if tier == "quick":
        budget = max(budget, 420)
    shards = getattr(mod, "SHARDS", 8)
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO, PYTHONHASHSEED="0", VERIF_TIER=tier, VERIF_SEED=str(a.seed)
    )
    procs = []
    try:
        for i in range(shards):
            out = os.path.join(work, "%d.json" % i)
            log = open(os.path.join(work, "%d.log" % i), "w+")
            p = subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), a.pid, "--tier", tier]
                + ["--seed", str(a.seed), "--worker", str(i), str(shards), out]
                + [str(t0 + budget)],
                cwd=work,
                env=env,
                stdout=log,
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
            procs.append((p, out, log))
        results, lost = [], []
        hard = t0 + (min(budget + 400, 850) if tier == "quick" else budget + 3000)
        stop, stopped = os.path.join(work, "stop"), False
        while time.time() < hard and any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.05)
            if not stopped and os.path.exists(stop):
                stopped, hard = True, min(hard, time.time() + 20)
        for i, (p, out, log) in enumerate(procs):
            _killpg(p)
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                log.seek(0)
                lost.append("shard %d rc=%s\n%s" % (i, p.returncode, log.read()[-3000:]))
            log.close()
    finally:
        for p, _, _ in procs:
            _killpg(p)
        import shutil

        shutil.rmtree(work, ignore_errors=True)

    counts, distinct, samples = Counter(), {}, []
    viol, errs, inc = [], [], []
    done = skipped = 0
    for r in results:
        counts.update(r["counts"])
        for k, v in r["distinct"].items():
            distinct.setdefault(k, set()).update(v)
        samples += r["samples"][:2]
        viol += r["violations"]
        errs += r["errors"]
        inc += r["inconclusive"]
        done += r["done"]
        skipped += r["skipped"]

    known = _known(a.pid)
    fresh = [v for v in viol if v["key"] not in known]
    hit = sorted({v["key"] for v in viol if v["key"] in known})
    required = getattr(mod, "REQUIRED", ())
    missing = [k for k in required if counts.get(k, 0) == 0]

    for k in hit:
        print("KNOWN-FINDING: property=%s key=%s %s" % (a.pid, k, known[k]))
    rdir = os.path.join(HERE, "replays")
    lines = []
    for v in fresh[:5]:
        from vlib.monitor import stable_hash

        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(
            rdir, "%s-%s.json" % (a.pid, stable_hash([v["key"], v["case"]]))
        )
        with open(path, "w") as f:
            json.dump({"property": a.pid, "tier": tier, "run_seed": a.seed, **v}, f, indent=1)
        print("  %s: %s" % (v["key"], v["message"][:600]))
        lines.append("VIOLATION property=%s replay=%s" % (a.pid, path))
    for line in lines:
        print(line)

    nontrivial = len(distinct.get("nontrivial", ()))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": a.pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples[:6],
            "observed": dict(sorted(counts.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(distinct.items())},
            "cases_skipped_by_budget": skipped,
            "slowest_case_s": round(max([r["slowest"] for r in results] or [0]), 2),
            "known_findings_hit": hit,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(
        "%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct non-trivial, %.1f s"
        % (a.pid, tier, a.seed, done, counts["oracle_evaluations"], nontrivial, ev["wall_s"])
    )
    if fresh:
        return 1
    problems = []
    if errs:
        problems.append("harness errors: " + errs[0]["message"])
    if lost:
        problems.append("lost workers: " + lost[0])
    if inc:
        problems.append("timeouts outside the code under test: %r" % inc[0])
    if missing and not skipped:
        problems.append("monitors never reached: %s" % missing)
    elif missing:
        print("NOTE %d cases did not fit into the time; not reached: %s" % (skipped, missing))
    if done == 0 or skipped > done:
        problems.append("too little was run: %d done, %d skipped" % (done, skipped))
    if problems:
        for p in problems:
            print("INCONCLUSIVE", p)
        return 2
    return 0


def _killpg(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(5)
    except Exception:
        pass


if __name__ == "__main__":
    sys.exit(main())
