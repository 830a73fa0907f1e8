"""C14: every simulate call returns the requested number of well-formed outcomes, and no
outcome holds more (or, without losses, fewer) particles than the input."""
import os
import tempfile

import numpy as np

from checks.c10 import lossy_spec
from vlib import extreme, gen, sut

PROPERTY = "C14"
REQUIRED = tuple("calls:" + k for k in sut.SAMPLERS) + tuple(
    "extreme:" + k for k in sut.SAMPLERS if k not in ("fixed", "uniform")) + (
    "zero_requested", "large_requests", "odd_workers", "default_count", "not_divisible_by_workers", "fewer_samples_than_workers",
    "facade", "many_particles")
RULE = (
    "every sampler x random networks and inputs x requested numbers of samples (0, 1, more or fewer than "
    "the worker processes, not divisible by them), several calls per object; every outcome is checked for "
    "type, length, integer occupations and the particle number; the same with random generators that "
    "are forced to their extreme draws (0 and 1-2^-53), in this process and in the worker processes; "
    "non-trivial: at least 2 particles, or a boundary number of samples"
)
ASSUMPTIONS = ("fixed-loss samplers are not checked at forced extreme draws: losing a particle at the "
               "top of the cumulative distribution is within their rounding",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "array32", "npints")
CASE_TIMEOUT = 300
TIMER = "real"
BUDGET = {"quick": 320, "thorough": 2400}
LOSSLESS = ("gcc_a", "gcc_ma", "gcc_b")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _one(rng, who, big):
    lossy_net = who in ("lossynet", "bobs", "fixed", "uniform")
    m = int(rng.integers(1, 7))
    n = int(rng.choice([0, 1, 2, 3, 4, 5], p=[.05, .15, .25, .25, .2, .1]))
    if who in ("gcc_b", "gcc_b_ul", "ubobs") and big:
        m = int(rng.integers(5, 26))
    if who == "gcc_ma":
        n = min(n, 4)
    c = {"who": who, "in": gen.random_state(rng, n, m), "form": str(rng.choice(FORMS)),
         "calc": str(rng.choice(CALC)) if n < 4 else "ryser",
         "eta": float(rng.choice([0.0, 1.0, round(float(rng.random()), 3)], p=[.1, .25, .65])),
         "left": int(rng.integers(0, n + 1)), "approx": int(rng.integers(0, m + 1)),
         "h": int(rng.integers(0, m + 1)), "threads": 1}
    c["matrix"] = (lossy_spec(rng, m) if lossy_net and rng.random() < 0.5
                   else gen.random_unitary_spec(rng, m))
    return c


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []
    cheap = [w for w in sut.SAMPLERS if not sut.SAMPLERS[w][0]]
    for j in range(640 * k):
        c = _one(rng, cheap[j % len(cheap)], j % 3 == 0)
        c["counts"] = [int(rng.choice([0, 1, 2, 3, 7, 10, 25, 100, 331])) for _ in range(3)]
        if j % 11 == 0:
            c["counts"].append(None)
        c["k"] = "count"
        c["facade"] = bool(rng.random() < 0.3)
        out.append(c)
    for j in range(960 * k):
        c = _one(rng, [w for w in cheap if w not in ("fixed", "uniform")][j % 6], j % 3 == 0)
        c.update(k="extreme", kind=["high", "low", "alternate", "alternate2"][(j // 6) % 4], counts=[5])
        out.append(c)
    for j in range(240 * k):  # impossible outcomes to which rounding gives a tiny probability
        c = _one(rng, ("gcc_a", "gcc_ma", "gcc_a_ul", "gcc_b", "gcc_b_ul", "lossynet")[j % 6], False)
        m = int(rng.integers(2, 5))
        c.update(k="extreme", kind=["low", "low", "alternate", "alternate2"][(j // 6) % 4], counts=[5], calc="ryser",
                 matrix=gen.random_unitary_spec(rng, m, ("rot",) if j % 6 == 5 else ("hadam", "block", "phaseperm", "rot")),
                 eta=.999)
        c["in"] = gen.random_state(rng, int(rng.integers(2, 5)), m)
        out.append(c)
    counts = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 31, 100]
    for j in range(44 * k):
        c = _one(rng, ("bobs", "ubobs")[j % 2], False)
        t = int(rng.choice([1, 2, 3, 4, 5, 7, 8, -1], p=[.05, .2, .2, .15, .1, .1, .1, .1]))
        c.update(k="count", threads=t, counts=[int(rng.choice(counts)), int(rng.choice(counts[1:]))],
                 facade=bool(rng.random() < 0.3), calc="ryser")
        if j % 10 == 0:
            c["counts"].append(None)
        out.append(c)
    for j in range(8 * k):  # numbers of workers that make no sense
        c = _one(rng, ("bobs", "ubobs")[j % 2], False)
        c.update(k="count", threads=[0, -7, 1000, (os.cpu_count() or 1) + 1][(j // 2) % 4], calc="ryser",
                 counts=[int(rng.choice(counts[1:]))], facade=False)
        out.append(c)
    for j in range(len(sut.SAMPLERS) * max(1, k // 4)):  # many samples
        who = list(sut.SAMPLERS)[j % len(sut.SAMPLERS)]
        c = _one(rng, who, False)
        m = int(rng.integers(1, 3))
        c.update(k="count", counts=[int(rng.integers(4100, 5200) if sut.SAMPLERS[who][0] else rng.integers(65600, 66000) if who in ("gcc_a", "fixed") else rng.integers(20010, 22000))],
                 threads=1, facade=False, calc="ryser", matrix=gen.random_unitary_spec(rng, m, ("haar",)),
                 approx=int(rng.integers(0, m + 1)), h=int(rng.integers(0, m + 1)), left=1)
        c["in"] = gen.random_state(rng, 1, m)
        out.append(c)
    for j in range(32 * k):  # more particles in a mode than a byte can count
        who = ("fixed", "uniform")[j % 2]
        m, n = int(rng.integers(1, 4)), int(rng.integers(130, 420))
        c = _one(rng, who, False)
        c.update(k="count", counts=[5], facade=False, form=str(rng.choice(["list", "array", "tuple"])), many=1,
                 matrix={"t": ("phaseperm", "haar")[j // 2 % 2], "m": m, "s": int(rng.integers(1 << 30))},
                 eta=(1.0, .9)[j // 4 % 2], left=n - int(rng.integers(0, 3)))
        c["in"] = gen.random_state(rng, n, m, "bunch1")
        out.append(c)
    for j in range(24 * k):  # more particles than 64 bits can order
        who = ("gcc_a", "gcc_ma", "gcc_a_ul", "gcc_b", "gcc_b_ul", "lossynet", "bobs", "ubobs")[j % 8]
        n = int(rng.integers(20, 26))
        c = _one(rng, who, False)
        c.update(k="count", counts=[3, 8], facade=bool(j % 3 == 0), calc="chinhuh", threads=1, approx=int(rng.integers(0, 3)),
                 h=int(rng.integers(0, 3)), eta=(1.0, 1.0, .9)[j // 8 % 3], matrix=gen.random_unitary_spec(rng, 2, ("haar", "orth", "phaseperm")))
        c["in"] = gen.random_state(rng, n if who != "ubobs" or c["h"] == 0 else 13, 2)
        out.append(c)
    for j in range(24 * k):
        c = _one(rng, ("bobs", "ubobs")[j % 2], False)
        c.update(k="extreme", kind=["high", "low", "alternate"][(j // 2) % 3], threads=1, counts=[4], calc="ryser")
        if sum(c["in"]) == 0:
            c["in"][0] = 2
        out.append(c)
    return out


def _simulate(case, s, state, count):
    run = sut.BosonSamplingSimulator(s).get_classical_simulation_results if case.get("facade") else s.simulate
    return run(state) if count is None else run(state, count)


def run_case(case, mon):
    who, i = case["who"], case["in"]
    m, n = len(i), sum(i)
    u = gen.build_matrix(case["matrix"])
    state = gen.as_state(i, case["form"])
    spawns = sut.SAMPLERS[who][0]
    with mon.code("construct " + who):
        s = sut.sampler(who, u, i, case["calc"], eta=case["eta"], left=case["left"], approx=case["approx"],
                        h=case["h"], threads=case["threads"])
    unitary = "eta" not in case["matrix"]
    workers = case["threads"] if 0 < case["threads"] <= os.cpu_count() else os.cpu_count()
    mon.count("odd_workers", int(spawns and workers != case["threads"] != -1))
    mon.count("many_particles", int("many" in case))
    kept = []
    for count in case["counts"]:
        asked = 1 if count is None else count
        with mon.code(who):
            if case["k"] == "extreme" and spawns:
                got = _in_extreme_workers(case, mon, s, state, count)
            else:
                if case["k"] == "extreme":
                    extreme.arm(case["kind"])
                got = _simulate(case, s, state, count)
        ctx = "%s: input %s, %d requested%s" % (
            who, i, asked, ", %s draws" % case["kind"] if case["k"] == "extreme" else "")
        mon.check(len(got) == asked, "samples-number:" + who, "%d outcomes (%s)" % (len(got), ctx))
        out = sut.clean(mon, who, got, m)
        kept.append((got, list(out)))
        for t in out:
            total = sum(t)
            if who in LOSSLESS:
                ok = total == n
            elif who == "fixed":
                ok = total == case["left"] if unitary else total <= case["left"]
            elif who in ("gcc_a_ul", "gcc_b_ul", "ubobs", "uniform") and case["eta"] == 1 and unitary:
                ok = total == n
            elif who in ("gcc_a_ul", "gcc_b_ul", "ubobs", "uniform") and case["eta"] == 0:
                ok = total == 0
            else:
                ok = total <= n
            mon.check(ok, "particles-number:" + who, "outcome %s with %d particles (%s)" % (t, total, ctx))
        mon.count("samples:" + who, len(out))
        mon.count("calls:" + who)
        mon.count("zero_requested", int(count == 0))
        mon.count("large_requests", int(asked > 4096))
        mon.count("default_count", int(count is None))
        mon.count("facade", int(bool(case.get("facade"))))
        if case["k"] == "extreme":
            mon.count("extreme:" + who)
        if spawns and asked:
            mon.count("not_divisible_by_workers", int(asked % workers != 0))
            mon.count("fewer_samples_than_workers", int(asked < workers))
    for got, before in kept:  # later calls must not touch what was returned earlier
        mon.check(sut.loose(got) == before, "returned-samples-changed:" + who,
                  "%s: the outcomes returned by an earlier call changed during a later call" % who)
    mon.see("calls", [who, i, case["counts"], case["k"]])
    if n >= 2 or 0 in case["counts"]:
        mon.see("nontrivial", [who, i, case["counts"], case["matrix"], case.get("kind")])
        mon.sample({"sampler": who, "in": i, "requested": case["counts"], "threads": case["threads"],
                    "returned_first": kept[-1][1][:2]})


def _in_extreme_workers(case, mon, s, state, count):
    fd, log = tempfile.mkstemp(prefix="verif-extreme-")
    os.close(fd)
    old = {k: os.environ.get(k) for k in ("PYTHONPATH", "VERIF_EXTREME", "VERIF_EXTREME_LOG")}
    os.environ.update(PYTHONPATH=os.path.join(HERE, "inject") + os.pathsep + (old["PYTHONPATH"] or ""),
                      VERIF_EXTREME=case["kind"], VERIF_EXTREME_LOG=log)
    try:
        got = s.simulate(state, count)
        with open(log) as f:
            mon.count("injected_workers", len(f.readlines()))
        return got
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        os.remove(log)
