"""C24: different objects that are used at the same time, in several threads, do not disturb
each other."""
import os
import random
import sys
import threading
import time

import numpy as np

from theboss import quantum_computations_utilities as qcu
from checks.c15 import Snapshots, _reference, image
from vlib import crash, gen, ref, sut
from vlib.sampling import monitored

PROPERTY = "C24"
INPROC = tuple(w for w in sut.SAMPLERS if not sut.SAMPLERS[w][0])
JOBS = INPROC + ("fixed calculator", "permanent", "submatrices", "states", "types", "lossy inputs", "conversions",
                 "distances", "dilation", "scattering", "accuracy", "factory", "sample-based calculator")
REQUIRED = tuple("requests:" + j for j in JOBS) + ("switches", "switches_inside_requests", "requests:bobs", "requests:ubobs",
                                                  "concurrent_fits")
RULE = (
    "three to six threads, each with its own object (sampler, calculator, factory, or the utilities), work at the same time "
    "on different requests, on shared read-only matrices, with threads switched at random lines of the code and at the "
    "shortest switch interval; every answer is compared with the independent one (certain outcomes, exact values, "
    "staged chi-square); non-trivial: threads were switched inside a request; distinct by the pair of lines"
)
ASSUMPTIONS = ("objects are not shared between threads; numpy's global generator is safe to share",
               "the uniform-loss calculator is left out: it forks, which Python does not support next to running threads")
CALC = ("classic", "glynn", "chinhuh", "ryser")
CASE_TIMEOUT = 90
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for j in range(150 * k):
        t = int(rng.integers(3, 7))
        jobs = [str(v) for v in rng.choice(JOBS, size=t)]
        if j % 3 == 0:
            jobs = [jobs[0]] * t  # the same kind of object in all the threads
        elif j % 3 == 1:
            jobs = [jobs[0], jobs[0]] + jobs[2:]
        out.append({"k": "mixed", "jobs": jobs, "calc": str(rng.choice(CALC)), "m": int(rng.integers(2, 6 if j % 4 else 8)),
                    "shared": bool(rng.random() < .5), "yields": float(rng.choice([0, .01, .05, .3]))})
    for w in JOBS:
        for _ in range(k):
            out.append({"k": "mixed", "jobs": [w] * 4, "calc": str(rng.choice(CALC)), "m": int(rng.integers(2, 5)),
                        "shared": bool(rng.random() < .5), "yields": .2})
    for j in range(16 * k):
        out.append({"k": "fit", "jobs": [INPROC[j % len(INPROC)]] * 2, "calc": str(rng.choice(CALC)), "m": int(rng.choice([2, 3])),
                    "eta": round(float(rng.uniform(.3, .9)), 3), "yields": .01})
    for j in range(6 * k):
        out.append({"k": "mixed", "jobs": [["bobs", "bobs"], ["ubobs", "ubobs"], ["bobs", "ubobs", "gcc_b"],
                                           ["bobs", "fixed calculator"], ["ubobs", "gcc_a"],
                                           ["ubobs", "bobs", "states"]][j % 6],
                    "calc": "ryser", "m": 3, "shared": bool(j % 2), "yields": 0, "rounds": 2})
    return out


class Scheduler:
    """Switches threads at random lines of the code under test and records the switches."""

    def __init__(self, seed, p):
        self.root, self.p, self.rng = crash._root() + os.sep, p, random.Random(seed)
        self.last = None
        self.switches, self.pairs, self.pid = 0, set(), os.getpid()

    def outer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root) and os.getpid() == self.pid:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            here = (threading.get_ident(), os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            last = self.last
            if last is not None and last[0] != here[0]:
                self.switches += 1
                if len(self.pairs) < 4000:
                    self.pairs.add((last[1:], here[1:]))
            self.last = here
            if self.p and self.rng.random() < self.p:
                time.sleep(0 if self.rng.random() < .8 else .0004)
        return self.local


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon)


def _together(case, mon, works):
    """Runs the callables at the same time; returns what they returned."""
    sched = Scheduler(case["seed"], case["yields"])
    barrier = threading.Barrier(len(works))
    out = [None] * len(works)

    def body(q):
        barrier.wait()
        sys.settrace(sched.outer)
        try:
            out[q] = ("ok", works[q]())
        except BaseException as e:  # noqa
            out[q] = ("failed", e)
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    mon.depth += 1
    try:
        ts = [threading.Thread(target=body, args=(q,), daemon=True) for q in range(len(works))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        mon.depth -= 1
        sys.setswitchinterval(old)
    mon.count("switches", sched.switches)
    mon.count("switches_inside_requests", len(sched.pairs))
    for p in sched.pairs:
        mon.see("nontrivial", p)
    for q, (state, value) in enumerate(out):
        if state == "failed":
            mon.violation("exception:%s:%s" % (case["jobs"][q], type(value).__name__),
                          "%s raised %s: %s while other threads were working (%s)"
                          % (case["jobs"][q], type(value).__name__, value, case["jobs"]))
    return [v for _, v in out]


def _mixed(case, mon):
    rng = np.random.default_rng(case["seed"])
    shared = gen.build_matrix({"t": "phaseperm", "m": case["m"], "s": case["seed"]}) if case["shared"] else None
    snap = Snapshots(mon, "threads")
    if shared is not None:
        snap.keep("matrix", shared)
    works, judges = [], []
    for job in case["jobs"]:
        m = case["m"] if shared is not None else int(rng.integers(2, 5))
        with mon.code("construct " + job):
            w, j = _job(job, case, np.random.default_rng(int(rng.integers(1 << 30))), m, shared)
        works.append(w)
        judges.append(j)
    results = _together(case, mon, works)
    for job, judge, res in zip(case["jobs"], judges, results):
        judge(mon, res)
        mon.count("requests:" + job, len(res))
    snap.compare()
    mon.sample({"threads": case["jobs"], "requests": [len(r) for r in results]})


def _fit(case, mon):
    """Two samplers of the same kind with different networks, at the same time."""
    rng = np.random.default_rng(case["seed"])
    m, who = case["m"], case["jobs"][0]
    parts = []
    for q in range(2):
        i = gen.random_state(rng, int(rng.integers(2, 4)), m)
        t = {"t": "haar", "m": m, "s": int(rng.integers(1 << 30))}
        if who == "lossynet":
            t.update(t="lossy", eta=[.9, .5, .7][:m])
        u = gen.build_matrix(t)
        with mon.code("construct " + who):
            parts.append((i, u, sut.sampler(who, u, i, case["calc"], eta=case["eta"], left=2)))
    kept = [[], []]

    def draw(q):
        def f(n):
            got = []
            while len(got) < n:
                r = _together(case, mon, [lambda s=s, i=i: s.simulate(list(i), 150) for i, _, s in parts])
                kept[1 - q] += r[1 - q]
                got += r[q]
            return got[:n]
        return f

    for q in range(2):
        i, u, _ = parts[q]
        monitored(mon, who, draw(q), _reference(who, u, i, case["eta"], 2), m, 900,
                  ctx="input %s, two samplers at the same time" % i, key="threads")
    mon.count("concurrent_fits")


def _job(job, case, rng, m, shared):
    """(work, judge): work runs in a thread and only collects; judge compares afterwards."""
    rounds = case.get("rounds", 6)

    def state(n=None, style=None):
        return gen.random_state(rng, int(rng.integers(1, 4 if m < 5 else 6)) if n is None else n, m, style)

    def seed():
        return int(rng.integers(1 << 30))

    if job in sut.SAMPLERS or job == "factory":
        u = shared if shared is not None else gen.build_matrix({"t": "phaseperm", "m": m, "s": seed()})
        single = job in ("fixed", "uniform")
        asks = [(state(style="bunch1" if single else None), int(rng.integers(1, 5))) for _ in range(rounds)]
        if job == "factory":
            kind = sut.StrategyType[str(rng.choice(["GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC"]))]
            conf = sut.config(u, asks[0][0], None, 1.0)
            f = sut.SimulationStrategyFactory(conf, sut.PERM[case["calc"]](u, asks[0][0], asks[0][0]), kind)
            work = lambda: [f.generate_strategy().simulate(list(a), k) for a, k in asks]
        else:
            s = sut.sampler(job, u, asks[0][0], case["calc"], eta=1.0, left=2, h=m, approx=0, threads=2)
            work = lambda: [s.simulate(list(a), k) for a, k in asks]

        def judge(mon, res):
            for (a, k), got in zip(asks, res):
                want = tuple(image(u, a)) if job != "fixed" else tuple(2 * bool(v) for v in image(u, a))
                mon.check(sut.loose(got) == [want] * k, "outcomes:" + job, "%s returned %s, the only possible outcome is %s "
                          "(%d requested; other threads were working)" % (job, got, want, k))
    elif job in ("fixed calculator", "uniform calculator", "accuracy", "sample-based calculator"):
        i = state()
        u = shared if shared is not None else gen.build_matrix({"t": "haar", "m": m, "s": seed()})
        n, eta = sum(i), round(float(rng.uniform(.2, .9)), 3)
        left = int(rng.integers(0, n + 1))
        conf = sut.config(u, list(i), left, eta)
        pc = sut.PERM[case["calc"]](u, list(i), list(i))
        if job == "fixed calculator":
            c, want = sut.BSDistributionCalculatorWithFixedLosses(conf, pc), ref.fixed_loss_distribution(u, i, left)
        elif job == "uniform calculator":
            c, want = sut.BSDistributionCalculatorWithUniformLosses(conf, pc), ref.uniform_loss_distribution(u, i, eta)
        elif job == "accuracy":
            s = sut.sampler("gcc_a_ul", u, i, eta=eta, pc=pc)
            want = ref.uniform_loss_distribution(u, i, eta)
        else:
            states = ref.compositions(left, m)

            class Strategy:
                def simulate(self, st, k=1):
                    return [states[q % len(states)] for q in range(k)]

            c = sut.BSSampleBasedDistributionCalculator(conf, Strategy(), 3 * len(states))
            want = {t: 1 / len(states) for t in states}
        if job == "accuracy":
            work = lambda: [list(s.compute_distribution_up_to_accuracy(list(i), .8)) for _ in range(2)]
        else:
            def work():
                return [dict(zip([tuple(int(v) for v in t) for t in c.get_outcomes_in_proper_order()],
                                 c.calculate_distribution())) for _ in range(rounds // 2)]

        def judge(mon, res):
            for got in res:
                if job == "accuracy":
                    mon.check(len(got) == sum(len(ref.compositions(k, m)) for k in range(n + 1)) and sum(got) >= .8 - 1e-9 and all(
                        p <= 1e-12 or min(abs(p - w) for w in want.values()) < 1e-9 for p in got), "accuracy",
                        "%s is not the distribution %s (input %s)" % (got, want, i))
                else:
                    mon.check(set(got) <= set(want) | {t for t in got if abs(got[t]) < 1e-12}
                              and all(abs(got.get(t, 0) - w) < 1e-9 for t, w in want.items()),
                              "distribution:" + job, "%s returned %s instead of %s (input %s; other threads were working)"
                              % (job, got, want, i))
    elif job in ("permanent", "submatrices"):
        sub = job == "submatrices"
        asks = []
        for _ in range(3 * rounds):
            n = int(rng.integers(1, 5 if m < 5 or case["calc"] == "classic" else 8))
            asks.append((gen.build_matrix({"t": "ginibre", "m": m, "s": seed()}), state(n), state(n - 1 if sub else n)))
        cls = sut.SUB[("sub_ryser", "sub_chinhuh")[int(rng.integers(2))]] if sub else sut.PERM[case["calc"]]

        def work():
            out, c = [], None
            for a, i, o in asks:
                c = cls(a, list(i), list(o)) if c is None else c
                c.matrix, c.input_state, c.output_state = a, list(i), list(o)
                out.append(list(c.compute_permanents()) if sub else c.compute_permanent())
            return out

        def judge(mon, res):
            for (a, i, o), got in zip(asks, res):
                for q in range(m if sub else 1):
                    less = list(i)
                    if sub:
                        if not i[q]:
                            continue
                        less[q] -= 1
                    want = ref.permanents_from_input(a, less).get(tuple(o), 0)
                    g = got[q] if sub else got
                    mon.check(abs(g - want) <= 1e-9 * (1 + ref.permanent_scale(a, less, o)), job,
                              "%r instead of %r (input %s, output %s; other threads were working)" % (g, want, less, o))
    else:
        asks = [(int(rng.integers(1, 7)), int(rng.integers(1, 7)), seed()) for _ in range(4 * rounds)]
        states = [gen.random_state(rng, n, q) for n, q, _ in asks]
        mats = [gen.build_matrix({"t": "lossy", "m": q, "s": s, "eta": [.9, .3, .6, .8, .5, .7][:q]}) for _, q, s in asks]
        dists = [(dict(enumerate(rng.dirichlet([1] * q))), dict(enumerate(rng.dirichlet([1] * n)))) for n, q, _ in asks]

        def one(z):
            n, q, _ = asks[z]
            if job == "states":
                return sorted(tuple(int(v) for v in t) for t in sut.bsu.generate_possible_states(n, q, losses=z % 2 == 1))
            if job == "types":
                return sut.bsu.compute_number_of_states_of_given_type(list(states[z]))
            if job == "lossy inputs":
                return sorted(tuple(int(v) for v in t) for t in
                              sut.bsu.generate_lossy_n_particle_input_states(list(states[z]), max(0, n - 1)))
            if job == "conversions":
                a = sut.bsu.mode_occupation_to_mode_assignment(list(states[z]))
                return tuple(int(v) for v in a), tuple(int(v) for v in sut.bsu.mode_assignment_to_mode_occupation(a, q))
            if job == "distances":
                return qcu.count_total_variation_distance_dicts(*dists[z])
            if job == "dilation":
                return np.array(sut.bsu.prepare_interferometer_matrix_in_expanded_space(mats[z]))
            return np.array(sut.bsu.EffectiveScatteringMatrixCalculator(mats[z], list(states[z]), list(states[z])).calculate())

        work = lambda: [one(z) for z in range(len(asks))]

        def judge(mon, res):
            import math

            for z, got in enumerate(res):
                n, q, _ = asks[z]
                s = states[z]
                if job == "states":
                    want = sorted(t for k in range(0 if z % 2 else n, n + 1) for t in ref.compositions(k, q))
                    ok = got == want
                elif job == "types":
                    want = math.factorial(q)
                    for v in set(s):
                        want //= math.factorial(s.count(v))
                    ok = got == want
                elif job == "lossy inputs":
                    want = sorted({tuple(v - (c == d) for c, v in enumerate(s)) for d in range(q) if s[d]})
                    ok = got == want
                elif job == "conversions":
                    want = tuple(c for c, v in enumerate(s) for _ in range(v)), tuple(s)
                    ok = got == want
                elif job == "distances":
                    a, b = dists[z]
                    want = sum(abs(a.get(k, 0) - b.get(k, 0)) for k in set(a) | set(b)) / 2
                    ok = abs(got - want) < 1e-12
                elif job == "dilation":
                    want = mats[z]
                    ok = (got.shape == (2 * q, 2 * q) and np.allclose(got @ got.conj().T, np.eye(2 * q), atol=1e-8)
                          and np.allclose(got[:q, :q], want, atol=1e-8))
                else:
                    c = [d for d, v in enumerate(s) for _ in range(v)]
                    want = mats[z][np.ix_(c, c)]
                    ok = got.size == want.size == 0 or (got.shape == want.shape and np.allclose(got, want))
                mon.check(ok, job, "%s: %r instead of %r (other threads were working)" % (job, got, want))

    return work, judge
