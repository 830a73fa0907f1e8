"""C30: with the random generators of the process seeded, sampling inside the process is reproducible."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from vlib import gen, sut, zoo

PROPERTY = "C30"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = zoo.INPROC + ("simulator", "factory", "accuracy", "sample-based", "phases")
WAYS = ("again", "fresh", "copied", "pickled", "seeded before construction")
REQUIRED = tuple("kind:" + k for k in KINDS) + tuple("way:" + w for w in WAYS) + (
    "process", "seeds_differ", "histories", "many_samples", "dispersed_outcomes")
RULE = (
    "numpy.random and random are seeded, a request is made to a sampler that works inside the process, and the same is done "
    "again with the same object after other requests, with a new, copied or pickled object, and in fresh processes with "
    "other hash seeds; all have to return equal outcomes in equal order, and other seeds have to give other outcomes where "
    "chance agreement is below 1e-12; non-trivial: more than one outcome occurred; distinct by kind, experiment and way")
ASSUMPTIONS = ("samplers that draw in worker processes are outside this property",)
CASE_TIMEOUT = 60
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for kind in KINDS:
        for j in range(14 * k):
            out.append({"k": "repeat", "kind": kind})
    for j in range(12 * k):
        out.append({"k": "process"})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))


def experiment(kind, rng):
    """(make, ask, other, size): make() a new object, ask(it) the request, other(it) another request."""
    m = int(rng.integers(2, 6))
    n = int(rng.integers(1, 5))
    if rng.random() < .2:
        m, n = int(rng.integers(7, 10)), int(rng.integers(2, 4))
    if rng.random() < .2 and kind != "accuracy":
        m, n = 3, int(rng.integers(6, 9))
    if kind == "accuracy":
        m, n = min(m, 4), min(n, 3)
    s = gen.random_state(rng, n, m)
    t = gen.random_state(rng, max(1, n - 1), m)
    spec = {"t": str(rng.choice(["haar", "haar", "phaseperm"])), "m": m, "s": int(rng.integers(1 << 30))}
    if kind == "lossynet" and rng.random() < .6:
        spec.update(t="lossy", eta=[float(x) for x in rng.choice([.1, .5, .9, 1], size=m)])
    u = gen.build_matrix(spec)
    calc = str(rng.choice(["glynn", "chinhuh", "ryser"] if n > 4 else ["classic", "glynn", "chinhuh", "ryser"]))
    eta = float(rng.choice([.3, .7, .95, 1]))
    left = int(rng.integers(1, n + 1))
    size = int(rng.choice([1, 2, 9, 60])) if n > 4 or m > 6 else int(rng.choice([1, 2, 7, 60, 400]))
    net = None

    def make():
        if kind == "phases":
            return None
        if kind == "simulator":
            return sut.BosonSamplingSimulator(sut.sampler("gcc_a", u, s, calc))
        if kind == "factory":
            strat = sut.StrategyType.UNIFORM_LOSSES_GCC if n % 2 else sut.StrategyType.GCC
            return sut.SimulationStrategyFactory(sut.config(u, list(s), None, eta), sut.PERM[calc](u, list(s), list(s)), strat)
        if kind == "accuracy":
            return sut.sampler("gcc_a_ul", u, s, calc, eta=eta)
        if kind == "sample-based":
            return sut.BSSampleBasedDistributionCalculator(
                sut.config(u, list(s), n, 1.0), sut.sampler("gcc_b", u, s, calc), size)
        return sut.sampler(kind, u, s, calc, eta=eta, left=left, network=net)

    def ask(x, state=s, k=size):
        if kind == "phases":
            a = sut.bsu.generate_random_phases_matrix_for_first_m_modes(m - 1, m)
            return [(complex(v).real, complex(v).imag) for v in np.asarray(a).ravel()]
        if kind == "simulator":
            return sut.loose(x.get_classical_simulation_results(list(state), k))
        if kind == "factory":
            return sut.loose(x.generate_strategy().simulate(list(state), k))
        if kind == "accuracy":
            return [float(p) for p in x.compute_distribution_up_to_accuracy(list(state), .6)]
        if kind == "sample-based":
            return [float(p) for p in x.calculate_distribution()]
        return sut.loose(x.simulate(list(state), k))

    def other(x, r):
        for _ in range(int(r.integers(1, 4))):
            if kind == "accuracy":
                x.simulate(list(t), 2)
            ask(x, t if r.random() < .5 and kind != "accuracy" else s, int(r.integers(0, 4)))
    text = "%s: input %s, %s matrix, calculator %s, transmissivity %s, %d samples" % (kind, s, spec["t"], calc, eta, size)
    return make, ask, other, size, text


def seed(q):
    random.seed(q)
    np.random.seed(q)


def _repeat(case, mon, rng):
    kind = case["kind"]
    make, ask, other, size, text = experiment(kind, rng)
    q = int(rng.integers(1 << 31))
    with mon.code("construct " + kind):
        x = make()
    with mon.code(kind):
        seed(q)
        want = ask(x)
    for way in WAYS:
        with mon.code(kind + " " + way):
            if way == "again":
                other(x, rng)
                y = x
                mon.count("histories")
            elif way == "copied":
                y = copy.deepcopy(x)
            elif way == "pickled":
                y = pickle.loads(pickle.dumps(x))
            elif way == "fresh":
                y = make()
            else:
                y = None
            seed(q)
            if way == "seeded before construction":
                y = make()
            got = ask(y)
        mon.check(got == want, "not-reproducible:" + kind, "%s (%s): with the same seed %s, then %s" % (
            text, way, str(want)[:150], str(got)[:150]))
        mon.count("way:" + way)
        mon.see("nontrivial" if len(set(map(str, want))) > 1 else "trivial", [kind, case["seed"], way])
    mon.count("kind:" + kind)
    mon.count("many_samples", size >= 400)
    # chance of two independent runs being equal: product over draws of at most the largest frequency
    if kind != "accuracy" and size >= 60 and kind != "sample-based":
        top = max(want.count(w) for w in set(want)) / len(want)
        if top < .6:
            with mon.code(kind):
                seed(q + 1)
                got = ask(x)
            mon.check(got != want, "same-for-all-seeds:" + kind, "%s: two seeds give the same %d outcomes" % (text, size))
            mon.count("seeds_differ")
            mon.count("dispersed_outcomes", len(set(want)))
    mon.sample({"request": text, "first": want[:2]})


def _process(case, mon, rng):
    """A few experiments in this process and in two fresh ones with other hash seeds."""
    asks = [[k, int(rng.integers(1 << 30)), int(rng.integers(1 << 31))] for k in rng.permutation(KINDS)]
    with mon.code("sampling"):
        want = answers(asks)
    for h in ("1", str(int(rng.integers(2, 4000000)))):
        import theboss

        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=os.path.dirname(theboss.__path__[0]))
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.append(%r); from checks import c30; c30.child()" % HERE],
                           input=json.dumps(asks), env=env, capture_output=True, text=True, timeout=50)
        if p.returncode:
            raise RuntimeError("child: " + p.stderr[-1500:])
        got = json.loads(p.stdout.splitlines()[-1])
        for (kind, e, q), a, b in zip(asks, want, got):
            mon.check(json.loads(json.dumps(a)) == b, "not-reproducible:" + kind,
                      "%s: %s here, %s in a fresh process with the same seed" % (
                          experiment(kind, np.random.default_rng(e))[4], str(a)[:150], str(b)[:150]))
            mon.count("process")
            mon.see("nontrivial", [kind, e, h])


def answers(asks):
    out = []
    for kind, e, q in asks:
        make, ask = experiment(kind, np.random.default_rng(e))[:2]
        x = make()
        seed(q)
        out.append(ask(x))
    return out


def child():
    print(json.dumps(answers(json.loads(sys.stdin.read()))))
