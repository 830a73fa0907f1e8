"""C29: the package leaves the process it is used in as it was."""
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from vlib import crash, gen, sut, zoo
from vlib.surroundings import Watch, random_state

PROPERTY = "C29"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXACT = ("fixed calculator", "uniform calculator", "classic", "glynn", "chinhuh", "ryser", "sub_ryser", "sub_chinhuh",
         "permanent factory", "scattering", "lossy network", "lossless network")
UTILITIES = tuple(sorted(zoo.utilities()))
REQUIRED = tuple("kind:" + k for k in zoo.KINDS) + tuple("experiment:" + k for k in zoo.SAMPLERS) + tuple(
    "utility:" + k for k in UTILITIES) + ("settings_compared", "refused", "failed", "imports", "reseeding_compared",
                                          "many_samples", "many_particles", "large_experiments", "large_permanents", "malformed")
RULE = (
    "requests to every kind of object and utility, proper, malformed and failing half-way, are made in a scratch directory "
    "while everything written to the terminal by the process and its workers is collected, files opened for writing, "
    "removals and connections are noted by an audit hook, and about fifty settings of the process (environment, numpy "
    "error handling and print options, warning filters, signal handlers, limits, import path, start method, logging, "
    "locale, attributes of standard modules, ...) are compared before and after; exact computations must not touch the "
    "random generators and sampling must not reseed them; non-trivial: the request was answered or failed as intended; "
    "distinct by kind and experiment")
ASSUMPTIONS = ("Python warnings (warnings.warn) are not counted as output",
               "temporary files that are removed again within the request are allowed")
LARGE = ((120, 1, 30), (40, 2, 30), (8, 4, 500), (2, 12, 30), (12, 3, 100), (1, 1, 12000))
CASE_TIMEOUT = 60
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []
    for kind in zoo.KINDS:
        for j in range((6 if kind in zoo.WORKERS else 12) * k):
            out.append({"k": "kind", "kind": kind})
    for who in zoo.SAMPLERS:
        for j in range((2 if sut.SAMPLERS[who][0] else 24) * k):
            out.append({"k": "experiment", "who": who})
        for size in range(len(LARGE) * (not sut.SAMPLERS[who][0])):
            out.append({"k": "large", "who": who, "size": size})
    for j in range(24 * k):
        out.append({"k": "permanent", "kind": ("chinhuh", "glynn", "ryser", "classic", "sub_ryser", "sub_chinhuh")[j % 6]})
    for kind in UTILITIES:
        for j in range(6 * k):
            out.append({"k": "utility", "kind": kind})
    for j in range(20 * k):
        out.append({"k": "refused"})
    for kind in zoo.KINDS:
        for j in range((2 if kind in zoo.WORKERS else 4) * k):
            out.append({"k": "failed", "kind": kind})
        for j in range(2 * k):
            out.append({"k": "spoiled", "kind": kind})
    for j in range(2):
        out.append({"k": "import"})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))


def _reseeding(mon, what, ask):
    """Two different states of the generators must not become the same."""
    ends = []
    for seed in (11, 12):
        random.seed(seed)
        np.random.seed(seed)
        with mon.code(what):
            ask()
        ends.append(random_state())
    mon.check(ends[0][0] != ends[1][0] and ends[0][1] != ends[1][1], "reseeded:" + what,
              "%s sets the random number generators of the process to a fixed state" % what)
    mon.count("reseeding_compared")


def _kind(case, mon, rng):
    kind = case["kind"]
    with Watch(mon, kind, kind in EXACT):
        with mon.code("construct " + kind):
            t = zoo.make(kind, rng)
        with mon.code(kind):
            for _ in range(1 if kind in zoo.WORKERS else 3):
                got = t.ask(t.obj)
            if t.alter and kind not in zoo.WORKERS:
                t.alter(t.obj)
                try:
                    t.ask(t.obj)
                except Exception:
                    pass  # the altered settings need not fit the request
    if kind not in zoo.WORKERS:
        t = zoo.make(kind, rng)
        _reseeding(mon, kind, lambda: t.ask(t.obj))
    mon.count("kind:" + kind)
    mon.see("nontrivial", [kind, case["seed"]])
    mon.sample({"kind": kind, "answer": repr(got)[:200]})


def _experiment(case, mon, rng):
    who = case["who"]
    workers = sut.SAMPLERS[who][0]
    m = int(rng.integers(1, 6))
    many = not workers and rng.random() < .3
    n = int(rng.integers(6, 10)) if many else int(rng.integers(0, 5))
    if many:
        m = min(m, 3)
    single = who in ("fixed", "uniform")
    s = gen.random_state(rng, n, m, "bunch1" if single else None)
    kind = str(rng.choice(["haar", "phaseperm", "lossy"])) if who in ("lossynet", "bobs") else str(
        rng.choice(["haar", "phaseperm"]))
    spec = {"t": kind, "m": m, "s": case["seed"]}
    if kind == "lossy":
        spec["eta"] = [float(x) for x in rng.choice([0, .1, .5, .9, 1], size=m)]
    u = gen.build_matrix(spec)
    calc = str(rng.choice(["glynn", "chinhuh", "ryser"] if many else ["classic", "glynn", "chinhuh", "ryser"]))
    eta = float(rng.choice([0, .05, .5, .95, 1]))
    left = int(rng.integers(0, n + 1))
    approx, h = int(rng.integers(0, m + 1)), int(rng.integers(0, m + 1))
    size = int(rng.choice([0, 1, 2, 30, 1500] if n < 5 else [1, 5]))
    with Watch(mon, who):
        with mon.code("construct " + who):
            q = sut.sampler(who, u, s, calc, eta=eta, left=left, approx=approx, h=h, threads=2)
        with mon.code(who):
            got = q.simulate(list(s), size)
    mon.count("many_samples", size >= 1500)
    mon.count("many_particles", n >= 6)
    if not workers:
        _reseeding(mon, who, lambda: q.simulate(list(s), 2))
    mon.count("experiment:" + who)
    mon.see("nontrivial", [who, case["seed"]])
    mon.sample({"sampler": who, "modes": m, "particles": n, "samples": len(got)})


def _large(case, mon, rng):
    """Many modes, many partial outcomes, many samples."""
    who = case["who"]
    m, n, size = LARGE[case["size"]]
    single = who in ("fixed", "uniform")
    s = gen.random_state(rng, n, m, "bunch1" if single else "spread")
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["seed"]})
    with Watch(mon, who):
        with mon.code("construct " + who):
            q = sut.sampler(who, u, s, str(rng.choice(["glynn", "chinhuh", "ryser"])), eta=.8, left=n)
        with mon.code(who):
            q.simulate(list(s), size)
    mon.count("large_experiments")
    mon.see("nontrivial", [who, m, n, size, case["seed"]])


def _permanent(case, mon, rng):
    kind = case["kind"]
    n = int(rng.integers(5, 8 if kind == "classic" else 13))
    m = int(rng.integers(1, 5))
    i, o = gen.random_state(rng, n, m), gen.random_state(rng, n - (kind in sut.SUB), m)
    scale = float(rng.choice([1, 1, 1e-200, 1e200, 0]))
    a = gen.build_matrix({"t": "ginibre", "m": m, "s": case["seed"]}) * scale
    with Watch(mon, kind, True):
        with mon.code(kind):
            if kind in sut.SUB:
                sut.SUB[kind](a, i, o).compute_permanents()
            else:
                sut.PERM[kind](a, i, o).compute_permanent()
    mon.count("large_permanents")
    mon.see("nontrivial", [kind, "permanent", case["seed"]])


def _utility(case, mon, rng):
    kind = case["kind"]
    fn = zoo.utilities()[kind]
    args = zoo.utility_arguments(rng, top=7)
    with Watch(mon, kind, kind != "random matrices"):
        with mon.code(kind):
            fn(*args)
    _reseeding(mon, kind, lambda: fn(*args))
    mon.count("utility:" + kind)
    mon.see("nontrivial", [kind, case["seed"]])


def _refused(case, mon, rng):
    from theboss import quantum_computations_utilities as qcu

    m = int(rng.integers(2, 5))
    a = rng.normal(size=(m, m + 1))
    b = rng.normal(size=(m, m)) + 0j
    calc = str(rng.choice(["chinhuh", "ryser"]))
    s = gen.random_state(rng, 2, m)
    asks = [lambda: sut.PERM[calc](a, s, s).compute_permanent(),
            lambda: sut.PERM[calc](b, s, s + [0]).compute_permanent(),
            lambda: sut.PERM[calc](b, s + [1], s + [1]).compute_permanent(),
            lambda: qcu.count_total_variation_distance([.5, .5], [1.0])]
    with Watch(mon, "refusal", True):
        for ask in asks:
            try:
                ask()
            except Exception:
                mon.count("refused")
    mon.see("nontrivial", ["refused", case["seed"]])


def _failed(case, mon, rng):
    kind = case["kind"]
    with mon.code("construct " + kind):
        t = zoo.make(kind, rng)
        total = crash.lines(lambda: t.ask(t.obj))
    for _ in range(8):
        error = crash.Interrupt if rng.random() < .3 else crash.FAILURES[int(rng.integers(len(crash.FAILURES)))]
        target = int(rng.integers(max(1, total)))
        with Watch(mon, kind + " (failing)", kind in EXACT):
            with mon.code(kind):
                failed = crash.strike(lambda: t.ask(t.obj), target, error)[0]
        mon.count("failed", failed)
    mon.see("nontrivial", [kind, "failed", case["seed"]])


def _spoiled(case, mon, rng):
    """Requests that cannot be answered fail wherever they fail, maybe in a worker; some are answered all the same."""
    kind = case["kind"]
    with mon.code("construct " + kind):
        t = zoo.make(kind, rng)
    m = int(rng.integers(2, 5))
    bad = [[None] * m, None, [1, "1"] + [0] * (m - 2), [[1]] * m][: 2 if kind in zoo.WORKERS else None]
    for value in bad:
        with Watch(mon, kind + " (malformed)", kind in EXACT):
            try:
                if hasattr(t.obj, "simulate"):
                    t.obj.simulate(value, 2)
                elif hasattr(t.obj, "calculate_probabilities_of_outcomes"):
                    good = [int(v) for v in list(t.obj.get_outcomes_in_proper_order())[0]]
                    t.obj.calculate_probabilities_of_outcomes([good, value])
                elif hasattr(t.obj, "get_classical_simulation_results"):
                    t.obj.get_classical_simulation_results(value, 2)
                else:
                    if hasattr(t.obj, "input_state"):
                        t.obj.input_state = value
                    elif hasattr(t.obj, "experiment_configuration"):
                        t.obj.experiment_configuration = None
                    t.ask(t.obj)
                mon.count("answered_all_the_same")
            except Exception:
                mon.count("malformed")
    mon.see("nontrivial", [kind, "malformed", case["seed"]])


def _import(case, mon, rng):
    """A fresh process imports every module of the package."""
    work = tempfile.mkdtemp(prefix="verif-import-")
    try:
        env = dict(os.environ, VERIF_REPO=os.path.dirname(os.path.dirname(crash._root() + "/")), TMPDIR=work, HOME=work)
        ask = [sys.executable, "-B", os.path.join(HERE, "vlib", "importing.py")]

        def run(extra):
            p = subprocess.run(ask, input=json.dumps(extra), cwd=work, env=env, capture_output=True, text=True, timeout=120)
            if p.returncode or not p.stdout.strip():
                raise RuntimeError("importing.py failed: %s %s" % (p.stdout[-500:], p.stderr[-1500:]))
            return json.loads(p.stdout.splitlines()[-1])

        first = run({"before": []})
        second = run({"before": first["others"]})
        mon.check(second["modules"] > 20 or first["modules"] > 20, "import", "few modules could be imported: %s" % second)
        for key, what in second["problems"]:
            mon.violation("import:" + key, "importing the package: %s" % what)
        mon.check(not os.listdir(work), "import:files", "importing the package leaves files: %s" % os.listdir(work))
        mon.count("imports", second["modules"])
        mon.see("nontrivial", ["import", case["seed"]])
    finally:
        import shutil

        shutil.rmtree(work, ignore_errors=True)
