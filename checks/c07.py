"""C07: exact output distribution with uniform losses."""
import numpy as np

from checks.c06 import SHAPES, _compare
from vlib import gen, ref, sut

PROPERTY = "C07"
REQUIRED = ("distributions", "probabilities", "subset_requests", "weightless", "toggles",
            "eta_zero", "eta_one", "bunched_inputs", "many_outcomes", "large_experiments", "many_particles")
RULE = (
    "random interferometers, inputs with gaps and bunching, transmissivities including 0 and 1, "
    "all permanent calculators; full weighted and weightless distributions and reordered subsets "
    "are compared with an independent computation, before and after switching the weights off and "
    "on; non-trivial: at least 5 non-zero probabilities"
)
ASSUMPTIONS = ("outcomes have at most as many particles as the input",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "ro")
TIMER = "real"
CASE_TIMEOUT = 120
SHARDS = 6


def cases(rng, tier):
    out = []
    for j in range(240 if tier == "quick" else 6000):
        m = int(rng.integers(1, 5))
        n = int(rng.choice([0, 1, 2, 3, 4], p=[.04, .16, .3, .35, .15]))
        if j % 12 == 0:
            m, n = int(rng.integers(1, 3)), 5
        if j % 12 == 1:
            m, n = int(rng.integers(5, 9)), int(rng.integers(1, 3))
        eta = float(rng.choice([0.0, 1.0, 0.5, 1e-6, 1 - 1e-6, round(float(rng.random()), 3)],
                               p=[.1, .15, .1, .05, .05, .55]))
        spec = gen.random_unitary_spec(rng, m)
        if j % 7 == 0:
            spec = {"t": "weak", "m": m, "s": int(rng.integers(1 << 30))}
        out.append({"matrix": spec, "in": gen.random_state(rng, n, m),
                    "eta": eta, "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "oform": str(rng.choice(["tuple", "list", "array"])),
                    "toggle": [bool(v) for v in rng.integers(0, 2, size=int(rng.integers(0, 4)))]})
    for j in range(6 if tier == "quick" else 120):  # many outcomes, several times in a row
        m, n = [(4, 5), (6, 4), (10, 3), (24, 2), (3, 9), (7, 4)][j % 6]
        s = gen.random_state(rng, n, m, "any") if n < 9 else [3, 3, 3]
        out.append({"matrix": gen.random_unitary_spec(rng, m, ("haar", "qft")), "in": s,
                    "eta": round(float(rng.uniform(.3, .9)), 3), "calc": "ryser", "form": "list", "oform": "tuple",
                    "toggle": [], "repeat": 4})
    for j in range(16 if tier == "quick" else 320):  # larger experiments, some outcomes
        shape = [int(v) for v in rng.choice(SHAPES)]
        shape = shape[:max(int(rng.integers(1, 8)), sum(v > 0 for v in shape))]
        shape = [int(v) for v in rng.permutation(shape)]
        out.append({"matrix": gen.random_unitary_spec(rng, len(shape)), "in": shape, "large": True,
                    "eta": round(float(rng.uniform(.2, 1)), 3), "calc": str(rng.choice(CALC[1:])), "form": str(rng.choice(FORMS)),
                    "oform": "tuple", "toggle": [bool(v) for v in rng.integers(0, 2, size=int(rng.integers(0, 4)))]})
    for j in range(12 if tier == "quick" else 240):  # more particles than 64 bits can order
        m = 1 + (j % 4 > 0)
        n = int(rng.integers(10, 24))
        out.append({"matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "weak")), "in": gen.random_state(rng, n, m), "large": True,
                    "eta": round(float(rng.uniform(.5, 1)), 3), "calc": "chinhuh", "form": str(rng.choice(FORMS)),
                    "oform": "tuple", "toggle": [bool(v) for v in rng.integers(0, 2, size=int(rng.integers(0, 4)))], "many": True})
    return out


def run_case(case, mon):
    u = gen.build_matrix(case["matrix"])
    i, eta = case["in"], case["eta"]
    n, m = sum(i), len(i)
    rng = np.random.default_rng(case["seed"])
    weighted = ref.uniform_loss_distribution(u, i, eta)
    flat = {}
    for left in range(n + 1):
        flat.update(ref.fixed_loss_distribution(u, i, left))
    with mon.code("construct"):
        dc = sut.BSDistributionCalculatorWithUniformLosses(
            sut.config(u, gen.as_state(i, case["form"]), n, eta), sut.PERM[case["calc"]](u, i, i))
    states = [s for k in range(n + 1) for s in ref.compositions(k, m)]
    for _ in range(case.get("repeat", 0)):
        with mon.code("calculate_distribution"):
            got = dc.calculate_distribution()
            order = dc.get_outcomes_in_proper_order()
        _compare(mon, "weighted", order, got, weighted, "input %s, transmissivity %g" % (i, eta))
        mix = [order[int(j)] for j in rng.permutation(len(order))]
        with mon.code("calculate_probabilities_of_outcomes"):
            got = dc.calculate_probabilities_of_outcomes(mix)
        _compare(mon, "subset", mix, got, weighted, "input %s, transmissivity %g, all outcomes reordered" % (i, eta))
        mon.count("many_outcomes", int(len(order) > 100))
    for step, w in enumerate([None] + case["toggle"]):
        if w is not None:
            with mon.code("set_weightless"):
                dc.set_weightless(w)
            mon.count("toggles")
        want = flat if w else weighted
        ctx = "input %s, transmissivity %g, weightless %s" % (i, eta, bool(w))
        if (step == 0 or step == len(case["toggle"])) and not case.get("large"):
            with mon.code("calculate_distribution"):
                got = dc.calculate_distribution()
                order = dc.get_outcomes_in_proper_order()
            mon.check(sorted(tuple(int(v) for v in s) for s in order) == sorted(states), "outcomes",
                      "the listed outcomes are not all states with at most %d particles" % n)
            _compare(mon, "weightless" if w else "weighted", order, got, want, ctx)
            mon.check(abs(sum(got) - (n + 1 if w else 1)) < 1e-8, "normalisation",
                      "sums up to %r (%s)" % (sum(got), ctx))
            mon.count("distributions")
        pick = [states[int(j)] for j in rng.integers(0, len(states), size=min(4, 2 * len(states)))]
        if case.get("large"):
            pick.append(states[-1 - int(rng.integers(min(9, len(states))))])
            mon.count("large_experiments")
            mon.count("many_particles", int("many" in case))
        asked = [gen.as_state(s, case["oform"]) for s in pick]
        how = int(rng.integers(4))
        with mon.code("calculate_probabilities_of_outcomes"):
            got = dc.calculate_probabilities_of_outcomes(
                tuple(asked) if how == 1 else iter(asked) if how == 2 else asked)
        mon.count("iterators", int(how == 2))
        _compare(mon, "subset", pick, got, want, ctx, 1e-9 if "many" in case else 0.0)
        mon.count("subset_requests")
        mon.count("weightless", int(bool(w)))
    mon.count("eta_zero", int(eta == 0))
    mon.count("eta_one", int(eta == 1))
    mon.count("bunched_inputs", int(max(i) > 1))
    if sum(p > 1e-9 for p in weighted.values()) >= 5:
        mon.see("nontrivial", [case["matrix"], i, eta])
        mon.sample({"matrix": case["matrix"], "in": i, "eta": eta, "outcomes": len(states)})
