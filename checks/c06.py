"""C06: exact output distribution with a fixed number of lost particles."""
import math

import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C06"
REQUIRED = ("distributions", "probabilities", "subset_requests", "bunched_inputs", "with_losses",
            "no_losses", "all_lost", "reuse_steps", "tiny_probabilities", "iterators", "large_experiments", "many_particles")
RULE = (
    "random interferometers (Haar, structured, almost uncoupled, sub-unitary, strongly attenuated), inputs with gaps and bunching, every "
    "number of surviving particles, all four permanent calculators; the full distribution and "
    "reordered / repeated subsets are compared with an independent computation; non-trivial: a "
    "distribution with at least 3 non-zero probabilities"
)
ASSUMPTIONS = ("outcomes have the configured number of particles and modes",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "ro")
SHAPES = np.array([
    [1, 1, 1, 1, 1, 0, 0, 0], [2, 1, 1, 1, 1, 0, 0, 0], [1, 1, 1, 1, 1, 1, 1, 0], [1] * 8, [2, 2, 1, 1, 0, 0, 0, 0],
    [3, 2, 1, 1, 0, 0, 0, 0], [2, 2, 2, 0, 0, 0, 0, 0], [5, 1, 1, 0, 0, 0, 0, 0], [9, 0, 0, 0, 0, 0, 0, 0],
    [4, 4, 0, 0, 0, 0, 0, 0], [2, 2, 2, 2, 0, 0, 0, 0], [3, 3, 3, 0, 0, 0, 0, 0]])
ETAS = (0.0, 0.1, 0.5, 0.9, 1.0)


def cases(rng, tier):
    k = 8 if tier == "quick" else 200
    out = []
    for j in range(420 * k):
        m = int(rng.integers(1, 6))
        n = int(rng.choice([0, 1, 2, 3, 4, 5], p=[.03, .12, .25, .25, .2, .15]))
        if m >= 4:
            n = min(n, 4)
        if j % 15 == 0:
            m, n = int(rng.integers(1, 3)), int(rng.integers(5, 8))
        if j % 15 == 1:
            m, n = int(rng.integers(6, 12)), int(rng.integers(1, 3))
        large = j % 15 == 2
        if large:
            shape = [int(v) for v in rng.choice(SHAPES)]
            shape = shape[:max(int(rng.integers(1, 9)), sum(v > 0 for v in shape))]
            m, n = len(shape), sum(shape)
        spec = gen.random_unitary_spec(rng, m)
        if rng.random() < 0.12:
            spec = {"t": "lossy", "m": m, "s": int(rng.integers(1 << 30)),
                    "eta": [float(rng.choice(ETAS)) for _ in range(m)]}
        elif rng.random() < 0.15:
            spec = {"t": "weak", "m": m, "s": int(rng.integers(1 << 30))}
        elif rng.random() < 0.07:  # strongly attenuated
            spec = {"t": "lossy", "m": m, "s": int(rng.integers(1 << 30)), "eta": [1.0] * m,
                    "scale": float(10.0 ** -rng.integers(1, 6))}
        left = int(rng.integers(0, n + 1))
        if rng.random() < 0.25:
            left = n
        if large:
            left = int(rng.choice([n, n - 1, n - 2, 1, int(rng.integers(0, n + 1))]))
        out.append({"k": "dist", "matrix": spec, "left": left,
                    "in": [int(v) for v in rng.permutation(shape)] if large else gen.random_state(rng, n, m),
                    "calc": str(rng.choice(CALC[1:] if left > 6 else CALC)), "form": str(rng.choice(FORMS)),
                    "oform": str(rng.choice(["tuple", "list", "array"]))})
    for j in range(10 * k):  # more particles than 64 bits can order
        m = 1 + (j % 5 > 0) + (j % 5 > 3)
        n = int(rng.integers(12, 26)) if m < 3 else int(rng.integers(12, 16))
        left = n if j % 3 else int(rng.integers(max(1, n - 4), n + 1))
        out.append({"k": "dist", "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "phaseperm", "weak")), "left": left,
                    "in": gen.random_state(rng, n, m), "calc": "chinhuh", "form": str(rng.choice(FORMS)),
                    "oform": str(rng.choice(["tuple", "list", "array"])), "many": True})
    for _ in range(40 * k):
        out.append({"k": "reuse", "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(CALC)),
                    "steps": int(rng.integers(2, 5))})
    return out


def _compare(mon, what, outcomes, got, want, ctx, eps=0.0):
    mon.check(len(got) == len(outcomes), "length:" + what, "%d probabilities for %d outcomes %s"
              % (len(got), len(outcomes), ctx))
    for s, p in zip(outcomes, got):
        w = want.get(tuple(int(v) for v in s), 0.0)
        # errors of about 1e-10 in the amplitude
        ok = np.isrealobj(p) and abs(float(p) - w) <= 1e-9 * w + 2e-10 * math.sqrt(w) + 1e-20 + eps
        mon.check(ok, "probability:" + what, "outcome %s has probability %r, expected %.12g (%s)"
                  % (tuple(int(v) for v in s), p, w, ctx))
    mon.count("probabilities", len(got))


def _one(mon, u, case_in, left, dc, rng, oform, unitary, ctx, many=False):
    want = ref.fixed_loss_distribution(u, case_in, left)
    m = len(case_in)
    states = ref.compositions(left, m)
    if many:  # numbers of very different sizes cancel in the permanents
        _subset(mon, states, want, dc, rng, oform, ctx, 1e-9)
        mon.count("many_particles")
        return want
    if left > 4 and len(states) > 60:
        _subset(mon, states, want, dc, rng, oform, ctx)
        mon.count("large_experiments")
        return want
    with mon.code("calculate_distribution"):
        got = dc.calculate_distribution()
        order = dc.get_outcomes_in_proper_order()
    mon.check(sorted(tuple(int(v) for v in s) for s in order) == sorted(ref.compositions(left, m)),
              "outcomes", "the listed outcomes are not the %d-particle states (%s)" % (left, ctx))
    _compare(mon, "distribution", order, got, want, ctx)
    if unitary:
        mon.check(abs(sum(got) - 1) < 1e-8, "normalisation", "sums up to %r (%s)" % (sum(got), ctx))
    _subset(mon, states, want, dc, rng, oform, ctx)
    mon.count("tiny_probabilities", sum(1e-30 < p < 1e-9 for p in want.values()))
    mon.count("distributions")
    return want


def _subset(mon, states, want, dc, rng, oform, ctx, eps=0.0):
    pick = [states[int(j)] for j in rng.integers(0, len(states), size=min(5, 2 * len(states)))]
    asked = [gen.as_state(s, oform) for s in pick]
    how = int(rng.integers(4))
    with mon.code("calculate_probabilities_of_outcomes"):
        got = dc.calculate_probabilities_of_outcomes(
            tuple(asked) if how == 1 else iter(asked) if how == 2 else asked)
    mon.count("iterators", int(how == 2))
    _compare(mon, "subset", pick, got, want, ctx, eps)
    mon.count("subset_requests")


def run_case(case, mon):
    if case["k"] == "dist":
        u = gen.build_matrix(case["matrix"])
        i, left = case["in"], case["left"]
        rng = np.random.default_rng(case["seed"])
        with mon.code("construct"):
            dc = sut.BSDistributionCalculatorWithFixedLosses(
                sut.config(u, gen.as_state(i, case["form"]), left), sut.PERM[case["calc"]](u, i, i))
        want = _one(mon, u, i, left, dc, rng, case["oform"], case["matrix"]["t"] != "lossy",
                    "input %s, %d left, %s" % (i, left, case["calc"]), "many" in case)
        mon.count("bunched_inputs", int(max(i) > 1))
        mon.count("with_losses", int(0 < left < sum(i)))
        mon.count("no_losses", int(left == sum(i)))
        mon.count("all_lost", int(left == 0))
        if sum(p > 1e-9 for p in want.values()) >= 3:
            mon.see("nontrivial", [case["matrix"], i, left])
            mon.sample({"matrix": case["matrix"], "in": i, "left": left,
                        "probabilities": len(want)})
        return
    # one permanent calculator serves many distribution calculators, interleaved
    rng = np.random.default_rng(case["s"])
    pc = None
    jobs = []
    for _ in range(case["steps"]):
        m = int(rng.integers(1, 5))
        n = int(rng.integers(0, 4))
        i = gen.random_state(rng, n, m)
        u = gen.build_matrix(gen.random_unitary_spec(rng, m))
        left = int(rng.integers(0, n + 1))
        if pc is None:
            pc = sut.PERM[case["calc"]](u, i, i)
        with mon.code("construct"):
            jobs.append((u, i, left, sut.BSDistributionCalculatorWithFixedLosses(
                sut.config(u, i, left), pc)))
    for j in rng.permutation(list(range(len(jobs))) * 2):
        u, i, left, dc = jobs[int(j)]
        _one(mon, u, i, left, dc, rng, "tuple", True, "shared calculator, input %s, %d left" % (i, left))
        mon.count("reuse_steps")
