"""C12: the partially approximated sampler for uniform losses."""
import itertools
from collections import defaultdict

import numpy as np

from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C12"
REQUIRED = ("fits:ubobs", "exact_level", "fully_approximated", "partly_approximated", "several_workers",
            "bunched_inputs", "gap_inputs", "lossless", "all_lost", "reused", "certain:ubobs", "unequal_occupations", "wide_networks")
RULE = (
    "random interferometers, inputs, transmissivities (0 and 1 included), hierarchy levels (0 up to all "
    "modes) and worker processes; staged chi-square against the exact distribution of the thinned input "
    "whose modes above the hierarchy level are replaced by independently, uniformly spread particles, "
    "averaged over the relabellings of equally occupied modes; with all modes exact the reference is "
    "the exact uniform-loss distribution; non-trivial: at least one mode is approximated, 2 particles, "
    "4 possible outcomes"
)
ASSUMPTIONS = ("hierarchy level between 0 and the number of modes",)
CALC = ("glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array")
WIDE = ((4, 4), (5, 3), (5, 4), (6, 3), (6, 4), (4, 5))
CASE_TIMEOUT = 300
TIMER = "real"
BUDGET = {"quick": 320, "thorough": 2400}


def approximate_reference(u, i, h, eta):
    m = len(i)
    if h == m:
        return ref.uniform_loss_distribution(u, i, eta)
    inputs = defaultdict(float)
    for kept, w in ref.thinned_inputs(i[:h], eta).items():
        for l, v in enumerate(ref.binomial_weights(sum(i[h:]), eta)):
            for s, p in ref.multinomial_spread(l, [1.0 / (m - h)] * (m - h)).items():
                inputs[tuple(kept) + tuple(s)] += w * v * p
    perms = [p for p in itertools.permutations(range(m)) if all(i[p[j]] == i[j] for j in range(m))]
    relabelled = defaultdict(float)  # which mode of the device gets which particles
    for p in perms:
        for s, w in inputs.items():
            t = [0] * m
            for j in range(m):
                t[p[j]] = s[j]
            relabelled[tuple(t)] += w / len(perms)
    return ref.mix((w, ref.lossless_distribution(u, s)) for s, w in relabelled.items())


def cases(rng, tier):
    out = []
    for j in range(170 if tier == "quick" else 2400):
        m = int(rng.choice([1, 2, 3, 4], p=[.04, .3, .4, .26]))
        n = int(rng.choice([0, 1, 2, 3, 4], p=[.01, .12, .4, .37, .1]))
        h = int(rng.integers(0, m + 1))
        eta = float(rng.choice([0.0, 1.0, round(float(rng.random()), 3)], p=[.04, .3, .66]))
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, m), "in": gen.random_state(rng, n, m),
                    "h": h, "eta": eta, "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "threads": int(rng.choice([1, 2, 3], p=[.7, .2, .1])), "reuse": bool(rng.random() < 0.3)})
    for j in range(48 if tier == "quick" else 700):  # larger and unequal occupations
        m = int(rng.integers(2, 6))
        occ = sorted(int(v) for v in rng.integers(0, 6, size=m))
        while sum(occ) > 9:
            occ[int(np.argmax(occ))] -= 1
        out.append({"k": "certain", "matrix": {"t": "phaseperm", "m": m, "s": int(rng.integers(1 << 30))},
                    "in": [occ[int(v)] for v in rng.permutation(m)], "h": m, "eta": [1.0, 1.0, 0.0][j % 3],
                    "calc": "ryser", "form": str(rng.choice(FORMS)), "threads": int(rng.integers(1, 4)),
                    "reuse": bool(j % 4 == 0)})
    for j in range(14 if tier == "quick" else 250):
        m = int(rng.choice([2, 2, 3]))
        s = [[3, 2], [2, 4], [5, 1], [4, 3], [2, 3, 1], [1, 2, 3], [2, 2, 3]][int(rng.integers(7))]
        m = len(s)
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, m, ("haar", "qft", "phaseperm")), "in": s,
                    "h": int(rng.integers(0, m + 1)), "eta": float(rng.choice([1.0, .5, .8])), "calc": "ryser",
                    "form": "list", "threads": 1, "reuse": False})
    for j in range(20 if tier == "quick" else 240):  # more modes; almost no losses, almost everything lost
        if j % 2:
            m, n = int(rng.integers(5, 7)), int(rng.integers(1, 3))
            eta = round(float(rng.uniform(.3, 1)), 3)
        else:
            m, n = 2, int(rng.integers(2, 6))
            eta = [.98, .99, .02, .985, .01][(j // 2) % 5]
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft")),
                    "in": gen.random_state(rng, n, m), "h": int(rng.integers(0, m + 1)), "eta": eta,
                    "calc": "ryser", "form": "list", "threads": 1, "reuse": False, "base": 4000})
    for j in range(10 if tier == "quick" else 120):  # rare outcomes
        m, n = [(2, 1), (2, 2)][j % 2]
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, m, ("tilted", "rot")),
                    "in": gen.random_state(rng, n, m), "h": int(rng.integers(0, m + 1)),
                    "eta": float(rng.choice([1, .99, .9])),
                    "calc": "ryser", "form": "list", "threads": 1, "reuse": False, "base": 9000})
    for j in range(12 if tier == "quick" else 160):  # several modes and several particles
        m, n = WIDE[j % len(WIDE)]
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft")),
                    "in": gen.random_state(rng, n, m, "spread" if n <= m and j % 2 else None),
                    "h": int(rng.integers(0, m + 1)), "eta": round(float(rng.uniform(.5, 1)), 3), "calc": "ryser",
                    "form": "list", "threads": 1, "reuse": False, "base": 400, "wide": True})
    for j in range(3 if tier == "quick" else 30):  # more particles than 64 bits can order
        n = int(rng.integers(20, 25)) if j % 3 < 2 else int(rng.integers(12, 15))  # exact particles are costly
        a = int(rng.integers(0, 13))
        out.append({"k": "fit", "matrix": gen.random_unitary_spec(rng, 2, ("haar", "orth")), "in": [a, n - a], "h": j % 3,
                    "eta": 1.0 if j % 3 else .9, "calc": "chinhuh", "form": "list", "threads": 1,
                    "reuse": False, "base": [150, 150, 80][j % 3], "wide": True})
    for j in range(6 if tier == "quick" else 60):
        m = int(rng.integers(6, 13))
        out.append({"k": "certain", "matrix": {"t": "phaseperm", "m": m, "s": int(rng.integers(1 << 30))},
                    "in": gen.random_state(rng, int(rng.integers(4, 12)), m), "h": m, "eta": [1.0, 1.0, 0.0][j % 3],
                    "calc": "ryser", "form": str(rng.choice(FORMS)), "threads": int(rng.integers(1, 4)), "reuse": bool(j % 2)})
    return out


def run_case(case, mon):
    i, h, eta = case["in"], case["h"], case["eta"]
    m, n = len(i), sum(i)
    state = gen.as_state(i, case["form"])
    u = gen.build_matrix(case["matrix"])
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("gap_inputs", int(n > 0 and i != sorted(i, reverse=True)))
    mon.count("several_workers", int(case["threads"] > 1))
    mon.count("lossless", int(eta == 1))
    mon.count("wide_networks", int("wide" in case))
    mon.count("all_lost", int(eta == 0))
    mon.count("exact_level" if h == m else "fully_approximated" if h == 0 else "partly_approximated")
    if case["k"] == "certain":
        want = [0] * m
        for c, v in enumerate(i):
            want[int(np.argmax(np.abs(u[:, c])))] += int(v * eta)
        with mon.code("ubobs"):
            s = sut.sampler("ubobs", u, i, case["calc"], eta=eta, h=h, threads=case["threads"])
            if case["reuse"]:
                s.simulate([int(v) for v in reversed(i)], 2)
                mon.count("reused")
            got = s.simulate(state, 12)
        mon.check(len(got) == 12, "samples-number:ubobs", "%d samples instead of 12" % len(got))
        deterministic(mon, "ubobs", got, want, "input %s, transmissivity %g" % (i, eta))
        mon.count("unequal_occupations", int(len({v for v in i if v > 1}) > 1))
        return
    r = approximate_reference(u, i, h, eta)
    made = []

    def draw(count):
        if case["reuse"]:
            if not made:
                made.append(sut.sampler("ubobs", u, i, case["calc"], eta=eta, h=h, threads=case["threads"]))
                made[0].simulate([int(v) for v in reversed(i)], 2)
                mon.count("reused")
            s = made[0]
        else:
            s = sut.sampler("ubobs", u, i, case["calc"], eta=eta, h=h, threads=case["threads"])
        return s.simulate(state, count)

    info = monitored(mon, "ubobs", draw, r, m, case.get("base", 1800), ctx="input %s, hierarchy level %d, transmissivity %g, %s"
                     % (i, h, eta, case["matrix"]["t"]))
    possible = sum(p > 1e-9 for p in r.values())
    if n >= 2 and possible >= 4 and h < m:
        mon.see("nontrivial", [case["matrix"], i, h, eta])
        mon.sample({"matrix": case["matrix"], "in": i, "hierarchy": h, "eta": eta, "draws": info["draws"],
                    "distinct_outcomes": info["distinct"], "possible": possible, "p": info["p"]})
