"""C09: the samplers with uniform losses follow the exact lossy distribution."""
import numpy as np

from vlib import extreme, gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C09"
REQUIRED = ("fits:gcc_a_ul", "fits:gcc_b_ul", "certain:gcc_a_ul", "certain:gcc_b_ul", "bunched_inputs",
            "eta_zero", "eta_one", "eta_between", "extreme:gcc_a_ul", "extreme:gcc_b_ul",
            "few_of_many")
RULE = (
    "two samplers x permanent calculators x random interferometers, inputs and transmissivities "
    "(0, 1 and in between); staged chi-square of outcomes, particle numbers, marginals and pairs; "
    "transmissivities 0 and 1 with random generators forced to their extreme draws (0 and 1-2^-53); "
    "non-trivial: 0 < transmissivity < 1, at least 2 particles and 4 possible outcomes"
)
ASSUMPTIONS = ("pseudo-random numbers of numpy / random are adequate",)
WHO = ("gcc_a_ul", "gcc_b_ul")
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "ro")
BASE = {"gcc_a_ul": 7000, "gcc_b_ul": 3000}
CASE_TIMEOUT = 240


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(220 * k):
        who = WHO[j % 2]
        m = int(rng.choice([1, 2, 3, 4, 5], p=[.05, .3, .35, .2, .1]))
        n = int(rng.choice([0, 1, 2, 3, 4, 5], p=[.01, .12, .3, .35, .17, .05]))
        if m >= 5:
            n = min(n, 3)
        if j % 20 in (0, 1):
            m, n = 2, int(rng.integers(5, 9))
        eta = float(rng.choice([0.0, 1.0, 0.02, 0.98, round(float(rng.random()), 3)],
                               p=[.04, .06, .05, .05, .8]))
        out.append({"who": who, "matrix": gen.random_unitary_spec(rng, m), "in": gen.random_state(rng, n, m),
                    "eta": eta, "calc": "ryser" if n > 5 else str(rng.choice(CALC)),
                    "form": str(rng.choice(FORMS)), "reuse": bool(rng.random() < 0.3)})
    for j in range(40 * k):  # many modes; almost no losses, almost everything lost
        who = WHO[j % 2]
        eta = [.98, .985, .99, .995, .02, .015, .01, .995, .97, .999][(j // 4) % 10]
        if j % 4 < 2:
            m, n = int(rng.integers(6, 14)), int(rng.integers(1, 3))
            eta = eta if j % 8 < 2 else round(float(rng.random()), 3)
        else:
            m, n = 2, int(rng.integers(3, 7))
        out.append({"who": who, "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft")),
                    "in": gen.random_state(rng, n, m), "eta": eta, "calc": "ryser",
                    "form": str(rng.choice(FORMS)), "reuse": bool(j % 3 == 0),
                    "base": 12000 if n < 5 else 6000})
    for j in range(8 * k):  # outcomes of a per mille
        m = int(rng.integers(2, 4))
        out.append({"who": WHO[j % 2], "matrix": gen.random_unitary_spec(rng, m, ("rot",)),
                    "in": gen.random_state(rng, 1, m), "eta": [.9, .999, .5, .0015][j // 2 % 4],
                    "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "reuse": bool(j // 2 % 2), "base": 40000})
    for j in range(20 * k):  # rare outcomes; two modes, many particles
        who = WHO[j % 2]
        if j % 4 < 2:
            m, n = int(rng.integers(2, 5)), int(rng.integers(1, 3))
            kinds, base = ("tilted",), 9000
        else:
            m, n = 2, int(rng.integers(9, 17))
            kinds, base = ("haar", "orth"), 2500 if who == "gcc_a_ul" else 250
        out.append({"who": who, "matrix": gen.random_unitary_spec(rng, m, kinds), "in": gen.random_state(rng, n, m),
                    "eta": float(rng.choice([.9, .95, .5, round(float(rng.random()), 3)])), "calc": "ryser",
                    "form": str(rng.choice(FORMS)), "reuse": bool(j % 3 == 0), "base": base})
    for j in range(24 * k):  # many particles of which few survive; the number of survivors in one mode
        who = WHO[j // 2 % 2]
        if j % 2:
            m, n = 2, int(rng.integers(8, 15))
            eta = round(float(rng.uniform(.4, 2)) / n, 4)
        else:
            m, n = 1, int(rng.integers(8, 25))
            eta = round(float(rng.choice([.1, .5, .9, rng.random()])), 4)
        out.append({"who": who, "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth")),
                    "in": gen.random_state(rng, n, m), "eta": eta, "calc": "ryser",
                    "form": str(rng.choice(FORMS)), "reuse": bool(j % 3), "many": 1,
                    "base": 6000 if m == 2 else 1500 if who == "gcc_b_ul" else 6000})
    for j in range(120 * k):
        m, n = int(rng.integers(1, 7)), int(rng.integers(1, 5))
        out.append({"who": WHO[j % 2], "matrix": {"t": "perm", "m": m, "s": int(rng.integers(1 << 30))},
                    "in": gen.random_state(rng, n, m), "eta": [0.0, 1.0, 0, 1][(j // 2) % 4],
                    "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "extreme": ["low", "high", "alternate", "alternate2"][(j // 8) % 4]})
    return out


def run_case(case, mon):
    who, i, eta = case["who"], case["in"], case["eta"]
    m, n = len(i), sum(i)
    u = gen.build_matrix(case["matrix"])
    state = gen.as_state(i, case["form"])
    ctx = "input %s, transmissivity %g, %s" % (i, eta, case["matrix"]["t"])
    with mon.code("construct " + who):
        s = sut.sampler(who, u, i, case["calc"], eta=eta)
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("eta_zero" if eta == 0 else "eta_one" if eta == 1 else "eta_between")
    mon.count("few_of_many", int("many" in case))
    if "extreme" in case:
        want = [0] * m
        for c, v in enumerate(i):
            want[int(np.argmax(np.abs(u[:, c])))] += v * int(eta)
        extreme.arm(case["extreme"])
        with mon.code(who):
            got = s.simulate(state, 5)
        mon.check(len(got) == 5, "samples-number:" + who, "%d samples instead of 5" % len(got))
        deterministic(mon, who, got, want, "%s, %s draws" % (ctx, case["extreme"]))
        mon.count("extreme:" + who)
        return
    if eta == 0 or n == 0:
        with mon.code(who):
            got = s.simulate(state, 300)
        deterministic(mon, who, got, [0] * m, ctx)
    else:
        mon.count("certain:" + who, 0)
    r = ref.uniform_loss_distribution(u, i, eta)

    def draw(k):
        t = s if case["reuse"] else sut.sampler(who, u, i, case["calc"], eta=eta)
        return t.simulate(state, k)

    info = monitored(mon, who, draw, r, m, case.get("base", BASE[who] if n < 5 else BASE[who] // 4), ctx=ctx)
    possible = sum(p > 1e-9 for p in r.values())
    if n >= 2 and possible >= 4 and 0 < eta < 1:
        mon.see("nontrivial", [who, case["matrix"], i, eta])
        mon.sample({"sampler": who, "matrix": case["matrix"], "in": i, "eta": eta,
                    "draws": info["draws"], "distinct_outcomes": info["distinct"], "p": info["p"]})
