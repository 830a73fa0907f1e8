"""C13: separable approximations (fixed losses and uniform losses)."""
import numpy as np

from checks.c10 import lossy_spec
from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C13"
REQUIRED = ("fits:fixed", "fits:uniform", "certain:fixed", "bunched_inputs", "gap_inputs",
            "lossless_network_strategy", "lossy_networks", "one_left_exact", "occupied_modes_4")
RULE = (
    "fixed-loss and uniform-loss separable strategies on random (sub-)unitary networks and inputs, "
    "with the default and with the lossless network model; staged chi-square against the "
    "phase-averaged product state computed independently; for one particle left (or bunched inputs) "
    "the reference is the exact Boson Sampling distribution; non-trivial: at least 2 particles left "
    "and 3 possible outcomes"
)
ASSUMPTIONS = ("at most as many particles are left as the input has",)
FORMS = ("list", "tuple", "array", "ro")
WIDE = ((4, 4), (5, 4), (5, 5), (6, 5), (7, 6), (8, 7))
CASE_TIMEOUT = 240


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(160 * k):
        m = int(rng.choice([1, 2, 3, 4, 5], p=[.04, .3, .36, .2, .1]))
        n = int(rng.choice([0, 1, 2, 3, 4, 5, 6], p=[.01, .14, .3, .3, .15, .06, .04]))
        left = int(rng.integers(0, n + 1)) if rng.random() < 0.5 else n
        spec = gen.random_unitary_spec(rng, m) if rng.random() < 0.65 else lossy_spec(rng, m)
        out.append({"who": "fixed", "matrix": spec, "in": gen.random_state(rng, n, m),
                    "left": min(left, 4), "net": str(rng.choice(["default", "lossless", "lossy"])),
                    "form": str(rng.choice(FORMS))})
    for j in range(100 * k):
        m = int(rng.choice([1, 2, 3, 4], p=[.04, .36, .36, .24]))
        n = int(rng.choice([0, 1, 2, 3, 4], p=[.02, .18, .35, .35, .1]))
        spec = gen.random_unitary_spec(rng, m) if rng.random() < 0.7 else lossy_spec(rng, m)
        eta = float(rng.choice([0.0, 1.0, round(float(rng.random()), 3)], p=[.06, .1, .84]))
        out.append({"who": "uniform", "matrix": spec, "in": gen.random_state(rng, n, m), "eta": eta,
                    "form": str(rng.choice(FORMS))})
    for j in range(60 * k):  # many modes; many particles; almost no losses, almost everything lost
        who = ("fixed", "uniform")[j % 2]
        c = {"who": who, "form": str(rng.choice(FORMS)), "base": 8000 if who == "fixed" else 5000}
        if j % 4 < 2:
            m, n = int(rng.integers(6, 15)), int(rng.integers(1, 3))
        else:
            m, n = int(rng.integers(2, 4)), int(rng.integers(4, 8))
        c["matrix"] = gen.random_unitary_spec(rng, m) if j % 3 else lossy_spec(rng, m)
        c["in"] = gen.random_state(rng, n, m)
        if who == "fixed":
            c.update(left=int(rng.integers(1, n + 1)), net=str(rng.choice(["default", "lossless", "lossy"])))
        else:
            c.update(eta=float(rng.choice([.98, .99, .995, .02, .01, round(float(rng.random()), 3)])))
        out.append(c)
    for j in range(24 * k):  # many occupied modes
        who = ("fixed", "uniform")[j % 2]
        m, n = (WIDE if who == "fixed" else WIDE[:3])[j // 2 % (6 if who == "fixed" else 3)]
        c = {"who": who, "form": str(rng.choice(FORMS)), "base": 3000,
             "matrix": gen.random_unitary_spec(rng, m) if j % 3 else lossy_spec(rng, m),
             "in": gen.random_state(rng, n, m, "spread" if j % 4 < 2 else None)}
        if who == "fixed":
            c.update(left=2 + j // 4 % (3 if m < 7 else 2), net=str(rng.choice(["default", "lossless", "lossy"])))
        else:
            c.update(eta=round(float(rng.random()), 3))
        out.append(c)
    for j in range(16 * k):  # rare outcomes
        who = ("fixed", "uniform")[j % 2]
        m, n = [(2, 1), (3, 2)][j // 2 % 2]
        c = {"who": who, "form": str(rng.choice(FORMS)), "base": 20000, "in": gen.random_state(rng, n, m),
             "matrix": gen.random_unitary_spec(rng, m, ("tilted", "rot"))}
        if j % 3 == 0:
            c["matrix"] = {"t": "lossyin", "m": m, "s": int(rng.integers(1 << 30)), "style": "near",
                           "eta": [[.999, 1, .99], [.002, 1, .5]][j // 3 % 2][:m]}
        if who == "fixed":
            c.update(left=1 + j // 4 % n, net=str(rng.choice(["default", "lossless", "lossy"])))
        else:
            c.update(eta=float(rng.choice([.999, 1, .0015, .5])))
        out.append(c)
    for j in range(9 * k):  # more particles than 64 bits can order
        n = int(rng.integers(21, 31))
        a = int(rng.integers(0, n + 1))
        out.append({"who": "fixed", "matrix": gen.random_unitary_spec(rng, 2) if j % 3 else lossy_spec(rng, 2), "in": [a, n - a],
                    "left": [3, 12, 21][j % 3] if j // 3 % 2 else int(rng.integers(1, 13)), "base": 1500,
                    "net": str(rng.choice(["default", "lossless", "lossy"])), "form": str(rng.choice(FORMS))})
    for j in range(4 * k):
        n = int(rng.integers(8, 14))
        out.append({"who": "uniform", "matrix": gen.random_unitary_spec(rng, 2) if j % 3 else lossy_spec(rng, 2),
                    "in": gen.random_state(rng, n, 2), "eta": round(float(rng.random()), 3), "base": 1000,
                    "form": str(rng.choice(FORMS))})
    return out


def run_case(case, mon):
    who, i = case["who"], case["in"]
    m, n = len(i), sum(i)
    a = gen.build_matrix(case["matrix"])
    state = gen.as_state(i, case["form"])
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("occupied_modes_4", int(sum(v > 0 for v in i) >= 4))
    mon.count("gap_inputs", int(n > 0 and i != sorted(i, reverse=True)))
    mon.count("lossy_networks", int("eta" in case["matrix"]))
    if who == "fixed":
        left = case["left"]
        r = ref.separable_fixed_loss_distribution(a, i, left)

        def draw(k):
            net = None
            if case["net"] == "lossless" and "eta" not in case["matrix"]:
                net = sut.LosslessNetworkSimulationStrategy(a)
            elif case["net"] == "lossy":
                net = sut.LossyNetworkSimulationStrategy(a)
            return sut.sampler("fixed", a, i, left=left, network=net).simulate(state, k)

        mon.count("lossless_network_strategy", int(case["net"] == "lossless"))
        if left == 1 and n >= 1 and "eta" not in case["matrix"]:
            exact = ref.fixed_loss_distribution(a, i, 1)
            assert ref.tvd(exact, r) < 1e-9
            mon.count("one_left_exact")
        ctx = "input %s, %d left, %s" % (i, left, case["matrix"]["t"])
        if left == 0:
            with mon.code(who):
                got = draw(50)
            deterministic(mon, who, got, [0] * m, ctx)
        else:
            mon.count("certain:fixed", 0)
        base = 5000
    else:
        eta = case["eta"]
        r = ref.mix((w, ref.separable_fixed_loss_distribution(a, i, l))
                    for l, w in enumerate(ref.binomial_weights(n, eta)))

        def draw(k):
            return sut.sampler("uniform", a, i, eta=eta).simulate(state, k)

        ctx = "input %s, transmissivity %g, %s" % (i, eta, case["matrix"]["t"])
        left = n
        base = 2500
    info = monitored(mon, who, draw, r, m, case.get("base", base), ctx=ctx)
    possible = sum(p > 1e-9 for p in r.values())
    if left >= 2 and possible >= 3:
        mon.see("nontrivial", [who, case["matrix"], i, left])
        mon.sample({"strategy": who, "matrix": case["matrix"], "in": i, "draws": info["draws"],
                    "distinct_outcomes": info["distinct"], "possible": possible, "p": info["p"]})
