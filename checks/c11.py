"""C11: the partially approximated sampler for lossy networks (mode-dependent losses)."""
import numpy as np

from checks.c10 import lossy_spec
from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C11"
REQUIRED = ("fits:bobs", "exact_level", "fully_approximated", "partly_approximated", "several_workers",
            "lossless_networks", "uniform_networks", "nonuniform_networks", "opaque_networks",
            "bunched_inputs", "reused", "clamped", "certain:bobs", "wide_networks")
RULE = (
    "random (sub-)unitary networks, inputs, numbers of approximated modes (0 up to all, also outside "
    "the range) and worker processes; staged chi-square against the exact distribution of the input "
    "whose approximated modes are replaced by independently, uniformly spread particles, computed "
    "with an independent dilation; with nothing approximated the reference is the exact lossy "
    "distribution; non-trivial: at least one mode is approximated, 2 particles, 4 possible outcomes"
)
ASSUMPTIONS = ("singular values of the network do not exceed 1",)
CALC = ("glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array")
WIDE = ((4, 4), (5, 3), (5, 4), (6, 3), (6, 4), (4, 5))
CASE_TIMEOUT = 300
TIMER = "real"
BUDGET = {"quick": 320, "thorough": 2400}


def approximate_reference(a, i, k):
    m = len(i)
    k = max(0, min(k, m))
    if k == 0:
        return ref.lossy_distribution(a, i)
    spread = ref.multinomial_spread(sum(i[:k]), [1.0 / k] * k)
    return ref.mix((w, ref.lossy_distribution(a, tuple(s) + tuple(i[k:]))) for s, w in spread.items())


def cases(rng, tier):
    out = []
    for j in range(170 if tier == "quick" else 2400):
        m = int(rng.choice([1, 2, 3, 4], p=[.04, .38, .38, .2]))
        n = int(rng.choice([0, 1, 2, 3, 4], p=[.01, .12, .4, .37, .1]))
        if m == 4:
            n = min(n, 3)
        spec = lossy_spec(rng, m)
        if j % 4 == 0:
            spec = dict(gen.random_unitary_spec(rng, m, ("haar", "qft", "hadam", "perm")), style="lossless")
        k = int(rng.integers(0, m + 1))
        if j % 17 == 16:
            k = int(rng.choice([-1, m + 1, m + 5]))
        out.append({"k": "fit", "matrix": spec, "in": gen.random_state(rng, n, m), "approx": k,
                    "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "threads": int(rng.choice([1, 2, 3], p=[.7, .2, .1])),
                    "reuse": bool(rng.random() < 0.3)})
    for j in range(40 if tier == "quick" else 600):  # larger and unequal occupations, opaque modes
        m = int(rng.integers(2, 6))
        occ = sorted(int(v) for v in rng.integers(0, 6, size=m))
        while sum(occ) > 8:
            occ[int(np.argmax(occ))] -= 1
        out.append({"k": "certain", "matrix": {"t": "phaseperm", "m": m, "s": int(rng.integers(1 << 30))},
                    "in": [occ[int(v)] for v in rng.permutation(m)], "approx": int(rng.integers(0, 2)),
                    "calc": "ryser", "form": str(rng.choice(FORMS)), "threads": int(rng.integers(1, 4)),
                    "open": [int(v) for v in rng.integers(0, 3, size=m) > 0] if j % 2 else [1] * m,
                    "reuse": bool(j % 4 == 0)})
    for j in range(10 if tier == "quick" else 200):
        s = [[3, 2], [2, 4], [5, 1], [4, 1], [2, 3, 0], [1, 2, 2]][int(rng.integers(6))]
        out.append({"k": "fit", "matrix": lossy_spec(rng, len(s)), "in": s, "approx": int(rng.integers(0, len(s) + 1)),
                    "calc": "ryser", "form": "list", "threads": 1, "reuse": False})
    for j in range(16 if tier == "quick" else 200):  # many modes; almost no losses, almost everything lost
        if j % 2:
            m, n = int(rng.integers(5, 8)), int(rng.integers(1, 3))
            spec = lossy_spec(rng, m)
        else:
            m, n = 2, int(rng.integers(2, 5))
            e = [.98, .99, .02, .985][(j // 2) % 4]
            spec = {"t": "lossy", "m": m, "s": int(rng.integers(1 << 30)), "eta": [e, [e, 1.0][j // 8 % 2]], "style": "near"}
        out.append({"k": "fit", "matrix": spec, "in": gen.random_state(rng, n, m), "approx": int(rng.integers(0, 3)),
                    "calc": "ryser", "form": "list", "threads": 1, "reuse": False, "base": 4000})
    for j in range(10 if tier == "quick" else 120):  # rare outcomes
        m, n = [(2, 1), (2, 2)][j % 2]
        out.append({"k": "fit", "matrix": dict(gen.random_unitary_spec(rng, m, ("tilted", "rot")),
                                               scale=float(rng.choice([1, .99, .9])), style="near"),
                    "in": gen.random_state(rng, n, m), "approx": int(rng.integers(0, 3)),
                    "calc": "ryser", "form": "list", "threads": 1, "reuse": False, "base": 9000})
    for j in range(12 if tier == "quick" else 160):  # several modes and several particles
        m, n = WIDE[j % len(WIDE)]
        out.append({"k": "fit", "matrix": lossy_spec(rng, m),
                    "in": gen.random_state(rng, n, m, "spread" if n <= m and j % 2 else None),
                    "approx": int(rng.integers(0, m + 1)), "calc": "ryser", "form": "list", "threads": 1, "reuse": False,
                    "base": 400, "wide": True})
    for j in range(3 if tier == "quick" else 30):  # more particles than 64 bits can order
        n = int(rng.integers(20, 25))
        a = int(rng.integers(0, n + 1))
        out.append({"k": "fit", "matrix": lossy_spec(rng, 2), "in": [a, n - a], "approx": j % 3, "calc": "chinhuh",
                    "form": "list", "threads": 1, "reuse": False, "base": 150, "wide": True})
    return out


def run_case(case, mon):
    i = case["in"]
    m, n, k = len(i), sum(i), case["approx"]
    state = gen.as_state(i, case["form"])
    a = gen.build_matrix(case["matrix"])
    if case["k"] == "certain":
        a = a * np.array(case["open"])
        want = [0] * m
        for c, v in enumerate(i):
            if case["open"][c]:
                want[int(np.argmax(np.abs(a[:, c])))] += v
        with mon.code("bobs"):
            s = sut.sampler("bobs", a, i, case["calc"], approx=k, threads=case["threads"])
            if case["reuse"]:
                s.simulate([int(v) for v in reversed(i)], 2)
                mon.count("reused")
            got = s.simulate(state, 8)
        mon.check(len(got) == 8, "samples-number:bobs", "%d samples instead of 8" % len(got))
        deterministic(mon, "bobs", got, want, "input %s, open modes %s" % (i, case["open"]))
        return
    style = case["matrix"]["style"]
    mon.count("wide_networks", int("wide" in case))
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("several_workers", int(case["threads"] > 1))
    mon.count({"lossless": "lossless_networks", "uniform": "uniform_networks", "opaque": "opaque_networks",
               "allopaque": "opaque_networks"}.get(style, "nonuniform_networks"))
    mon.count("clamped", int(k < 0 or k > m))
    mon.count("exact_level" if k <= 0 else "fully_approximated" if k >= m else "partly_approximated")
    r = approximate_reference(a, i, k)
    made = []

    def draw(count):
        if case["reuse"]:
            if not made:  # the same sampler, after it served another input
                made.append(sut.sampler("bobs", a, i, case["calc"], approx=k, threads=case["threads"]))
                made[0].simulate([int(v) for v in reversed(i)], 2)
                mon.count("reused")
            s = made[0]
        else:
            s = sut.sampler("bobs", a, i, case["calc"], approx=k, threads=case["threads"])
        return s.simulate(state, count)

    info = monitored(mon, "bobs", draw, r, m, case.get("base", 1800), ctx="input %s, %d approximated modes, %s network %s"
                     % (i, k, style, case["matrix"]["t"]))
    possible = sum(p > 1e-9 for p in r.values())
    if n >= 2 and possible >= 4 and k > 0:
        mon.see("nontrivial", [case["matrix"], i, k])
        mon.sample({"matrix": case["matrix"], "in": i, "approximated": k, "draws": info["draws"],
                    "distinct_outcomes": info["distinct"], "possible": possible, "p": info["p"]})
