"""C08: the lossless samplers follow the exact Boson Sampling distribution."""
import numpy as np

from vlib import extreme, gen, ref, stats, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C08"
REQUIRED = ("fits:gcc_a", "fits:gcc_b", "fits:gcc_ma", "certain:gcc_a", "certain:gcc_b",
            "certain:gcc_ma", "bunched_inputs", "gap_inputs", "suppressed_outcomes", "reused",
            "extreme:gcc_a", "extreme:gcc_b", "extreme:gcc_ma", "embedded")
RULE = (
    "three exact samplers x four permanent calculators x random interferometers and inputs (gaps, "
    "bunching, last modes, vacuum, up to 24 particles, rare outcomes); pooled chi-square of the full outcome, single-mode marginals "
    "and consecutive pairs in three stages, plus zero tolerance for outcomes of zero probability; "
    "larger networks (up to 24 modes, 7 particles) with monomial matrices where the only possible "
    "outcome is known, and permutation matrices with random generators forced to their extreme draws "
    "(0 and 1-2^-53); non-trivial: an input with at least 2 particles and at least 3 possible "
    "outcomes"
)
ASSUMPTIONS = ("pseudo-random numbers of numpy / random are adequate",)
WHO = ("gcc_a", "gcc_b", "gcc_ma")
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "ro")
BASE = {"gcc_a": 9000, "gcc_ma": 6000, "gcc_b": 2500}
CASE_TIMEOUT = 240


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(240 * k):
        who = WHO[j % 3]
        m = int(rng.choice([1, 2, 3, 4, 5, 6], p=[.03, .27, .3, .2, .12, .08]))
        n = int(rng.choice([0, 1, 2, 3, 4, 5], p=[.01, .09, .3, .35, .2, .05]))
        if m >= 5:
            n = min(n, 3)
        if who == "gcc_ma":
            n = min(n, 4)
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, m),
                    "in": gen.random_state(rng, n, m), "calc": str(rng.choice(CALC)),
                    "form": str(rng.choice(FORMS)), "reuse": bool(rng.random() < 0.3)})
    for j in range(15 * k):  # beam splitter / Fourier suppression laws
        who = WHO[j % 3]
        t = ["hadam", "qft"][int(rng.integers(2))]
        m = int(rng.choice([2, 3, 4]))
        s = [1] * m if t == "qft" or m % 2 else gen.random_state(rng, m, m, "standard")
        out.append({"k": "fit", "who": who, "matrix": {"t": t, "m": m}, "in": s,
                    "calc": str(rng.choice(CALC)), "form": "list", "reuse": False})
    for j in range(36 * k):  # more particles
        who = WHO[j % 3]
        if j % 2:
            m, n = 2, int(rng.integers(5, 11 if who != "gcc_ma" else 7))
        else:
            m, n = int(rng.integers(3, 7)), int(rng.integers(5, 7 if who == "gcc_b" else 6))
        calc = "ryser" if n > 6 else str(rng.choice(["glynn", "chinhuh", "ryser"]))
        base = {"gcc_a": 4000, "gcc_b": 350, "gcc_ma": 250}[who]
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft", "hadam")),
                    "in": gen.random_state(rng, n, m), "calc": calc, "form": "list", "reuse": False,
                    "base": base})
    for j in range(30 * k):  # many modes, few particles
        who = WHO[j % 3]
        m, n = int(rng.integers(7, 17)), 1 + (j // 3) % 2
        if who == "gcc_ma":
            m = min(m, 10)
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft", "block")),
                    "in": gen.random_state(rng, n, m), "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "reuse": bool(j % 2), "base": 3000})
    for j in range(30 * k):  # rare outcomes
        m, n = int(rng.integers(2, 5)), 1 + (j // 3) % 2
        out.append({"k": "fit", "who": WHO[j % 3], "matrix": gen.random_unitary_spec(rng, m, ("tilted", "tilted", "weak")),
                    "in": gen.random_state(rng, n, m), "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "reuse": bool(j % 2), "base": 9000})
    for j in range(12 * k):  # outcomes of a per mille
        m = int(rng.integers(2, 4))
        out.append({"k": "fit", "who": WHO[j % 3], "matrix": gen.random_unitary_spec(rng, m, ("rot",)),
                    "in": gen.random_state(rng, 1, m), "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "reuse": bool(j % 2), "base": 40000})
    for j in range(9 * k):  # one or two modes, many particles
        who = WHO[j % 3]
        n = int(rng.integers(11, 17 if who != "gcc_ma" else 13))
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, 2, ("haar", "orth")),
                    "in": gen.random_state(rng, n, 2), "calc": "ryser", "form": "list", "reuse": False,
                    "base": {"gcc_a": 3000, "gcc_b": 200, "gcc_ma": 60}[who]})
    for j in range(12 * k):  # two modes, more particles than 64 bits can order
        who, n = WHO[j % 3], int(rng.integers(20, 25))
        a = int(rng.integers(1, n)) if j % 4 else int(rng.choice([0, n]))
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, 2, ("haar", "orth")),
                    "in": [a, n - a], "calc": "chinhuh", "form": "list", "reuse": bool(j // 3 % 2),
                    "base": {"gcc_a": 400, "gcc_b": 200, "gcc_ma": 150}[who]})
    for j in range(12 * k):
        who, m, n = WHO[j % 3], 2 + j % 3 % 2, int(rng.integers(13, 23))
        out.append({"k": "certain", "who": who, "m": m, "in": gen.random_state(rng, n, m),
                    "s": int(rng.integers(1 << 30)), "calc": "chinhuh", "form": str(rng.choice(FORMS))})
    for j in range(24 * k):  # a few coupled modes among many
        who = WHO[j % 3]
        m, q, n = int(rng.integers(11, 25)), 2, int(rng.integers(2, 5))
        modes = sorted(int(v) for v in rng.choice(m, size=q, replace=False))
        if j % 2:  # modes that a careless name would confuse
            modes = [[1, 11], [0, 10], [2, 12], [1, 10]][j // 6 % 4]
            m, n = max(m, 13), int(rng.integers(3, 5))
        out.append({"k": "fit", "who": who, "matrix": gen.random_unitary_spec(rng, q, ("haar", "orth")), "embed": modes,
                    "in": gen.random_state(rng, n, q) if j % 4 else [1, n - 1], "calc": "ryser", "form": str(rng.choice(FORMS)),
                    "reuse": bool(j % 2), "m": m, "base": {"gcc_a": 5000, "gcc_b": 700, "gcc_ma": 2500}[who]})
    for j in range(60 * k):
        who = WHO[j % 3]
        m = int(rng.integers(2, 25))
        n = int(rng.integers(1, 8 if who == "gcc_b" else 6))
        if who != "gcc_b":
            m = min(m, 10)
        out.append({"k": "certain", "who": who, "m": m, "in": gen.random_state(rng, n, m),
                    "s": int(rng.integers(1 << 30)),
                    "calc": "ryser" if n > 5 else str(rng.choice(CALC)), "form": str(rng.choice(FORMS))})
    for j in range(180 * k):
        m, n = int(rng.integers(2, 8)), int(rng.integers(1, 5))
        out.append({"k": "certain", "who": WHO[j % 3], "m": m, "in": gen.random_state(rng, n, m),
                    "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "extreme": ["low", "high", "alternate", "alternate2"][(j // 3) % 4]})
    return out


def run_case(case, mon):
    who, i = case["who"], case["in"]
    m, n = len(i), sum(i)
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("gap_inputs", int(n > 0 and i != sorted(i, reverse=True)))
    if case["k"] == "certain":
        # exact arithmetic where rounding errors of impossible outcomes could be drawn
        u = gen.build_matrix({"t": "perm" if "extreme" in case else "phaseperm", "m": m, "s": case["s"]})
        want = [0] * m
        for c, v in enumerate(i):
            want[int(np.argmax(np.abs(u[:, c])))] += v
        with mon.code(who):
            s = sut.sampler(who, u, i, case["calc"])
            if "extreme" in case:
                extreme.arm(case["extreme"])
                mon.count("extreme:" + who)
            got = s.simulate(gen.as_state(i, case["form"]), 6)
        mon.check(len(got) == 6, "samples-number:" + who, "%d samples instead of 6" % len(got))
        deterministic(mon, who, got, want, "input %s" % i)
        mon.see("nontrivial", [who, case["s"], i])
        return
    u = gen.build_matrix(case["matrix"])
    r = ref.lossless_distribution(u, i)
    if "embed" in case:
        m, modes = case["m"], case["embed"]
        small, u = u, np.eye(m, dtype=complex)
        u[np.ix_(modes, modes)] = small

        def wide(s):
            t = [0] * m
            for c, v in zip(modes, s):
                t[c] = v
            return t
        i, r = wide(i), {tuple(wide(s)): p for s, p in r.items()}
        mon.count("embedded")
    state = gen.as_state(i, case["form"])
    with mon.code("construct " + who):
        s = sut.sampler(who, u, i, case["calc"])
    fresh = [0]

    def draw(k):
        if case["reuse"]:
            fresh[0] += 1
            return s.simulate(state, k)
        return sut.sampler(who, u, i, case["calc"]).simulate(state, k)

    info = monitored(mon, who, draw, r, m, case.get("base", BASE[who]), lags=(1,),
                     ctx="input %s, %s matrix, %s" % (i, case["matrix"]["t"], case["calc"]))
    mon.count("reused", int(case["reuse"]))
    mon.count("suppressed_outcomes", "embed" not in case and len(ref.compositions(n, m)) - sum(p > stats.IMPOSSIBLE for p in r.values()))
    possible = sum(p > 1e-9 for p in r.values())
    if n >= 2 and possible >= 3:
        mon.see("nontrivial", [who, case["matrix"], i])
        mon.sample({"sampler": who, "matrix": case["matrix"], "in": i, "draws": info["draws"],
                    "distinct_outcomes": info["distinct"], "possible": possible, "p": info["p"]})
