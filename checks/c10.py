"""C10: the sampler for lossy networks follows the exact distribution of the sub-unitary
network."""
import numpy as np

from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C10"
REQUIRED = ("fits:lossynet", "certain:lossynet", "lossless_networks", "opaque_modes", "uniform_networks",
            "nonuniform_networks", "new_matrix", "resized_networks", "bunched_inputs", "wide_networks")
RULE = (
    "random sub-unitary networks (losses before, after and inside, single opaque modes, uniform, "
    "lossless, all-opaque), random inputs, matrices given at construction or set later; staged "
    "chi-square against an isometric dilation built independently; non-trivial: non-uniform losses, "
    "at least 2 particles and 4 possible outcomes"
)
ASSUMPTIONS = ("singular values of the network do not exceed 1",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array", "ro")
WIDE = ((4, 4), (5, 4), (6, 4), (4, 5), (5, 5), (6, 3), (7, 3), (5, 3))
CASE_TIMEOUT = 240


def lossy_spec(rng, m):
    style = str(rng.choice(["random", "random", "one", "uniform", "lossless", "opaque", "allopaque"],
                           p=[.35, .2, .13, .12, .07, .1, .03]))
    t = str(rng.choice(["lossy", "lossyin", "lossyout", "diag", "lossyreal"], p=[.4, .2, .2, .08, .12]))
    if style == "random":
        eta = rng.random(m)
    elif style == "one":
        eta = np.ones(m)
        eta[int(rng.integers(m))] = rng.random()
    elif style == "uniform":
        eta = np.full(m, rng.random())
    elif style == "lossless":
        eta = np.ones(m)
    elif style == "opaque":
        eta = rng.random(m)
        eta[int(rng.integers(m))] = 0
    else:
        eta = np.zeros(m)
    return {"t": t, "m": int(m), "s": int(rng.integers(1 << 30)),
            "eta": [round(float(v), 4) for v in eta], "style": style}


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(150 * k):
        m = int(rng.choice([1, 2, 3, 4], p=[.06, .4, .36, .18]))
        n = int(rng.choice([0, 1, 2, 3, 4], p=[.01, .15, .38, .34, .12]))
        if m == 4:
            n = min(n, 3)
        spec = lossy_spec(rng, m)
        if j % 10 == 0:
            spec = dict(gen.random_unitary_spec(rng, m), style="lossless")
        out.append({"k": "fit", "matrix": spec, "in": gen.random_state(rng, n, m),
                    "calc": str(rng.choice(CALC)), "form": str(rng.choice(FORMS)),
                    "how": str(rng.choice(["ctor", "ctor", "set"])),
                    "other": str(rng.choice(["haar", "rows", "columns", "transposed", "weaker", "phases", "larger", "smaller"]))})
    for j in range(12 * k):  # another network with the same moduli or the same losses
        a, b = ({"t": "qft", "m": 4}, {"t": "had4", "m": 4})[:: 1 if j % 2 else -1]
        if j % 4 > 1:
            a, b = dict(a, scale=0.8), dict(b, scale=0.8)
        out.append({"k": "fit", "matrix": dict(a, style="uniform" if "scale" in a else "lossless"),
                    "in": gen.random_state(rng, 2 + j % 2, 4, "gaps"), "calc": "ryser", "form": "list",
                    "how": "set", "other": b})
    for j in range(24 * k):  # many modes; almost no losses, almost everything lost
        if j % 2:
            m, n = int(rng.integers(5, 9)), int(rng.integers(1, 3))
            spec = lossy_spec(rng, m)
        else:
            m, n = 2, int(rng.integers(2, 5))
            e = [.98, .99, .995, .02, .01, .985][(j // 2) % 6]
            spec = {"t": "lossy", "m": m, "s": int(rng.integers(1 << 30)), "eta": [e, [e, 1.0, .5, 1.0][(j // 12 + j // 2) % 4]],
                    "style": "near"}
        out.append({"k": "fit", "matrix": spec, "in": gen.random_state(rng, n, m), "calc": "ryser",
                    "form": str(rng.choice(FORMS)), "how": "ctor", "other": "haar", "base": 6000 if j % 2 else 9000})
    for j in range(12 * k):  # rare outcomes; two modes, many particles
        m, n = [(3, 1), (2, 2), (2, int(rng.integers(5, 9)))][j % 3]
        spec = (dict(gen.random_unitary_spec(rng, m, ("rot", "tilted")), scale=float(rng.choice([1, .99, .9])), style="near")
                if j % 3 < 2 else lossy_spec(rng, m))
        out.append({"k": "fit", "matrix": spec, "in": gen.random_state(rng, n, m), "calc": "ryser",
                    "form": str(rng.choice(FORMS)), "how": "ctor", "other": "haar",
                    "base": [30000, 9000, 300][j % 3]})
    for j in range(24 * k):  # several modes and several particles
        m, n = WIDE[j % len(WIDE)]
        out.append({"k": "fit", "matrix": lossy_spec(rng, m),
                    "in": gen.random_state(rng, n, m, "spread" if j % 2 and n <= m else None), "calc": CALC[j % 4],
                    "form": str(rng.choice(FORMS)), "how": "ctor" if j % 3 else "set", "other": "haar", "base": 500,
                    "wide": True})
    for j in range(6 * k):  # more particles than 64 bits can order
        n = int(rng.integers(20, 25))
        a = int(rng.integers(0, n + 1))
        out.append({"k": "fit", "matrix": lossy_spec(rng, 2) if j % 3 else dict(gen.random_unitary_spec(rng, 2, ("haar",)), style="lossless"),
                    "in": [a, n - a], "calc": "chinhuh", "form": str(rng.choice(FORMS)), "how": "ctor", "other": "haar",
                    "base": 250, "wide": True})
    for j in range(32 * k):
        m = int(rng.integers(2, 12)) if j < 28 * k else int(rng.integers(12, 31))
        n = int(rng.integers(1, 6)) if j % 4 else int(rng.integers(6, 16))
        out.append({"k": "certain", "m": m, "s": int(rng.integers(1 << 30)),
                    "in": gen.random_state(rng, n, m), "calc": "ryser", "form": str(rng.choice(FORMS))})
    return out


def _other(how, a):
    """The network that a sampler is given first, before it is replaced by a."""
    m = len(a)
    if isinstance(how, dict):
        return gen.build_matrix(how)
    if how == "rows":
        return np.roll(a, 1, axis=0)
    if how == "columns":
        return np.roll(a, 1, axis=1)
    if how == "transposed":
        return a.T.copy()
    if how == "weaker":
        return a * 0.9
    if how == "phases":
        return a * np.exp(1j * np.arange(m))
    if how in ("larger", "smaller"):
        return gen.build_matrix({"t": "lossy", "m": m + 1 if how == "larger" else max(1, m - 1), "s": 5,
                                 "eta": [.8] * (m + 1 if how == "larger" else max(1, m - 1))})
    return gen.build_matrix({"t": "haar", "m": m, "s": 5})


def run_case(case, mon):
    i = case["in"]
    m, n = len(i), sum(i)
    state = gen.as_state(i, case["form"])
    mon.count("bunched_inputs", int(max(i) > 1))
    if case["k"] == "certain":
        rng = np.random.default_rng(case["s"])
        u = gen.build_matrix({"t": "phaseperm", "m": m, "s": case["s"]})
        keep = (rng.random(m) < 0.6).astype(float)
        a = u * keep  # whole input modes are opaque
        want = [0] * m
        for c, v in enumerate(i):
            if keep[c]:
                want[int(np.argmax(np.abs(u[:, c])))] += v
        with mon.code("lossynet"):
            got = sut.sampler("lossynet", a, i, case["calc"]).simulate(state, 5)
        mon.check(len(got) == 5, "samples-number:lossynet", "%d samples instead of 5" % len(got))
        deterministic(mon, "lossynet", got, want, "input %s, kept modes %s" % (i, keep))
        return
    a = gen.build_matrix(case["matrix"])
    r = ref.lossy_distribution(a, i)
    style = case["matrix"]["style"]
    mon.count("wide_networks", int("wide" in case))
    mon.count({"lossless": "lossless_networks", "uniform": "uniform_networks",
               "opaque": "opaque_modes", "allopaque": "opaque_modes"}.get(style, "nonuniform_networks"))

    def draw(k):
        if case["how"] == "set":
            other = _other(case["other"], a)
            first = list(i)[:len(other)] + [1] * (len(other) - m)
            s = sut.sampler("lossynet", other, first, case["calc"])
            s.simulate(first if len(other) != m else state, 1)
            mon.count("resized_networks", int(len(other) != m))
            s.set_new_matrix(a)
            mon.count("new_matrix")
        else:
            s = sut.sampler("lossynet", a, i, case["calc"])
        return s.simulate(state, k)

    info = monitored(mon, "lossynet", draw, r, m, case.get("base", 2400),
                     ctx="input %s, %s network %s" % (i, style, case["matrix"]["t"]))
    possible = sum(p > 1e-9 for p in r.values())
    if n >= 2 and possible >= 4 and style in ("random", "one", "opaque", "near"):
        mon.see("nontrivial", [case["matrix"], i])
        mon.sample({"matrix": case["matrix"], "in": i, "draws": info["draws"],
                    "distinct_outcomes": info["distinct"], "possible": possible, "p": info["p"]})
