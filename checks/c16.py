"""C16: matrices and single-particle evolution that the samplers are built from."""
import numpy as np
from scipy.stats import chi2

from checks.c10 import lossy_spec
from vlib import gen, sut

PROPERTY = "C16"
REQUIRED = ("expanded", "expanded_lossless", "expanded_opaque", "transmissivities", "qft", "qft_none", "qft_all",
            "phases", "phase_draws", "lossless_evolution", "lossy_evolution", "scattering", "scattering_vacuum")
RULE = (
    "random (sub-)unitary networks with 1 to 48 modes; expansion to twice the modes (unitary, the network as "
    "its upper left block), transmissivities, Fourier and random-phase matrices of every size, evolution of "
    "random one-particle states, effective scattering matrices of random input/output pairs, all compared "
    "with direct definitions; phases tested for uniformity and independence; non-trivial: at least 2 modes"
)
ASSUMPTIONS = ("singular values of the network do not exceed 1",)
BUDGET = {"quick": 300, "thorough": 1800}


def cases(rng, tier):
    k = 1 if tier == "quick" else 25
    out = []
    for j in range(700 * k):
        m = int(rng.integers(1, 13)) if j % 25 else int(rng.integers(13, 49))
        spec = lossy_spec(rng, m) if j % 3 else dict(gen.random_unitary_spec(rng, m), style="lossless")
        out.append({"k": "expand", "matrix": spec, "form": str(rng.choice(["C", "F", "view", "ro", "list"]))})
    for m in range(1, 13 if tier == "quick" else 30):
        for q in range(m + 1):
            out.append({"k": "qft", "m": m, "q": q})
    for m in range(13, 80 if tier == "quick" else 200):
        for q in {0, m, m - 1, int(rng.integers(m)), int(rng.integers(m))}:
            out.append({"k": "qft", "m": m, "q": int(q)})
    for j in range(24 * k):
        m = int(rng.integers(1, 7)) if j % 6 else int(rng.integers(8, 20))
        out.append({"k": "phases", "m": m, "q": int(rng.integers(0, m + 1))})
    for j in range(700 * k):
        m = int(rng.integers(1, 9)) if j % 25 else int(rng.integers(9, 60))
        spec = lossy_spec(rng, m) if j % 2 else dict(gen.random_unitary_spec(rng, m), style="lossless")
        out.append({"k": "evolve", "matrix": spec, "real": bool(rng.random() < .3),
                    "form": str(rng.choice(["list", "tuple", "array"]))})
    for j in range(700 * k):
        m = int(rng.integers(1, 7))
        n, n2 = int(rng.integers(0, 6)), int(rng.integers(0, 6))
        if j % 10 == 0:
            m, n, n2 = int(rng.integers(1, 30)), int(rng.integers(6, 41)), int(rng.integers(6, 41))
        out.append({"k": "scatter", "m": m, "s": int(rng.integers(1 << 30)), "in": gen.random_state(rng, n, m),
                    "out": gen.random_state(rng, n if rng.random() < .7 else n2, m),
                    "form": str(rng.choice(["list", "tuple", "array"])), "set": bool(rng.random() < .5),
                    "t": str(rng.choice(["ginibre", "haar", "int", "sparse"]))})
    return out


def _close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon)


def _expand(case, mon):
    a = gen.build_matrix(case["matrix"])
    m = len(a)
    style = case["matrix"]["style"]
    given = gen.as_form(a, case["form"])
    with mon.code("expanded matrix"):
        e = sut.bsu.prepare_interferometer_matrix_in_expanded_space(given)
        t = sut.bsu.get_modes_transmissivity_values_from_matrix(given)
    e = np.asarray(e)
    ctx = "%s network with %d modes" % (style, m)
    mon.check(e.shape == (2 * m, 2 * m), "expanded-shape", "%r (%s)" % (e.shape, ctx))
    mon.check(_close(e[:m, :m], a), "expanded-block", "the upper left block is not the network (%s): off by %.3g"
              % (ctx, np.max(np.abs(e[:m, :m] - a))))
    mon.check(_close(e.conj().T @ e, np.eye(2 * m)), "expanded-unitary", "the expanded matrix is not unitary (%s): "
              "off by %.3g" % (ctx, np.max(np.abs(e.conj().T @ e - np.eye(2 * m)))))
    want = np.sort(np.linalg.eigvalsh(a.conj().T @ a))
    mon.check(len(t) == m and _close(np.sort(np.asarray(t)), want), "transmissivities",
              "%s instead of %s (%s)" % (t, want, ctx))
    mon.count("expanded")
    mon.count("expanded_lossless", int(style == "lossless"))
    mon.count("expanded_opaque", int(style in ("opaque", "allopaque")))
    mon.count("transmissivities", m)
    if m > 1:
        mon.see("nontrivial", case["matrix"])
        mon.sample({"matrix": case["matrix"], "transmissivities": list(np.asarray(t))})


def _qft(case, mon):
    m, q = case["m"], case["q"]
    with mon.code("qft"):
        got = sut.bsu.generate_qft_matrix_for_first_m_modes(q, m)
    want = np.eye(m, dtype=complex)
    for i in range(q):
        for j in range(q):
            want[i, j] = np.exp(2j * np.pi * ((i * j) % q) / q) / np.sqrt(q)
    mon.check(_close(got, want, 1e-10), "qft", "Fourier matrix on the first %d of %d modes is wrong" % (q, m))
    mon.count("qft")
    mon.count("qft_none", int(q == 0))
    mon.count("qft_all", int(q == m))
    if m > 1:
        mon.see("nontrivial", ["qft", m, q])


def _phases(case, mon):
    m, q = case["m"], case["q"]

    def draw(count):
        out = np.zeros((count, q))
        for c in range(count):
            with mon.code("random phases"):
                d = np.asarray(sut.bsu.generate_random_phases_matrix_for_first_m_modes(q, m))
            mon.check(d.shape == (m, m) and _close(d, np.diag(np.diag(d)), 0), "phases-diagonal", "not diagonal: %r" % d)
            mon.check(_close(np.abs(np.diag(d)), np.ones(m), 1e-12), "phases-modulus", "modulus: %r" % np.abs(np.diag(d)))
            mon.check(_close(np.diag(d)[q:], np.ones(m - q), 0), "phases-identity", "phases on other modes: %r" % d)
            out[c] = np.angle(np.diag(d)[:q]) / (2 * np.pi) % 1.0
        mon.count("phase_draws", count)
        return out

    if q == 0:
        draw(20)
        mon.count("phases")
        return
    for count, alpha in ((800, 3e-3), (3200, 1e-4), (12800, 1e-6)):
        x = draw(count)
        tests = []
        for i in range(q):
            tests.append(("phase %d" % i, x[:, i]))
            tests.append(("successive phases %d" % i, (x[1::2, i] - x[::2, i][: len(x[1::2, i])]) % 1.0))
            for j in range(i):
                tests.append(("phases %d and %d" % (j, i), (x[:, i] - x[:, j]) % 1.0))
                tests.append(("phases %d plus %d" % (j, i), (x[:, i] + x[:, j]) % 1.0))
        worst, what = 1.0, ""
        for name, v in tests:
            h = np.bincount(np.minimum((v * 16).astype(int), 15), minlength=16)
            p = chi2.sf(np.sum((h - len(v) / 16) ** 2 / (len(v) / 16)), 15) * len(tests)
            if p < worst:
                worst, what = p, name
        mon.count("oracle_evaluations")
        if worst >= alpha:
            break
    else:
        mon.violation("phases-uniform", "%s not uniform (p=%.3g, %d draws, %d of %d modes)" % (what, worst, count, q, m))
    mon.count("phases")
    mon.see("nontrivial", ["phases", m, q, case["seed"]])


def _evolve(case, mon):
    a = gen.build_matrix(case["matrix"])
    m = len(a)
    rng = np.random.default_rng(case["seed"])
    x = rng.normal(size=m) + (0 if case["real"] else 1j * rng.normal(size=m))
    given = {"list": list, "tuple": tuple, "array": np.array}[case["form"]](x)
    before = np.array(x)
    with mon.code("network evolution"):
        low = sut.LossyNetworkSimulationStrategy(a)
        lossy = low.simulate(given)
        again = low.simulate(given)
        lossless = sut.LosslessNetworkSimulationStrategy(a).simulate(given)
    for name, got in (("lossy", lossy), ("lossy, repeated", again), ("lossless", lossless)):
        mon.check(_close(np.asarray(got), a @ before), "evolution:" + name.split(",")[0],
                  "%s evolution of %s gives %s instead of %s" % (name, before, got, a @ before))
    mon.count("lossy_evolution")
    mon.count("lossless_evolution")
    if m > 1:
        mon.see("nontrivial", [case["matrix"], case["seed"]])


def _scatter(case, mon):
    m = case["m"]
    a = gen.build_matrix({"t": case["t"], "m": m, "s": case["s"]})
    i, o = case["in"], case["out"]
    gi, go = gen.as_state(i, case["form"]), gen.as_state(o, case["form"])
    with mon.code("effective scattering matrix"):
        if case["set"]:
            c = sut.bsu.EffectiveScatteringMatrixCalculator(np.eye(m), [1] * m, [1] * m)
            c.calculate()
            c.matrix, c.input_state, c.output_state = a, gi, go
        else:
            c = sut.bsu.EffectiveScatteringMatrixCalculator(a, gi, go)
        got = c.calculate()
    rows = [r for r, v in enumerate(o) for _ in range(v)]
    cols = [q for q, v in enumerate(i) for _ in range(v)]
    mon.count("scattering")
    if not rows or not cols:
        mon.check(len(got) == 0, "scattering-vacuum", "%r for input %s, output %s" % (got, i, o))
        mon.count("scattering_vacuum")
        return
    want = np.asarray(a)[np.ix_(rows, cols)]
    mon.check(_close(np.asarray(got), want, 1e-12), "scattering", "input %s, output %s: %r instead of %r" % (i, o, got, want))
    if m > 1:
        mon.see("nontrivial", [case["s"], i, o])
