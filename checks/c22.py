"""C22: the wrapper of the external R sampler hands over the right experiment and reads the
answers correctly.  R itself is replaced by a stand-in that records what it is given."""
import importlib
import sys
import types
from collections import Counter

import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C22"
REQUIRED = ("sampled", "matrices_checked", "decoded_outcomes", "probabilities", "factory_built", "missing_packages",
            "bunched_inputs", "gap_inputs", "replaced_matrix", "random_states", "rectangular", "many_modes", "many_particles",
            "named_twice", "fewer_than_all", "more_than_all")
RULE = (
    "random interferometers and inputs with at least one particle; a stand-in for R receives the matrix in "
    "R's column order, checks it against the columns of the occupied modes, and returns outcomes drawn from the "
    "distribution of what it received, with modes numbered from one; the wrapper's results have to be those "
    "outcomes, in order; probabilities reported by the stand-in have to be attached to the right states; "
    "non-trivial: at least 2 particles, input with gaps or bunching"
)
ASSUMPTIONS = ("the stand-in models R: column-major matrices, modes numbered from 1, outcomes of one call "
               "concatenated, probability mass of the last outcome",)
FORMS = ("list", "tuple", "array")


class FakeR:
    def __init__(self, installed=("BosonSampling", "Rcpp", "RcppArmadillo")):
        self.installed = set(installed)
        self.calls = []
        self.rng = np.random.default_rng(0)
        self.problem = None

    def sampler(self, A, sampleSize=1, perm=False):
        A = A.value
        m, n = A.shape
        # distribution of n particles, one in each column of A
        if n > 4:  # any outcomes will do
            states = [tuple(int(v) for v in self.rng.multinomial(n, self.rng.dirichlet([.5] * m))) for _ in range(8)]
            d = {s: 1.0 / len(set(states)) for s in states}
        else:
            d = ref.lossless_distribution(A, [1] * n)
        states = sorted(d)
        p = np.array([max(d[s], 0.0) for s in states])
        if abs(p.sum() - 1) > 1e-6:
            p = np.ones(len(p))  # not an isometry: bunched inputs repeat columns
        p = p / p.sum()
        out, drawn, pmf = [], [], []
        for _ in range(sampleSize):
            s = states[int(self.rng.choice(len(states), p=p))]
            modes = [c + 1 for c, v in enumerate(s) for _ in range(v)]
            self.rng.shuffle(modes)
            out += modes
            drawn.append(s)
            pmf.append(self.weight(s))
        self.calls.append({"A": A, "n": sampleSize, "drawn": drawn, "perm": perm})
        return out, [0j] * sampleSize if perm else None, pmf if perm else None

    weights = None

    def weight(self, s):
        return 0.5 if self.weights is None else self.weights.get(tuple(s), 0.0)

    def modules(self):
        rpy2 = types.ModuleType("rpy2")
        ro = types.ModuleType("rpy2.robjects")
        packages = types.ModuleType("rpy2.robjects.packages")

        class ComplexVector(list):
            pass

        class Matrix:
            def __init__(self, values, nrow, ncol):
                self.value = np.array([complex(v) for v in values]).reshape((nrow, ncol), order="F")

        class R:
            @staticmethod
            def matrix(values, nrow=None, ncol=None):
                return Matrix(values, nrow, ncol)

        ro.ComplexVector = ComplexVector
        ro.r = R()
        packages.isinstalled = lambda name: name in self.installed
        packages.importr = lambda name: types.SimpleNamespace(bosonSampler=self.sampler)
        rpy2.robjects = ro
        ro.packages = packages
        return {"rpy2": rpy2, "rpy2.robjects": ro, "rpy2.robjects.packages": packages}


WRAPPER = "theboss.simulation_strategies.cliffords_r_simulation_strategy"


class installed:
    def __init__(self, fake):
        self.fake = fake

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ("rpy2", "rpy2.robjects", "rpy2.robjects.packages", WRAPPER)}
        sys.modules.update(self.fake.modules())
        sys.modules.pop(WRAPPER, None)
        return self.fake

    def __exit__(self, *a):
        for k, v in self.old.items():
            sys.modules.pop(k, None)
            if v is not None:
                sys.modules[k] = v


def cases(rng, tier):
    out = []
    for j in range(900 if tier == "quick" else 20000):
        m = int(rng.integers(1, 7))
        n = int(rng.integers(1, 4))
        out.append({"k": ("simulate", "simulate", "simulate", "find", "random")[j % 5], "m": m,
                    "s": int(rng.integers(1 << 30)), "in": gen.random_state(rng, n, m),
                    "n": int(rng.choice([1, 1, 2, 3, 5, 10])), "form": str(rng.choice(FORMS)),
                    "mform": str(rng.choice(["array", "list", "F"])), "factory": bool(rng.random() < .3),
                    "set": bool(rng.random() < .3)})
    for j in range(24 if tier == "quick" else 240):  # many modes
        m = int(rng.choice([20, 60, 130, 140, 260, 300]))
        out.append({"k": "simulate", "m": m, "s": int(rng.integers(1 << 30)),
                    "in": gen.random_state(rng, 1 if m > 60 or j % 2 else 2, m), "n": int(rng.choice([1, 3, 40])),
                    "form": str(rng.choice(FORMS)), "mform": "array", "factory": bool(rng.random() < .3),
                    "set": bool(rng.random() < .3)})
    for j in range(60 if tier == "quick" else 600):  # many particles
        m = int(rng.integers(1, 40))
        out.append({"k": "simulate", "m": m, "s": int(rng.integers(1 << 30)),
                    "in": gen.random_state(rng, int(rng.integers(5, 41)), m), "n": int(rng.choice([1, 3, 40])),
                    "form": str(rng.choice(FORMS)), "mform": "array", "factory": bool(rng.random() < .3),
                    "set": bool(rng.random() < .3)})
    for missing in (["BosonSampling"], ["Rcpp"], ["RcppArmadillo"], ["BosonSampling", "Rcpp"]):
        out.append({"k": "missing", "m": 2, "missing": missing})
    return out


def run_case(case, mon):
    fake = FakeR()
    if case["k"] == "missing":
        fake.installed -= set(case["missing"])
    with installed(fake):
        globals()["_" + case["k"]](case, mon, fake)


def _make(case, mon, u, fake):
    given = gen.as_form(u, case["mform"])
    first = np.eye(len(u), dtype=complex) if case["set"] else given
    with mon.code("construct the R strategy"):
        if case["factory"]:
            f = sut.SimulationStrategyFactory(sut.config(first, case["in"]), sut.PERM["ryser"](u, case["in"], case["in"]),
                                              sut.StrategyType.CLIFFORD_R)
            s = f.generate_strategy()
            mon.count("factory_built")
        else:
            s = importlib.import_module(WRAPPER).CliffordsRSimulationStrategy(first)
        if case["set"]:
            s.set_matrix(given)
            mon.count("replaced_matrix")
    return s


def _setup(case, mon, fake):
    m, i = case["m"], case["in"]
    fake.rng = np.random.default_rng(case["seed"])
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("gap_inputs", int(i != sorted(i, reverse=True)))
    mon.count("many_modes", int(m > 128))
    mon.count("many_particles", int(sum(i) > 20))
    mon.count("rectangular", int(sum(i) != m))
    if sum(i) >= 2:
        mon.see("nontrivial", [case["k"], case["s"], i])
    return u, _make(case, mon, u, fake), gen.as_state(i, case["form"])


def _check_matrix(mon, fake, u, i):
    cols = [c for c, v in enumerate(i) for _ in range(v)]
    for call in fake.calls:
        a = call["A"]
        mon.check(a.shape == (len(u), len(cols)), "matrix-shape", "R was given a %r matrix for %d modes and %d particles"
                  % (a.shape, len(u), len(cols)))
        want = [u[:, c] for c in cols]
        for c in range(a.shape[1]):  # in any order: the particles are identical
            hit = [q for q, w in enumerate(want) if np.allclose(a[:, c], w, atol=1e-9)]
            if hit:
                want.pop(hit[0])
        ok = not want
        mon.check(ok, "matrix-columns", "R was not given the columns of the occupied modes (input %s)" % i)
        mon.count("matrices_checked")


def _simulate(case, mon, fake):
    u, s, state = _setup(case, mon, fake)
    i, n = case["in"], case["n"]
    with mon.code("R strategy"):
        got = s.simulate(state) if n == 1 else s.simulate(state, n)
    _check_matrix(mon, fake, u, i)
    drawn = [t for c in fake.calls for t in c["drawn"]]
    mon.check(len(drawn) == n, "samples-number", "%d samples were drawn instead of %d" % (len(drawn), n))
    out = sut.clean(mon, "R strategy", got, len(i))
    mon.check(out == drawn, "decoding", "R drew %s, the strategy returned %s (input %s)" % (drawn, out, i))
    mon.count("decoded_outcomes", len(out))
    mon.count("sampled")
    mon.sample({"in": i, "drawn": drawn[:3], "returned": out[:3]})


def _find(case, mon, fake):
    u, s, state = _setup(case, mon, fake)
    i = case["in"]
    n, m = sum(i), len(i)
    possible = ref.compositions(n, m)
    cols = u[:, [c for c, v in enumerate(i) for _ in range(v)]]
    d = ref.lossless_distribution(cols, [1] * n)
    total = sum(d.values())
    likely = [t for t in possible if max(i) > 1 or d.get(t, 0) / total > .02]
    rng = np.random.default_rng(case["seed"])
    fake.weights = {t: float(v) for t, v in zip(possible, rng.random(len(possible)) + .01)}
    wanted = [likely[int(v)] for v in rng.permutation(len(likely))[: int(rng.integers(1, len(likely) + 1))]]
    with mon.code("find_probabilities"):
        got = s.find_probabilities(state, [list(t) if case["n"] > 2 else t for t in wanted]
                                   + ([wanted[0]] if case["seed"] % 3 == 0 else []))
    mon.count("named_twice", int(case["seed"] % 3 == 0))
    _check_matrix(mon, fake, u, i)
    got = {tuple(int(v) for v in t): p for t, p in got.items()}
    mon.check(set(got) == set(wanted), "probabilities-outcomes", "%s instead of %s" % (sorted(got), sorted(wanted)))
    for t in wanted:
        mon.check(abs(got[t] - fake.weights[t]) < 1e-12, "probabilities", "state %s got %r, R reported %r"
                  % (t, got[t], fake.weights[t]))
    mon.count("probabilities", len(wanted))


def _random(case, mon, fake):
    u, s, state = _setup(case, mon, fake)
    i = case["in"]
    n, m = sum(i), len(i)
    if max(i) > 1:
        return
    d = ref.lossless_distribution(u, i)
    fake.weights = {t: p for t, p in d.items()}
    if min(d.values()) < 1e-4:
        return
    with mon.code("find_probabilities_of_n_random_states"):
        got = s.find_probabilities_of_n_random_states(tuple(i), int(case["n"]))
    _check_matrix(mon, fake, u, i)
    for t, p in got.items():
        mon.check(abs(p - d[tuple(int(v) for v in t)]) < 1e-12, "probabilities", "state %s got %r instead of %r"
                  % (t, p, d[tuple(int(v) for v in t)]))
    first, mass = [], 0.0  # the first different states that R drew, until there are no others
    for call in fake.calls:
        for t in call["drawn"]:
            t = tuple(int(v) for v in t)
            if t not in first and len(first) < case["n"] and mass < 1 - 1e-6:
                first.append(t)
                mass += d[t]
    got = {tuple(int(v) for v in t) for t in got}
    mon.check(got == set(first), "random-states", "asked for %d states, R drew %s first; returned %s"
              % (case["n"], first, sorted(got)))
    mon.count("random_states", len(got))
    mon.count("fewer_than_all", int(len(got) < len(d)))
    mon.count("more_than_all", int(case["n"] > len(d)))


def _missing(case, mon, fake):
    u = gen.build_matrix({"t": "haar", "m": 2, "s": 1})
    f = sut.SimulationStrategyFactory(sut.config(u, [1, 0]), sut.PERM["ryser"](u, [1, 0], [1, 0]), sut.StrategyType.CLIFFORD_R)
    try:
        f.generate_strategy()
        got = None
    except Exception as e:
        got = e
    mon.check(isinstance(got, ImportError), "missing-packages", "with %s missing the factory gives %r, not an ImportError"
              % (case["missing"], got))
    mon.count("missing_packages")
