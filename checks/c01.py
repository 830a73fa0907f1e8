"""C01: every permanent calculator computes the permanent of the effective scattering
matrix."""
import math

import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C01"
REQUIRED = ("perm:classic", "perm:glynn", "perm:chinhuh", "perm:ryser", "reuse_steps",
            "bunched", "vacuum", "integer_exact", "scaled", "recycled_matrices")
RULE = (
    "random matrices of 14 kinds, also scaled by 1e-9 to 1e3 (Haar, orthogonal, permutation, exact zeros, rank one, "
    "Gaussian integers, ...), input/output occupations with vacuum, gaps and bunching, "
    "fresh and re-used calculators; non-trivial: at least 2 particles and a non-zero "
    "reference permanent; distinct by (matrix, states)"
)
ASSUMPTIONS = ("input and output state have equal numbers of particles",)
KINDS = ("haar", "orth", "perm", "phaseperm", "ident", "qft", "block", "hadam", "ginibre",
         "gaussint", "int", "sparse", "ones", "rank1")
FORMS = ("list", "tuple", "array", "array32", "ro")


def _mspec(rng, m):
    spec = {"t": str(rng.choice(KINDS)), "m": int(m), "s": int(rng.integers(1 << 30))}
    if rng.random() < 0.2:  # strongly attenuated (or unnormalised) networks
        spec["scale"] = float(10.0 ** rng.integers(-9, 4))
    return spec


def cases(rng, tier):
    k = 12 if tier == "quick" else 120
    out = []
    for _ in range(420 * k):
        m = int(rng.integers(1, 7))
        n = int(rng.choice([0, 1, 2, 3, 4, 5, 6], p=[.05, .1, .2, .2, .2, .15, .1]))
        out.append({"k": "point", "matrix": _mspec(rng, m),
                    "in": gen.random_state(rng, n, m), "outs": int(rng.integers(1 << 30)),
                    "form": [str(rng.choice(FORMS)), str(rng.choice(FORMS))],
                    "mform": str(rng.choice(["C", "F", "view", "ro"]))})
    for _ in range(40 * k):  # few modes, many particles; many modes, few particles
        if rng.random() < 0.5:
            m, n = int(rng.integers(1, 4)), int(rng.integers(7, 26))
        else:
            m, n = int(rng.integers(8, 25)), int(rng.integers(1, 5))
        out.append({"k": "point", "matrix": _mspec(rng, m),
                    "in": gen.random_state(rng, n, m), "outs": int(rng.integers(1 << 30)),
                    "form": ["list", "list"], "mform": "C", "few": 1})
    for _ in range(16 * k):  # collision-free, larger permanents, analytic reference
        out.append({"k": "analytic", "n": int(rng.integers(8, 12)),
                    "extra": int(rng.integers(0, 4)), "s": int(rng.integers(1 << 30)),
                    "shape": str(rng.choice(["rank1", "blocks", "monomial", "ones"]))})
    for j in range(2 * k):
        out.append({"k": "analytic", "n": int(rng.integers(12, 14 if j % 2 else 16)),
                    "extra": int(rng.integers(0, 3)), "s": int(rng.integers(1 << 30)),
                    "shape": ["rank1", "blocks", "monomial", "ones"][j // 2 % 4]})
    for _ in range(60 * k):
        out.append({"k": "reuse", "steps": int(rng.integers(4, 14)),
                    "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(list(sut.PERM)))})
    for _ in range(16 * k):
        m = int(rng.integers(2, 5))
        n = int(rng.integers(1, 5))
        out.append({"k": "inside", "matrix": gen.random_unitary_spec(rng, m),
                    "in": gen.random_state(rng, n, m), "calc": str(rng.choice(list(sut.PERM))),
                    "who": str(rng.choice(["gcc_a", "gcc_a_ul", "gcc_ma", "fixed"]))})
    return out


def _tol(a, i, o):
    n = int(sum(i))
    return 1e-11 * max(1.0, 2.0 ** (n - 8)) * ref.permanent_scale(a, i, o)


def _applicable(name, n):
    return {"classic": n <= 7, "glynn": n <= 13}.get(name, True)


def _judge(mon, name, got, want, a, i, o):
    mon.count("perm:" + name)
    try:
        err = abs(complex(got) - complex(want))
    except Exception:
        err = math.inf
    mon.check(err <= _tol(a, i, o), "permanent:" + name,
              "%s: permanent for input %s output %s is %r, expected %r"
              % (name, list(i), list(o), got, want), matrix=a, input=i, output=o)


def run_case(case, mon):
    if case["k"] == "point":
        mon.count("scaled", int("scale" in case["matrix"]))
        a = gen.build_matrix(case["matrix"])
        exact = case["matrix"]["t"] in ("gaussint", "int", "ones") and "scale" not in case["matrix"]
        arg = gen.as_form(np.asarray(a, dtype=complex if a.dtype.kind != "f" else float),
                          case["mform"])
        i = case["in"]
        m, n = len(i), int(sum(i))
        rng = np.random.default_rng(case["outs"])
        want = ref.permanents_from_input(a, i)
        states = list(want)
        outs = [states[int(rng.integers(len(states)))] for _ in range(2) if states]
        outs.append(tuple(gen.random_state(rng, n, m)))
        outs.append(tuple(gen.random_state(rng, n, m, "any")))
        if m * max(n, 1) <= 24 and len(ref.compositions(n, m)) <= 30:
            outs = ref.compositions(n, m)
        for o in outs:
            w = want.get(tuple(o), 0)
            for name, cls in sut.PERM.items():
                if not _applicable(name, n):
                    continue
                with mon.code(name):
                    c = cls(arg, gen.as_state(i, case["form"][0]),
                            gen.as_state(o, case["form"][1]))
                    got = c.compute_permanent()
                _judge(mon, name, got, w, a, i, o)
                if exact and n <= 6:
                    mon.count("integer_exact")
            if n >= 2 and abs(w) > 1e-9:
                mon.see("nontrivial", [case["matrix"], i, o])
                mon.sample({"matrix": case["matrix"], "in": i, "out": o, "permanent": w})
            if max(i) > 1 or max(o) > 1:
                mon.count("bunched")
            if n == 0:
                mon.count("vacuum")
    elif case["k"] == "analytic":
        rng = np.random.default_rng(case["s"])
        n, m = case["n"], case["n"] + case["extra"]
        rows = sorted(rng.choice(m, n, replace=False).tolist())
        cols = sorted(rng.choice(m, n, replace=False).tolist())
        a = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
        if case["shape"] == "rank1":
            x = rng.normal(size=m) + 1j * rng.normal(size=m)
            y = rng.normal(size=m)
            x, y = x / np.abs(x), y / np.abs(y)
            a = np.outer(x, y)
            want = math.factorial(n) * np.prod(x[rows]) * np.prod(y[cols])
        elif case["shape"] == "ones":
            a = np.ones((m, m), dtype=complex)
            want = math.factorial(n)
        elif case["shape"] == "monomial":
            p = rng.permutation(n)
            a[np.ix_(rows, cols)] = 0
            want = 1
            for r in range(n):
                v = np.exp(2j * np.pi * rng.random())
                a[rows[r], cols[p[r]]] = v
                want = want * v
        else:  # independent 2x2 blocks
            a[np.ix_(rows, cols)] = 0
            want = 1
            p = rng.permutation(n)
            for b in range(0, n, 2):
                w = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
                if b + 1 < n:
                    for x in range(2):
                        for y in range(2):
                            a[rows[b + x], cols[p[b + y]]] = w[x, y]
                    want = want * (w[0, 0] * w[1, 1] + w[0, 1] * w[1, 0])
                else:
                    a[rows[b], cols[p[b]]] = w[0, 0]
                    want = want * w[0, 0]
        i = [1 if j in cols else 0 for j in range(m)]
        o = [1 if j in rows else 0 for j in range(m)]
        for name, cls in sut.PERM.items():
            if not _applicable(name, n):
                continue
            with mon.code(name):
                got = cls(a, i, o).compute_permanent()
            _judge(mon, name, got, want, a, i, o)
        mon.see("nontrivial", case)
    elif case["k"] == "reuse":
        rng = np.random.default_rng(case["s"])
        name = case["calc"]
        c = None
        trace = []
        m, n = int(rng.integers(1, 6)), int(rng.integers(0, 6))
        a = i = o = None
        for step in range(case["steps"]):
            what = set()
            if step == 0 or rng.random() < 0.25:
                m = int(rng.integers(1, 6))
                what |= {"m", "i", "o"}
            if rng.random() < 0.4:
                n = int(rng.integers(0, 6))
                what |= {"i", "o"}
            if rng.random() < 0.4:
                what |= {"m"}
            what.add(str(rng.choice(["m", "i", "o"])))
            if "m" in what:
                a = np.asarray(gen.build_matrix(_mspec(rng, m)), dtype=complex)
            if "i" in what:
                i = gen.random_state(rng, n, m)
            if "o" in what:
                o = gen.random_state(rng, n, m)
            form = [gen.as_state(s, str(rng.choice(FORMS))) for s in (i, o)]
            with mon.code(name + " reuse"):
                if c is None:
                    if rng.random() < 0.5:
                        c = sut.PERM[name](a)
                        c.input_state, c.output_state = form
                    else:
                        c = sut.PERM[name](a.copy(), *form)
                else:
                    for w in rng.permutation(sorted(what)):
                        if w == "m":
                            if rng.random() < 0.7:  # the old matrix is gone before the new one exists
                                c.matrix = np.eye(len(a))
                                mon.count("recycled_matrices")
                            c.matrix = a.copy()
                        elif w == "i":
                            c.input_state = form[0]
                        else:
                            c.output_state = form[1]
                got = [c.compute_permanent() for _ in range(int(rng.integers(1, 3)))]
            trace.append(sorted(what))
            want = ref.permanents_from_input(a, i).get(tuple(o), 0)
            for g in got:
                _judge(mon, name, g, want, a, i, o)
            mon.count("reuse_steps")
            if n >= 2 and abs(want) > 1e-9:
                mon.see("nontrivial", [case["s"], step])
    else:
        _inside(case, mon)


def _inside(case, mon):
    """Watches the permanents that are computed while the real samplers and distribution
    calculators run."""
    u = gen.build_matrix(case["matrix"])
    i = case["in"]
    cls = sut.PERM[case["calc"]]
    orig = cls.compute_permanent
    events = []

    def watched(self):
        got = orig(self)
        if len(events) < 400:
            events.append((np.array(self.matrix), tuple(int(v) for v in self.input_state),
                           tuple(int(v) for v in self.output_state), got))
        return got

    cls.compute_permanent = watched
    try:
        with mon.code("%s driving %s" % (case["who"], case["calc"])):
            if case["who"] == "fixed":
                sut.BSDistributionCalculatorWithFixedLosses(
                    sut.config(u, i), cls(u, i, i)).calculate_distribution()
            else:
                sut.sampler(case["who"], u, i, case["calc"], eta=0.7).simulate(i, 40)
    finally:
        cls.compute_permanent = orig
    cache = {}
    for a, ii, oo, got in events:
        if sum(ii) != sum(oo):
            continue
        key = (a.tobytes(), ii)
        if key not in cache:
            cache[key] = ref.permanents_from_input(a, ii)
        _judge(mon, case["calc"], got, cache[key].get(oo, 0), a, ii, oo)
        mon.count("observed_inside_samplers")
