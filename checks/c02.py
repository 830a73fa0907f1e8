"""C02: the submatrices calculators return the permanents with one input particle less."""
import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C02"
REQUIRED = ("sub:sub_ryser", "sub:sub_chinhuh", "reuse_steps", "bunched", "laplace",
            "one_particle", "scaled", "recycled_matrices")
RULE = (
    "random matrices (also scaled by 1e-9 to 1e3), n-particle inputs and (n-1)-particle outputs with gaps and bunching, "
    "fresh and re-used calculators; every entry of an occupied input mode is compared with "
    "the reference permanent, and the whole list is combined by Laplace expansion into "
    "n-particle permanents; non-trivial: n >= 3 with a non-zero reference entry"
)
ASSUMPTIONS = ("the output state has exactly one particle less than the input state",
               "entries of empty input modes are not constrained")
KINDS = ("haar", "orth", "perm", "phaseperm", "ident", "qft", "block", "hadam", "ginibre",
         "gaussint", "sparse", "ones", "rank1")
FORMS = ("list", "tuple", "array", "array32", "ro")


def _mspec(rng, m):
    spec = {"t": str(rng.choice(KINDS)), "m": int(m), "s": int(rng.integers(1 << 30))}
    if rng.random() < 0.2:  # strongly attenuated (or unnormalised) networks
        spec["scale"] = float(10.0 ** rng.integers(-9, 4))
    return spec


def cases(rng, tier):
    k = 24 if tier == "quick" else 250
    out = []
    for j in range(300 * k):
        m = int(rng.integers(1, 7))
        n = int(rng.choice([1, 2, 3, 4, 5, 6, 7], p=[.12, .16, .2, .2, .16, .1, .06]))
        if j % 12 == 0:
            m, n = int(rng.integers(1, 4)), int(rng.integers(7, 25))
        elif j % 12 == 1:
            m, n = int(rng.integers(7, 20)), int(rng.integers(1, 5))
        out.append({"k": "point", "matrix": _mspec(rng, m), "in": gen.random_state(rng, n, m),
                    "out": gen.random_state(rng, n - 1, m),
                    "form": [str(rng.choice(FORMS)), str(rng.choice(FORMS))]})
    for _ in range(40 * k):
        out.append({"k": "reuse", "steps": int(rng.integers(3, 10)),
                    "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(list(sut.SUB)))})
    return out


def _want(a, i, o):
    res = {}
    for j, v in enumerate(i):
        if v == 0:
            continue
        less = list(i)
        less[j] -= 1
        res[j] = ref.permanents_from_input(a, less).get(tuple(o), 0)
    return res


def _rows(a, i, o):
    return float(np.prod((np.abs(np.asarray(a)) @ np.asarray(i, dtype=float)) ** np.asarray(o)))


def _judge(mon, name, got, want, a, i, o):
    mon.count("sub:" + name)
    mon.check(len(got) == len(i), "length:" + name,
              "%s: %d permanents for %d modes" % (name, len(got), len(i)))
    n = int(sum(i))
    for j, w in want.items():
        less = list(i)
        less[j] -= 1
        tol = 1e-11 * max(1.0, 2.0 ** (n - 8)) * max(_rows(a, i, o), ref.permanent_scale(a, less, o))
        err = abs(complex(got[j]) - complex(w))
        mon.check(err <= tol, "permanent:" + name,
                  "%s: input %s without a particle in mode %d, output %s: %r, expected %r"
                  % (name, list(i), j, list(o), got[j], w), matrix=a)


def run_case(case, mon):
    if case["k"] == "point":
        mon.count("scaled", int("scale" in case["matrix"]))
        a = np.asarray(gen.build_matrix(case["matrix"]))
        i, o = case["in"], case["out"]
        want = _want(a, i, o)
        for name, cls in sut.SUB.items():
            with mon.code(name):
                got = cls(a, gen.as_state(i, case["form"][0]),
                          gen.as_state(o, case["form"][1])).compute_permanents()
            _judge(mon, name, got, want, a, i, o)
            # Laplace expansion into all n-particle permanents
            full = ref.permanents_from_input(a, i)
            for r in range(len(i)):
                more = list(o)
                more[r] += 1
                lap = sum(i[c] * complex(a[r][c]) * complex(got[c]) for c in want)
                w = full.get(tuple(more), 0)
                tol = 1e-10 * max(1.0, 2.0 ** (sum(i) - 8)) * max(
                    ref.permanent_scale(a, i, more), np.max(np.abs(a)) * sum(i) * _rows(a, i, o))
                mon.check(abs(lap - w) <= tol, "laplace:" + name,
                          "%s: expansion for input %s output %s gives %r, expected %r"
                          % (name, i, more, lap, w), matrix=a)
                mon.count("laplace")
        if max(i) > 1 or max(o) > 1:
            mon.count("bunched")
        if sum(i) == 1:
            mon.count("one_particle")
        if sum(i) >= 3 and any(abs(w) > 1e-9 for w in want.values()):
            mon.see("nontrivial", case)
            mon.sample({"matrix": case["matrix"], "in": i, "out": o, "permanents": want})
        return
    rng = np.random.default_rng(case["s"])
    name = case["calc"]
    c = None
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    a = i = o = None
    for step in range(case["steps"]):
        what = set()
        if step == 0 or rng.random() < 0.25:
            m = int(rng.integers(1, 6))
            what |= {"m", "i", "o"}
        if rng.random() < 0.4:
            n = int(rng.integers(1, 6))
            what |= {"i", "o"}
        what.add(str(rng.choice(["m", "i", "o"])))
        if "m" in what:
            a = np.asarray(gen.build_matrix(_mspec(rng, m)), dtype=complex)
        if "i" in what:
            i = gen.random_state(rng, n, m)
        if "o" in what:
            o = gen.random_state(rng, n - 1, m)
        form = [gen.as_state(s, str(rng.choice(FORMS))) for s in (i, o)]
        with mon.code(name + " reuse"):
            if c is None:
                c = sut.SUB[name](a.copy(), *form)
            else:
                for w in rng.permutation(sorted(what)):
                    if w == "m":
                        if rng.random() < 0.7:  # the old matrix is gone before the new one exists
                            c.matrix = np.eye(len(a))
                            mon.count("recycled_matrices")
                        c.matrix = a.copy()
                    elif w == "i":
                        c.input_state = form[0]
                    else:
                        c.output_state = form[1]
            got = [list(c.compute_permanents()) for _ in range(int(rng.integers(1, 3)))]
        want = _want(a, i, o)
        for g in got:
            _judge(mon, name, g, want, a, i, o)
        mon.count("reuse_steps")
        if n >= 3:
            mon.see("nontrivial", [case["s"], step])
