"""C19: distances, error bounds and small number-theoretic helpers."""
import math
from fractions import Fraction

import numpy as np

from theboss import quantum_computations_utilities as qcu
from vlib import gen

PROPERTY = "C19"
REQUIRED = ("tvd_dicts", "tvd_lists", "different_supports", "matrix_distances", "bounds", "minimal_samples",
            "factored", "squares_factored", "qft", "length_mismatch",
            "tvd_small_differences")
RULE = (
    "random pairs of distributions (dictionaries with overlapping, nested and disjoint supports; lists and "
    "arrays) against exact rational arithmetic, symmetric and within [0, 1]; random matrices against the "
    "entry-wise definition; bound and minimal number of samples against each other and the closed formula; "
    "factorisations of every small and many large numbers; non-trivial: non-zero distance, composite number"
)
ASSUMPTIONS = ("numbers to factor are positive",)


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(800 * k):
        out.append({"k": "tvd", "size": int(rng.integers(1, 14)), "style": str(rng.choice(
            ["same", "overlap", "nested", "disjoint", "equal"])), "m": int(rng.integers(1, 4))})
    for j in range(60 * k):
        out.append({"k": "tvd", "size": int(rng.integers(200, 3000)), "style": str(rng.choice(
            ["same", "overlap", "nested", "disjoint"])), "m": 1, "near": bool(rng.random() < .7)})
    for j in range(300 * k):
        out.append({"k": "matrix", "m": int(rng.integers(1, 9)), "s": int(rng.integers(1 << 30)),
                    "real": bool(rng.random() < .3), "r": int(rng.integers(1, 5))})
    for j in range(800 * k):
        out.append({"k": "bound", "outcomes": int(rng.choice([1, 2, 3, 10, 100, int(rng.integers(1, 100000))])),
                    "p": float(rng.choice([1e-6, .001, .01, .05, .5, 1.0, float(rng.uniform(.001, 1))])),
                    "eps": float(rng.choice([.001, .01, .1, .5, 1.0, float(rng.uniform(.001, 1))])),
                    "n": int(rng.choice([1, 2, 10, 1000, int(rng.integers(1, 10 ** 7))]))})
    lim = 6000 if tier == "quick" else 100000
    for a in range(1, lim, 200):
        out.append({"k": "factor", "numbers": list(range(a, a + 200))})
    small = [2, 3, 5, 7, 11, 13, 97, 101, 997, 1009, 9973, 10007, 65537]
    for j in range(60 * k):
        nums = []
        for _ in range(6):
            v = 1
            for _ in range(int(rng.integers(1, 6))):
                v *= int(rng.choice(small)) ** int(rng.integers(1, 3))
                if v > 10 ** 11:
                    break
            if v < 10 ** 13:
                nums.append(v)
            nums.append(int(rng.integers(1, 10 ** 9)))
            nums.append(int(rng.choice(small)) ** 2)
            nums.append(2 ** int(rng.integers(0, 60)))
        out.append({"k": "factor", "numbers": nums})
    for n in range(0, 33 if tier == "quick" else 80):
        out.append({"k": "qft", "n": n})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon)


def _distribution(rng, size, near=False):
    w = rng.integers(0, 50, size=size)
    if near:  # a flat distribution, with small deviations
        w = 10 ** 6 + rng.integers(-10, 11, size=size) * int(10 ** rng.integers(0, 5))
    if w.sum() == 0:
        w[0] = 1
    return [Fraction(int(v), int(w.sum())) for v in w]


def _tvd(case, mon):
    rng = np.random.default_rng(case["seed"])
    size = case["size"]
    keys = [tuple(int(v) for v in rng.integers(0, 3, size=case["m"])) + (q,) for q in range(2 * size)]
    style = case["style"]
    k1 = keys[:size]
    k2 = {"same": keys[:size], "equal": keys[:size], "overlap": keys[size // 2: size // 2 + size],
          "nested": keys[: 2 * size], "disjoint": keys[size:]}[style]
    near = case.get("near", False)
    p1 = _distribution(rng, len(k1), near)
    p2 = p1 if style == "equal" else _distribution(rng, len(k2), near)
    mon.count("tvd_small_differences", int(near))
    perm = rng.permutation(len(k2))
    d1, d2 = dict(zip(k1, map(float, p1))), {k2[i]: float(p2[i]) for i in perm}
    f1, f2 = dict(zip(k1, p1)), dict(zip(k2, p2))
    want = sum(abs(f1.get(q, Fraction(0)) - f2.get(q, Fraction(0))) for q in set(f1) | set(f2)) / 2
    b1, b2 = dict(d1), dict(d2)
    with mon.code("tvd of dictionaries"):
        got, back = qcu.count_total_variation_distance_dicts(d1, d2), qcu.count_total_variation_distance_dicts(d2, d1)
    mon.check(d1 == b1 and d2 == b2, "tvd-modified", "the distributions were modified")
    mon.check(abs(got - float(want)) < 1e-12, "tvd-dicts", "%r instead of %r for %s and %s" % (got, float(want), d1, d2))
    mon.check(abs(got - back) < 1e-12, "tvd-symmetry", "%r and %r" % (got, back))
    mon.check(-1e-12 <= got <= 1 + 1e-12, "tvd-range", "%r" % got)
    mon.count("tvd_dicts")
    mon.count("different_supports", int(set(k1) != set(k2)))
    if want:
        mon.see("nontrivial", ["tvd", case["seed"]])
        mon.sample({"first": {str(k): v for k, v in d1.items()}, "second": {str(k): v for k, v in d2.items()}, "tvd": got})
    q1 = _distribution(rng, size, near)
    q2 = _distribution(rng, size, near)
    want = sum(abs(a - b) for a, b in zip(q1, q2)) / 2
    for f in (list, np.array, tuple):
        x, y = f([float(v) for v in q1]), f([float(v) for v in q2])
        with mon.code("tvd of lists"):
            got, back = qcu.count_total_variation_distance(x, y), qcu.count_total_variation_distance(y, x)
        mon.check(abs(got - float(want)) < 1e-12 and abs(got - back) < 1e-12, "tvd-lists",
                  "%r / %r instead of %r for %s and %s" % (got, back, float(want), x, y))
        mon.count("tvd_lists")
    try:
        qcu.count_total_variation_distance([float(v) for v in q1] + [0.0], [float(v) for v in q2])
        accepted = True
    except Exception:
        accepted = False
    mon.check(not accepted, "tvd-length", "distributions of different lengths were accepted")
    mon.count("length_mismatch")


def _matrix(case, mon):
    rng = np.random.default_rng([case["s"], 3])
    shape = (case["m"], case["m"] if case["r"] > 1 else case["m"] + 1)
    a = rng.normal(size=shape) + (0 if case["real"] else 1j * rng.normal(size=shape))
    b = rng.normal(size=shape) + (0 if case["real"] else 1j * rng.normal(size=shape))
    want = math.sqrt(sum(abs(x - y) ** 2 for x, y in zip(a.ravel(), b.ravel())))
    with mon.code("matrix distance"):
        got, back, none = (qcu.count_distance_between_matrices(a, b), qcu.count_distance_between_matrices(b, a),
                           qcu.count_distance_between_matrices(a, a.copy()))
    mon.check(abs(got - want) < 1e-9 and abs(back - want) < 1e-9, "matrix-distance", "%r instead of %r" % (got, want))
    mon.check(none == 0, "matrix-distance-zero", "%r for equal matrices" % none)
    mon.count("matrix_distances")
    mon.see("nontrivial", ["matrix", case["s"]])


def _bound(case, mon):
    o, p, eps, n = case["outcomes"], case["p"], case["eps"], case["n"]
    want = math.sqrt((o * math.log(2) - math.log(p)) / (2 * n))
    with mon.code("error bound"):
        got = qcu.count_tv_distance_error_bound_of_experiment_results(o, n, p)
        need = qcu.compute_minimal_number_of_samples_for_desired_accuracy(o, p, eps)
    mon.check(abs(got - want) <= 1e-10 * want, "error-bound", "%r instead of %r for %s" % (got, want, case))
    mon.count("bounds")
    mon.check(isinstance(need, (int, np.integer)) and need >= 1, "minimal-samples-type", "%r" % (need,))
    need = int(need)
    with mon.code("error bound"):
        enough = qcu.count_tv_distance_error_bound_of_experiment_results(o, need, p)
    mon.check(enough <= eps * (1 + 1e-9), "minimal-samples-too-few", "%d samples give a bound of %r, asked for %r (%s)"
              % (need, enough, eps, case))
    if need > 1:
        with mon.code("error bound"):
            fewer = qcu.count_tv_distance_error_bound_of_experiment_results(o, need - 1, p)
        mon.check(fewer >= eps * (1 - 1e-9), "minimal-samples-too-many", "%d samples already give a bound of %r, asked "
                  "for %r (%s)" % (need - 1, fewer, eps, case))
    mon.count("minimal_samples")
    mon.see("nontrivial", ["bound", o, p, eps, n])


def _is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _factor(case, mon):
    for n in case["numbers"]:
        with mon.code("prime factors"):
            got = [int(v) for v in qcu.get_prime_factors(n)]
        mon.check(math.prod(got) == n, "factors-product", "%d is not the product of %s" % (n, got))
        mon.check(all(_is_prime(v) for v in got), "factors-prime", "not all of %s are prime (%d)" % (got, n))
        mon.count("factored")
        if len(got) > 1:
            mon.see("nontrivial", ["factor", n])
        mon.count("squares_factored", int(len(got) > 1 and math.isqrt(n) ** 2 == n))


def _qft(case, mon):
    n = case["n"]
    with mon.code("qft"):
        got = np.asarray(qcu.compute_qft_matrix(n))
    if n == 0:
        mon.check(got.size == 0, "qft-empty", "%r" % got)
        return
    want = np.array([[np.exp(2j * np.pi * ((a * b) % n) / n) / math.sqrt(n) for b in range(n)] for a in range(n)])
    mon.check(got.shape == want.shape and np.max(np.abs(got - want)) < 1e-9, "qft", "wrong Fourier matrix of size %d" % n)
    mon.count("qft")
