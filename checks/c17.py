"""C17: distributions estimated up to a requested accuracy."""
import math

import numpy as np

from vlib import gen, ref, sut
from vlib.sampling import monitored

PROPERTY = "C17"
REQUIRED = ("weighted", "unweighted", "entries", "bunched_inputs",
            "marked_missing", "holes_marked", "sampled_afterwards", "eta_one", "eta_zero", "vacuum", "resized", "larger")
RULE = (
    "random interferometers, inputs, transmissivities and accuracies; every entry of the returned list has "
    "to be the exact probability of its outcome or a placeholder, the covered probability has to reach the "
    "accuracy, and the call has to end; objects are reused for other inputs, accuracies and for sampling; "
    "non-trivial: at least 2 particles and a result that is complete or covers some outcomes only"
)
ASSUMPTIONS = ("transmissivity at least 0.25 unless 0, so that enough particles survive within the run time",
               "unweighted: at least one particle and a non-zero transmissivity")
CALC = ("classic", "glynn", "chinhuh", "ryser")
FORMS = ("list", "tuple", "array")
LARGER = ((5, 4), (6, 4), (4, 4), (3, 5), (5, 5), (7, 3), (8, 2), (2, 7), (4, 5), (2, 9), (10, 2), (6, 5), (3, 7), (7, 4), (5, 6))
CASE_TIMEOUT = 60
BUDGET = {"quick": 300, "thorough": 1800}


def cases(rng, tier):
    out = []
    for j in range(4000 if tier == "quick" else 60000):
        m = int(rng.choice([1, 2, 3, 4], p=[.08, .36, .36, .2]))
        n = int(rng.choice([0, 1, 2, 3], p=[.04, .16, .45, .35]))
        eta = float(rng.choice([0.0, 1.0, round(float(rng.uniform(.25, .95)), 3)], p=[.05, .15, .8]))
        seq = []
        for _ in range(int(rng.integers(1, 4))):
            w = bool(rng.random() < .6) or n == 0 or eta == 0
            acc = round(float(rng.uniform(0, .97)), 3)
            if rng.random() < .25 and n <= 2:
                acc = 1.0
            if not w:
                acc = acc if eta > .45 else min(acc, .9)
            seq.append([w, acc])
        out.append({"matrix": gen.random_unitary_spec(rng, m, ("haar", "haar", "orth", "qft", "perm", "hadam", "weak")),
                    "in": gen.random_state(rng, n, m), "eta": eta, "calc": str(rng.choice(CALC)),
                    "form": str(rng.choice(FORMS)), "seq": seq,
                    "missing": bool(j % 5 == 0), "sample": bool(j % 25 == 0)})
        if out[-1]["matrix"]["t"] == "weak":  # rare branches take forever to be sampled
            out[-1]["seq"] = [[w, min(acc, .97)] for w, acc in seq]
    for j in range(240 if tier == "quick" else 4000):  # more particles and modes
        m, n = LARGER[j % len(LARGER)]
        seq = [[bool((j + a) % 2), round(float(rng.uniform(.1, .95)), 3)] for a in range(2)]
        out.append({"matrix": gen.random_unitary_spec(rng, m, ("haar", "orth", "qft")),
                    "in": gen.random_state(rng, n, m, "spread" if j % 3 and n <= m else None),
                    "eta": round(float(rng.uniform(.4, .95)), 3), "calc": ("ryser", "glynn")[j % 2],
                    "form": str(rng.choice(FORMS)), "seq": seq, "missing": bool(j % 5 == 0), "sample": False})
    for j in range(16 if tier == "quick" else 200):  # more particles than 64 bits can order
        m, n = 1 + (j % 4 > 0), int(rng.integers(14, 23))
        out.append({"matrix": gen.random_unitary_spec(rng, m, ("haar", "orth")), "in": gen.random_state(rng, n, m),
                    "eta": round(float(rng.uniform(.6, .95)), 3), "calc": "chinhuh", "form": str(rng.choice(FORMS)),
                    "seq": [[True, round(float(rng.uniform(.1, .5)), 3)]], "missing": bool(j % 2), "sample": False, "many": True})
    return out


def run_case(case, mon):
    i, eta = case["in"], case["eta"]
    m, n = len(i), sum(i)
    u = gen.build_matrix(case["matrix"])
    state = gen.as_state(i, case["form"])
    states = [tuple(int(v) for v in s) for s in sut.bsu.generate_possible_states(n, m, True)]
    exact = ref.uniform_loss_distribution(u, i, eta)
    flat = {}
    for left in range(n + 1):
        flat.update(ref.fixed_loss_distribution(u, i, left))
    with mon.code("construct"):
        s = sut.sampler("gcc_a_ul", u, i, case["calc"], eta=eta)
    missing = case["missing"]
    if missing:
        s.missing_values_in_distribution = True
        mon.count("marked_missing")
    hole = -1 if missing else 0
    eps = 1e-9 if "many" in case else 1e-20
    mon.count("bunched_inputs", int(max(i) > 1))
    mon.count("eta_one", int(eta == 1))
    mon.count("eta_zero", int(eta == 0))
    mon.count("vacuum", int(n == 0))
    mon.count("larger", int(n > 3 or m > 4))
    if case["seed"] % 2:
        with mon.code("other input"):
            s.compute_distribution_up_to_accuracy(list(reversed(i)), 0.3)
    elif case["seed"] % 4 == 0 and "many" not in case:  # the same object served a network of another size (and as many particles)
        rng = np.random.default_rng(case["seed"])
        size = int(rng.choice([v for v in (1, 2, 3, 4) if v != m]))
        with mon.code("network of another size"):
            s.set_new_matrix(gen.build_matrix({"t": "haar", "m": size, "s": 5}))
            other = gen.random_state(rng, n, size)
            if rng.random() < .5:
                s.simulate(other, 2)
            else:
                s.compute_distribution_up_to_accuracy(other, 0.3)
            s.set_new_matrix(u)
        mon.count("resized")
    for weighted, accuracy in case["seq"]:
        if weighted:
            want = exact
            with mon.code("compute_distribution_up_to_accuracy"):
                got = list(s.compute_distribution_up_to_accuracy(state) if accuracy == 1 and n % 2
                           else s.compute_distribution_up_to_accuracy(state, accuracy))
        else:
            want = flat
            with mon.code("compute_unweighted_distribution_up_to_accuracy"):
                got = list(s.compute_unweighted_distribution_up_to_accuracy(state) if accuracy == 1 and n % 2
                           else s.compute_unweighted_distribution_up_to_accuracy(state, accuracy))
        kind = "weighted" if weighted else "unweighted"
        ctx = "%s, input %s, transmissivity %g, accuracy %g, %s" % (kind, i, eta, accuracy, case["matrix"]["t"])
        mon.check(len(got) == len(states), "length:" + kind, "%d entries for %d outcomes (%s)"
                  % (len(got), len(states), ctx))
        covered = 0.0
        holes = 0
        for t, p in zip(states, got):
            w = want.get(t, 0.0)
            is_hole = p == hole
            ok = abs(p - w) <= 1e-9 * w + 2e-10 * math.sqrt(w) + eps or is_hole
            mon.check(bool(ok), "entry:" + kind, "outcome %s: %r instead of %.12g (%s)" % (t, p, w, ctx))
            if not is_hole:
                covered += p
            elif w > 1e-12:
                holes += 1
        mon.count("holes_marked", holes if missing else 0)
        share = covered if weighted else covered / n
        mon.check(share >= accuracy - 1e-7, "accuracy:" + kind, "covers %.9g only (%s)" % (share, ctx))
        mon.check(share <= 1 + 1e-7, "mass:" + kind, "covers %.9g (%s)" % (share, ctx))
        mon.count(kind)
        mon.count("entries", len(got))
        mon.count("partial_results" if holes else "complete_results")
        if n >= 2:
            mon.see("nontrivial", [case["matrix"], i, eta, accuracy, kind])
            mon.sample({"in": i, "eta": eta, "accuracy": accuracy, "covered": share, "holes": holes, "kind": kind})
    if case["sample"]:
        monitored(mon, "gcc_a_ul", lambda k: s.simulate(state, k), exact, m, 2000, key="sampled-afterwards",
                  ctx="input %s, transmissivity %g" % (i, eta))
        mon.count("sampled_afterwards")
