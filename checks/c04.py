"""C04: lossy inputs and the two representations of a state."""
import itertools

import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C04"
REQUIRED = ("lossy_lists", "lossy_states", "bunched_inputs", "assignments", "roundtrips",
            "default_modes", "large")
RULE = (
    "all occupations with n <= 5, m <= 4, n <= 11, m = 3 and n <= 13, m = 2, plus random ones (up to 12 particles, 12 modes) with "
    "every number of surviving particles; random unordered mode assignments, also with up to 1500 modes or 9000 particles; non-trivial: a "
    "list of at least 3 lossy inputs, or an assignment of at least 3 particles"
)
ASSUMPTIONS = ("0 <= particles left <= particles in the input",)
FORMS = ("list", "tuple", "array", "ro")


def cases(rng, tier):
    k = 1 if tier == "quick" else 25
    out = []
    for m in range(1, 5):
        for n in range(0, 6):
            for s in ref.compositions(n, m):
                out.append({"k": "loss", "in": list(s), "form": str(rng.choice(FORMS))})
    for m, low, high in ((2, 6, 14), (3, 6, 12)):
        for n in range(low, high):
            for s in ref.compositions(n, m):
                out.append({"k": "loss", "in": list(s), "form": str(rng.choice(FORMS))})
    for _ in range(700 * k):
        m, n = int(rng.integers(1, 13)), int(rng.integers(0, 11))
        out.append({"k": "loss", "in": gen.random_state(rng, n, m), "form": str(rng.choice(FORMS))})
    for _ in range(30 * k):
        m = int(rng.integers(1, 6))
        out.append({"k": "loss", "in": gen.random_state(rng, int(rng.integers(11, 15)), m),
                    "form": "list"})
    for _ in range(3000 * k):
        m, n = int(rng.integers(1, 16)), int(rng.integers(0, 20))
        out.append({"k": "conv", "a": [int(v) for v in rng.integers(0, m, size=n)], "m": m,
                    "form": str(rng.choice(FORMS))})
    for _ in range(250 * k):  # more modes or particles than a byte can count
        if rng.random() < 0.6:
            m, n = int(rng.integers(100, 1500)), int(rng.integers(1, 60))
            a = [int(v) for v in rng.integers(0, m, size=n)] + ([m - 1] if rng.random() < .5 else [])
        else:
            m, n = int(rng.integers(1, 5)), int(rng.choice([int(rng.integers(100, 900)), int(rng.integers(900, 9000))], p=[.8, .2]))
            a = [int(v) for v in rng.integers(0, m, size=n)]
        out.append({"k": "conv", "a": a, "m": m, "form": str(rng.choice(FORMS)), "large": 1})
    for j in range(40 * k):
        if j % 2:
            m = int(rng.integers(60, 400))
            s = gen.random_state(rng, int(rng.integers(1, 6)), m)
            s[m - 1] += int(rng.integers(0, 3))
        else:
            s = [0] * int(rng.integers(1, 6))
            s[int(rng.integers(len(s)))] = int(rng.choice([int(rng.integers(100, 400)), int(rng.integers(400, 3000))]))
        out.append({"k": "loss", "in": s, "form": str(rng.choice(FORMS)), "large": 1})
    return out


def survivors(i):
    """{number of particles left: states}"""
    key = tuple(i)
    if key not in _SURVIVORS:
        _SURVIVORS.clear()
        modes = [j for j, v in enumerate(i) if v]
        found = {}
        for kept in itertools.product(*[range(i[j] + 1) for j in modes]):
            s = [0] * len(i)
            for j, v in zip(modes, kept):
                s[j] = v
            found.setdefault(sum(kept), set()).add(tuple(s))
        _SURVIVORS[key] = found
    return _SURVIVORS[key]


_SURVIVORS = {}


def run_case(case, mon):
    mon.count("large", int("large" in case))
    if case["k"] == "loss":
        i = case["in"]
        n = sum(i)
        total = 0
        lefts = range(n + 1)
        if "large" in case and n > 30:
            lefts = [0, 1, n - 1, n]  # the number of ways to lose particles stays small
        for left in lefts:
            with mon.code("generate_lossy_n_particle_input_states"):
                got = sut.bsu.generate_lossy_n_particle_input_states(
                    gen.as_state(i, case["form"]), left)
            want = survivors(i).get(left, set())
            plain = []
            for s in got:
                if not (isinstance(s, tuple) and len(s) == len(i)):
                    mon.violation("state-shape", "input %s, %d left: %r" % (i, left, s))
                plain.append(tuple(int(v) for v in s))
            mon.check(len(plain) == len(set(plain)), "duplicates",
                      "input %s, %d left: repeated states" % (i, left))
            mon.check(set(plain) == want, "wrong-states",
                      "input %s, %d left: missing %s, extra %s" % (
                          i, left, sorted(want - set(plain))[:2], sorted(set(plain) - want)[:2]))
            total += len(plain)
            mon.count("lossy_lists")
        mon.count("lossy_states", total)
        mon.count("bunched_inputs", int(max(i) > 1))
        if total >= 3:
            mon.see("nontrivial", i)
        return
    a, m = case["a"], case["m"]
    want = tuple(a.count(j) for j in range(m))
    with mon.code("mode_assignment_to_mode_occupation"):
        occ = sut.bsu.mode_assignment_to_mode_occupation(gen.as_state(a, case["form"]), m)
    mon.check(isinstance(occ, tuple) and tuple(int(v) for v in occ) == want, "occupation",
              "assignment %s in %d modes became %r" % (a, m, occ))
    with mon.code("mode_occupation_to_mode_assignment"):
        back = sut.bsu.mode_occupation_to_mode_assignment(gen.as_state(want, case["form"]))
    mon.check(isinstance(back, tuple) and [int(v) for v in back] == sorted(a), "assignment",
              "occupation %s became assignment %r" % (want, back))
    mon.count("assignments", 2)
    with mon.code("round trip"):
        again = sut.bsu.mode_assignment_to_mode_occupation(back, m)
    mon.check(tuple(again) == want, "round-trip", "%s -> %s -> %s" % (want, back, again))
    mon.count("roundtrips")
    if a:
        with mon.code("mode_assignment_to_mode_occupation (default number of modes)"):
            short = sut.bsu.mode_assignment_to_mode_occupation(gen.as_state(a, case["form"]))
        mon.check(tuple(int(v) for v in short) == want[: max(a) + 1], "default-modes",
                  "assignment %s became %r" % (a, short))
        mon.count("default_modes")
    if len(a) >= 3:
        mon.see("nontrivial", [a, m])
        mon.sample({"assignment": a, "occupation": want})
