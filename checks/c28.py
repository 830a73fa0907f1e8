"""C28: bunched states stay cheap: the cost grows with the product of the occupations, not
exponentially with the number of particles."""
import os
import resource
import sys

import numpy as np

from vlib import crash, gen, sut

PROPERTY = "C28"
SAMPLERS = ("gcc_a", "gcc_ma", "gcc_b", "gcc_a_ul", "gcc_b_ul", "lossynet")
REQUIRED = ("computed:ryser", "computed:chinhuh", "computed:sub_ryser", "computed:sub_chinhuh", "many_particles",
            "steps_counted") + tuple("sampled:" + w for w in SAMPLERS)
RULE = (
    "permanents (Ryser, Chin-Huh), submatrix permanents and single samples for up to 48 particles in one to four occupied "
    "modes; the lines executed inside the code are counted and bounded by a generous multiple (about 10 to 50 times "
    "today's count) of modes x product of (occupation + 1) (samplers: times particles, version A: squared); non-trivial: at "
    "least 12 particles; distinct by kind and input"
)
ASSUMPTIONS = ("work done inside numpy calls is bounded by the time limit only",)
CASE_TIMEOUT = 40
BUDGET = {"quick": 300, "thorough": 2400}
PER_STEP = 500


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def occupations(limit, modes):
        while True:
            s = [int(v) for v in rng.integers(1, 49, size=modes)]
            if np.prod([v + 1 for v in s]) <= limit and sum(s) <= 48:
                return s

    def spread(s, m):
        t = [0] * m
        for p, v in zip(rng.permutation(m), s):
            t[int(p)] = v
        return t

    for j in range(120 * k):
        m = int(rng.integers(1, 5))
        s = occupations(1500, int(rng.integers(1, m + 1)))
        out.append({"k": "permanent", "kind": ("ryser", "chinhuh", "sub_ryser", "sub_chinhuh")[j % 4], "m": m,
                    "in": spread(s, m)})
    for j in range(60 * k):
        who = SAMPLERS[j % len(SAMPLERS)]
        m = int(rng.integers(1, 4))
        a = who in ("gcc_a", "gcc_ma", "gcc_a_ul")
        s = occupations(80 if a else 300, int(rng.integers(1, min(m, 2) + 1)))
        out.append({"k": "sample", "kind": who, "m": m, "in": spread(s, m), "calc": str(rng.choice(["ryser", "chinhuh"]))})
    return out


class TooMany(Exception):
    pass


def _counted(fn, bound):
    """Runs fn() and stops it when it executes more than `bound` lines of the code under test."""
    root, seen = crash._root() + os.sep, [0]

    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] > bound:
                raise TooMany()
        return local

    sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(root) else None)
    try:
        return fn(), seen[0]
    except TooMany:
        return None, seen[0]
    finally:
        sys.settrace(None)


def run_case(case, mon):
    # an attempt to allocate 2^n of something must fail here, not take the machine down
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, old[1]))
    try:
        _run(case, mon, np.random.default_rng(case["seed"]))
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


def _run(case, mon, rng):
    kind, m, i = case["kind"], case["m"], case["in"]
    n, size = sum(i), int(np.prod([v + 1 for v in i]))
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["seed"]})
    if case["k"] == "permanent":
        o = gen.random_state(rng, n - kind.startswith("sub"), m)
        bound = PER_STEP * (m + 1) * (size + 1)
        if kind.startswith("sub"):
            with mon.code(kind):
                got, steps = _counted(lambda: sut.SUB[kind](u, list(i), list(o)).compute_permanents(), bound)
        else:
            with mon.code(kind):
                got, steps = _counted(lambda: sut.PERM[kind](u, list(i), list(o)).compute_permanent(), bound)
        mon.count("computed:" + kind)
    else:
        o = None
        a = kind in ("gcc_a", "gcc_ma", "gcc_a_ul")
        bound = PER_STEP * (m + 1) * (size + 1) * (m * (size + 1) if a else n + 1)
        with mon.code("construct " + kind):
            s = sut.sampler(kind, u, i, case["calc"], eta=.9, left=n)
        with mon.code(kind):
            got, steps = _counted(lambda: s.simulate(list(i), 1), bound)
        if got is not None:
            mon.check(len(got) == 1, "samples-number:" + kind, "%r" % (got,))
        mon.count("sampled:" + kind)
    mon.check(got is not None, "steps:" + kind, "%s executed more than %d lines for %s -> %s (%d particles, product of "
              "(occupation + 1): %d)" % (kind, bound, i, o, n, size))
    mon.count("steps_counted", steps)
    mon.count("many_particles", int(n >= 20))
    if n >= 12:
        mon.see("nontrivial", [kind, i])
    mon.sample({"kind": kind, "in": i, "lines": steps, "bound": bound})
