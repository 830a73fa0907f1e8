"""C03: enumeration and dimension of the Fock space."""
import math

import numpy as np

from vlib import ref, sut

PROPERTY = "C03"
REQUIRED = ("spaces_listed", "states_listed", "dimensions", "big_dimensions", "lossy_lists")
RULE = (
    "every (n, m) with n <= 10, m <= 10 and at most 6000 states is listed (with and without "
    "losses) and compared with stars-and-bars, random larger shapes on top; dimensions are "
    "compared with exact integers for all n, m up to 60 (and random ones up to 400); "
    "non-trivial: n >= 2 and m >= 2"
)
ASSUMPTIONS = ("at least one mode",)


def cases(rng, tier):
    cap = 6000 if tier == "quick" else 60000
    top = 10 if tier == "quick" else 14
    out = []
    for n in range(0, top + 1):
        for m in range(1, top + 1):
            for losses in (False, True):
                d = math.comb(n + m, m) if losses else math.comb(n + m - 1, n)
                if d <= cap:
                    out.append({"k": "list", "n": n, "m": m, "losses": losses})
    for _ in range(30 if tier == "quick" else 200):
        losses = bool(rng.integers(2))
        if rng.random() < 0.5:
            n, m = int(rng.integers(10, 60)), int(rng.integers(1, 4))
        else:
            n, m = int(rng.integers(1, 3)), int(rng.integers(10, 60))
        if math.comb(n + m, m) <= cap:
            out.append({"k": "list", "n": n, "m": m, "losses": losses})
    for m in range(1, 61):
        out.append({"k": "dim", "m": m, "ns": list(range(0, 61))})
    for _ in range(40 if tier == "quick" else 600):
        out.append({"k": "dim", "m": int(rng.integers(1, 400)),
                    "ns": [int(v) for v in rng.integers(0, 400, size=6)]})
    out.append({"k": "empty"})
    return out


def run_case(case, mon):
    if case["k"] == "list":
        n, m, losses = case["n"], case["m"], case["losses"]
        with mon.code("generate_possible_states"):
            # the default of the flag is no losses
            got = (sut.bsu.generate_possible_states(n, m, losses) if losses
                   else sut.bsu.generate_possible_states(n, m))
        want = []
        for k in range(0 if losses else n, n + 1):
            want += sorted(ref.compositions(k, m), reverse=True)
        for s in got:
            if not (isinstance(s, tuple) and len(s) == m
                    and all(isinstance(v, (int, np.integer)) for v in s)):
                mon.violation("state-shape", "n=%d m=%d: %r is not an occupation tuple" % (n, m, s))
        mon.check(len(got) == len(set(got)), "duplicates", "n=%d m=%d losses=%s: repeated states"
                  % (n, m, losses))
        mon.check(set(got) == set(want), "wrong-states",
                  "n=%d m=%d losses=%s: %d states instead of %d; missing %s, extra %s" % (
                      n, m, losses, len(got), len(want), sorted(set(want) - set(got))[:2],
                      sorted(set(got) - set(want))[:2]))
        mon.check(list(got) == want, "order", "n=%d m=%d losses=%s: the states are not ordered by "
                  "particle number and then descending" % (n, m, losses))
        with mon.code("bosonic_space_dimension"):
            d = (sut.bsu.bosonic_space_dimension(n, m, losses) if losses or n % 2
                 else sut.bsu.bosonic_space_dimension(n, m))
        mon.check(d == len(want), "dimension", "n=%d m=%d losses=%s: dimension %r instead of %d"
                  % (n, m, losses, d, len(want)))
        mon.count("spaces_listed")
        mon.count("states_listed", len(got))
        mon.count("dimensions")
        mon.count("lossy_lists", int(losses))
        if n >= 2 and m >= 2:
            mon.see("nontrivial", case)
        mon.sample({"n": n, "m": m, "losses": losses, "states": len(got), "last": got[-1]})
    elif case["k"] == "dim":
        m = case["m"]
        for n in case["ns"]:
            for losses in (False, True):
                want = math.comb(n + m, m) if losses else math.comb(n + m - 1, n)
                with mon.code("bosonic_space_dimension"):
                    d = sut.bsu.bosonic_space_dimension(n, m, losses)
                mon.check(isinstance(d, (int, np.integer)) and int(d) == want, "dimension",
                          "n=%d m=%d losses=%s: dimension %r instead of %d" % (n, m, losses, d, want))
                mon.count("dimensions")
                mon.count("big_dimensions", int(want > 2 ** 53))
                if n >= 2 and m >= 2:
                    mon.see("nontrivial", [n, m, losses])
    else:
        for n, m in ((-1, 3), (-5, 1), (3, 0), (0, 0), (2, -1)):
            for losses in (False, True):
                with mon.code("generate_possible_states"):
                    got = sut.bsu.generate_possible_states(n, m, losses)
                mon.check(list(got) == [], "nonsense-space", "n=%d m=%d gave %r" % (n, m, got))
