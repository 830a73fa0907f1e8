"""C05: state types and their counting."""
import math
from collections import Counter
from functools import lru_cache

import numpy as np

from vlib import ref, sut

PROPERTY = "C05"
REQUIRED = ("type_lists", "lossy_type_lists", "type_sizes", "big_type_sizes", "partitions",
            "completeness")
RULE = (
    "state types listed for every m <= 12, n <= 14 (with and without losses) and compared with "
    "integer partitions; sizes of types for random occupations in up to 70 modes against exact "
    "multinomials; partition counts for all k, n <= 32; non-trivial: at least 2 types / 2 "
    "distinct occupation values"
)
ASSUMPTIONS = ("at least one mode; partition counts are asked for positive integers",)


@lru_cache(None)
def pk(n, k):
    """Partitions of n into exactly k positive parts (through the largest part)."""

    @lru_cache(None)
    def f(left, parts, cap):
        if parts == 0:
            return 1 if left == 0 else 0
        return sum(f(left - v, parts - 1, v) for v in range(1, min(left, cap) + 1))

    return f(n, k, n)


def cases(rng, tier):
    out = []
    mm, nn = (12, 14) if tier == "quick" else (16, 22)
    for m in range(1, mm + 1):
        for n in range(0, nn + 1):
            for losses in (False, True):
                out.append({"k": "types", "m": m, "n": n, "losses": losses})
    for m in range(1, 6 if tier == "quick" else 8):
        for n in range(0, 8 if tier == "quick" else 12):
            out.append({"k": "complete", "m": m, "n": n})
    for _ in range(2500 if tier == "quick" else 60000):
        m = int(rng.integers(1, 70)) if rng.random() < 0.5 else int(rng.integers(1, 9))
        top = int(rng.choice([1, 2, 3, 8, 40]))
        s = [int(v) for v in rng.integers(0, top + 1, size=m)]
        out.append({"k": "size", "s": s, "sorted": bool(rng.integers(2)), "tuple": bool(rng.integers(2))})
    for n in range(1, 33 if tier == "quick" else 45):
        out.append({"k": "parts", "n": n})
    return out


def run_case(case, mon):
    b = sut.bsu
    if case["k"] == "types":
        m, n, losses = case["m"], case["n"], case["losses"]
        with mon.code("generate_state_types"):
            got = b.generate_state_types(m, n, losses) if losses else b.generate_state_types(m, n)
        want = []
        for k in range(0 if losses else n, n + 1):
            want += ref.partitions_at_most(k, m)
        for s in got:
            if not (isinstance(s, tuple) and len(s) == m):
                mon.violation("type-shape", "m=%d n=%d: %r" % (m, n, s))
        plain = [tuple(int(v) for v in s) for s in got]
        mon.check(len(plain) == len(set(plain)), "duplicates", "m=%d n=%d losses=%s" % (m, n, losses))
        mon.check(set(plain) == set(want), "wrong-types", "m=%d n=%d losses=%s: missing %s, extra %s"
                  % (m, n, losses, sorted(set(want) - set(plain))[:2], sorted(set(plain) - set(want))[:2]))
        with mon.code("compute_number_of_state_types"):
            c = (b.compute_number_of_state_types(m, n, losses) if losses or n % 2
                 else b.compute_number_of_state_types(m, n))
        mon.check(c == len(want), "types-number", "m=%d n=%d losses=%s: %r types instead of %d"
                  % (m, n, losses, c, len(want)))
        mon.count("type_lists")
        mon.count("lossy_type_lists", int(losses))
        if len(want) > 1:
            mon.see("nontrivial", case)
    elif case["k"] == "complete":
        m, n = case["m"], case["n"]
        sizes = Counter(tuple(sorted(s, reverse=True)) for s in ref.compositions(n, m))
        with mon.code("generate_state_types"):
            types = b.generate_state_types(m, n)
        got = {}
        for t in types:
            with mon.code("compute_number_of_states_of_given_type"):
                got[tuple(t)] = b.compute_number_of_states_of_given_type(t)
        mon.check(got == dict(sizes), "completeness", "m=%d n=%d: sizes %s instead of %s"
                  % (m, n, got, dict(sizes)))
        mon.count("completeness")
        if len(sizes) > 1:
            mon.see("nontrivial", case)
    elif case["k"] == "size":
        s = sorted(case["s"], reverse=True) if case["sorted"] else case["s"]
        want = math.factorial(len(s))
        for c in Counter(s).values():
            want //= math.factorial(c)
        with mon.code("compute_number_of_states_of_given_type"):
            got = b.compute_number_of_states_of_given_type(tuple(s) if case["tuple"] else list(s))
        mon.check(isinstance(got, (int, np.integer)) and int(got) == want, "type-size",
                  "type %s: %r states instead of %d" % (s, got, want))
        mon.count("type_sizes")
        mon.count("big_type_sizes", int(want > 2 ** 53))
        if len(set(s)) > 1:
            mon.see("nontrivial", s)
            mon.sample({"type": s, "states": want})
    else:
        n = case["n"]
        for k in range(1, n + 3):
            with mon.code("compute_number_of_k_element_integer_partitions_of_n"):
                got = b.compute_number_of_k_element_integer_partitions_of_n(k, n)
            mon.check(got == pk(n, k), "partitions", "partitions of %d into %d parts: %r instead of %d"
                      % (n, k, got, pk(n, k)))
            mon.count("partitions")
