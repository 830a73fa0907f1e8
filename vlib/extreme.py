"""Fault injection: random generators whose next draws are as extreme as they can be.

A Mersenne Twister state is crafted so that its next outputs are all ones (uniform draws of
1 - 2^-53), all zeros (draws of 0.0), or alternate; the generators themselves are untouched,
so whatever way the code draws its numbers, these are values it can get."""
import functools
import random

import numpy as np


def _temper(y):
    y ^= y >> 11
    y ^= (y << 7) & 0x9D2C5680
    y ^= (y << 15) & 0xEFC60000
    y ^= y >> 18
    return y & 0xFFFFFFFF


@functools.lru_cache(None)
def _untemper(out):
    """Solve the (GF(2)-linear, invertible) tempering for its input."""
    cols = [_temper(1 << b) for b in range(32)]
    rows = []  # (image, preimage)
    for b in range(32):
        rows.append((cols[b], 1 << b))
    x = 0
    for bit in range(31, -1, -1):
        piv = next(r for r in rows if r[0] >> bit & 1)
        rows = [r for r in rows if r is not piv]
        rows = [(a ^ piv[0], c ^ piv[1]) if a >> bit & 1 else (a, c) for a, c in rows]
        if out >> bit & 1:
            out ^= piv[0]
            x ^= piv[1]
    return x


def words(kind, n=624):
    one, zero = _untemper(0xFFFFFFFF), 0
    if kind == "high":
        key = [one] * n
    elif kind == "low":
        key = [zero] * n
    elif kind == "alternate":  # a double takes two words
        key = [one if (i // 2) % 2 == 0 else zero for i in range(n)]
    elif kind == "alternate2":
        key = [zero if (i // 2) % 2 == 0 else one for i in range(n)]
    else:
        raise ValueError(kind)
    # the generator has to leave the pattern eventually
    rng = np.random.RandomState(7)
    key[-40:] = [int(v) for v in rng.randint(1, 2 ** 31, size=40)]
    return key


def arm(kind, which=("numpy", "random")):
    key = words(kind)
    if "numpy" in which:
        np.random.set_state(("MT19937", np.array(key, dtype=np.uint32), 0, 0, 0.0))
    if "random" in which:
        random.setstate((3, tuple(key) + (0,), None))


def self_test():
    st, st2 = np.random.get_state(), random.getstate()
    arm("high")
    assert np.random.random() == 1 - 2.0 ** -53 and random.random() == 1 - 2.0 ** -53
    arm("low")
    assert np.random.random() == 0.0 and random.random() == 0.0
    arm("alternate")
    assert np.random.random() > 0.9 and np.random.random() == 0.0
    np.random.set_state(st)
    random.setstate(st2)
