"""
Reference ("oracle") computations.  Nothing here imports the code under test, and no
algorithm of the code under test is reused: Fock amplitudes come from expanding the
product of linear forms  prod_j (sum_i A_ij x_i)^{k_j}  into monomials, losses come from
a hand-made isometric dilation, enumeration comes from itertools.
"""
import itertools
import math
from collections import defaultdict
from functools import lru_cache

import numpy as np


# ---------------------------------------------------------------- combinatorics
def compositions(n, m):
    """All m-tuples of nonnegative integers that sum up to n (via stars and bars)."""
    if m == 0:
        return [()] if n == 0 else []
    out = []
    for bars in itertools.combinations(range(n + m - 1), m - 1):
        prev, state = -1, []
        for b in bars:
            state.append(b - prev - 1)
            prev = b
        state.append(n + m - 1 - prev - 1)
        out.append(tuple(state))
    return out


def partitions_at_most(n, m):
    """Partitions of n into at most m parts as non-increasing m-tuples."""
    out = []

    def rec(left, parts, cap):
        if len(parts) == m:
            if left == 0:
                out.append(tuple(parts))
            return
        for v in range(min(left, cap), -1, -1):
            rec(left - v, parts + [v], v)

    rec(n, [], n)
    return out


def fact_prod(state):
    r = 1
    for s in state:
        r *= math.factorial(int(s))
    return r


# ---------------------------------------------------------------- permanents
def form_power_coefficients(columns, occupation):
    """
    Coefficients of prod_j (sum_i columns[j][i] x_i)^{occupation_j}, as
    {exponent tuple: coefficient}.  Exact for exact (int) coefficient types.
    """
    rows = len(columns[0]) if len(columns) else 0
    poly = {tuple([0] * rows): 1}
    for col, k in zip(columns, occupation):
        nz = [(i, c) for i, c in enumerate(col) if c != 0]
        for _ in range(int(k)):
            new = defaultdict(lambda: 0)
            for mono, c in poly.items():
                for i, u in nz:
                    e = list(mono)
                    e[i] += 1
                    new[tuple(e)] += c * u
            poly = dict(new)
    return poly


def permanents_from_input(matrix, input_state):
    """{output state: permanent of the matrix with rows repeated according to the output
    and columns according to the input}, for every output reachable."""
    a = np.asarray(matrix)
    cols = [[complex(v) for v in a[:, j]] for j in range(a.shape[1])]
    poly = form_power_coefficients(cols, input_state)
    return {s: c * fact_prod(s) for s, c in poly.items()}


def permanent_naive(matrix, input_state, output_state):
    """Permanent by the definition, sum over all permutations (small sizes only)."""
    a = np.asarray(matrix)
    rows = [i for i, t in enumerate(output_state) for _ in range(int(t))]
    cols = [j for j, s in enumerate(input_state) for _ in range(int(s))]
    if len(rows) != len(cols):
        raise ValueError
    total = 0
    for perm in itertools.permutations(range(len(cols))):
        p = 1
        for r, c in enumerate(perm):
            p = p * a[rows[r]][cols[c]]
        total = total + p
    return total


def permanent_scale(matrix, input_state, output_state):
    """A natural magnitude for rounding errors of inclusion-exclusion formulas."""
    a = np.abs(np.asarray(matrix)).astype(float)
    s = np.asarray(input_state, dtype=float)
    t = np.asarray(output_state, dtype=float)
    a = a[: len(t), : len(s)]
    rows = float(np.prod((a @ s) ** t))
    cols = float(np.prod((t @ a) ** s))
    return max(rows, cols, 1e-250)


# ---------------------------------------------------------------- distributions
def lossless_distribution(matrix, input_state):
    """{output: probability} for a (sub)unitary matrix and no losses before it; for a
    unitary matrix this is the Boson Sampling distribution."""
    perms = permanents_from_input(matrix, input_state)
    fi = fact_prod(input_state)
    return {s: abs(p) ** 2 / (fact_prod(s) * fi) for s, p in perms.items()}


def dilation(a):
    """A 2m x m isometry with `a` as its upper block."""
    a = np.asarray(a, dtype=complex)
    m = a.shape[1]
    w, v = np.linalg.eigh(np.eye(m) - a.conj().T @ a)
    w = np.clip(w, 0, None)
    low = (v * np.sqrt(w)) @ v.conj().T
    return np.vstack([a, low])


def lossy_distribution(a, input_state):
    """{output of the first m modes: probability} for the sub-unitary matrix `a`."""
    m = len(input_state)
    a = np.asarray(a, dtype=complex)
    full = lossless_distribution(dilation(a), input_state)
    out = defaultdict(float)
    for s, p in full.items():
        out[s[:m]] += p
    return dict(out)


def uniform_loss_distribution(u, input_state, eta):
    """{output: probability}: every particle survives with probability eta, then the
    survivors go through the lossless interferometer."""
    out = defaultdict(float)
    for sub, w in thinned_inputs(input_state, eta).items():
        if w == 0:
            continue
        for s, p in lossless_distribution(u, sub).items():
            out[s] += w * p
    return dict(out)


def thinned_inputs(input_state, eta):
    out = defaultdict(float)
    ranges = [range(int(k) + 1) for k in input_state]
    for sub in itertools.product(*ranges):
        w = 1.0
        for k, l in zip(input_state, sub):
            w *= math.comb(int(k), l) * eta ** l * (1 - eta) ** (int(k) - l)
        out[sub] += w
    return dict(out)


def fixed_loss_inputs(input_state, left):
    """{input after losses: weight}: `left` particles kept, uniformly at random."""
    n = int(sum(input_state))
    tot = math.comb(n, left)
    out = {}
    for sub in itertools.product(*[range(int(k) + 1) for k in input_state]):
        if sum(sub) != left:
            continue
        w = 1
        for k, l in zip(input_state, sub):
            w *= math.comb(int(k), l)
        out[sub] = w / tot
    return out


def fixed_loss_distribution(u, input_state, left):
    out = defaultdict(float)
    for sub, w in fixed_loss_inputs(input_state, left).items():
        for s, p in lossless_distribution(u, sub).items():
            out[s] += w * p
    return dict(out)


def multinomial_spread(k, weights):
    """{occupation: probability} of k particles thrown independently, particle i lands
    in mode j with probability weights[j]."""
    out = {}
    for s in compositions(k, len(weights)):
        p = math.factorial(k) / fact_prod(s)
        for v, w in zip(s, weights):
            p *= w ** v
        if p > 0:
            out[s] = p
    return out


def mix(pairs):
    out = defaultdict(float)
    for w, d in pairs:
        if w == 0:
            continue
        for s, p in d.items():
            out[s] += w * p
    return dict(out)


def separable_fixed_loss_distribution(a, input_state, left):
    """Phase averaged product of `left` copies of the one-particle state that has
    amplitude sqrt(s_i/n) in mode i, through (sub)unitary `a`."""
    n = int(sum(input_state))
    m = len(input_state)
    if n == 0 or left == 0:
        return {tuple([0] * m): 1.0}
    w = [s / n for s in input_state]
    return mix(
        (p, lossy_distribution(a, k)) for k, p in multinomial_spread(left, w).items()
    )


def tvd(p, q):
    return 0.5 * sum(abs(p.get(k, 0.0) - q.get(k, 0.0)) for k in set(p) | set(q))


def binomial_weights(n, eta):
    return [math.comb(n, l) * eta ** l * (1 - eta) ** (n - l) for l in range(n + 1)]
