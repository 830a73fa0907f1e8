"""Workload ingredients: matrices and Fock states, built deterministically from small
JSON specifications so that every case can be written down and replayed."""
import numpy as np


def _ginibre(rng, m):
    return rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))


def haar(rng, m):
    q, r = np.linalg.qr(_ginibre(rng, m))
    d = np.diag(r)
    return q * (d / np.abs(d))


def orth(rng, m):
    q, r = np.linalg.qr(rng.normal(size=(m, m)))
    return q * np.sign(np.diag(r))


UNITARY_KINDS = ("haar", "orth", "perm", "ident", "qft", "block", "hadam", "phaseperm")


def build_matrix(spec):
    """spec: {"t": kind, "m": modes, "s": seed, ...} -> ndarray"""
    t, m = spec["t"], spec["m"]
    rng = np.random.default_rng([spec.get("s", 0), m])
    if t == "haar":
        a = haar(rng, m)
    elif t == "orth":
        a = orth(rng, m)
    elif t == "perm":
        a = np.eye(m)[rng.permutation(m)].astype(complex)
    elif t == "weak":  # almost no coupling between the modes: tiny probabilities
        q, r = np.linalg.qr(np.eye(m) + 10.0 ** -rng.integers(1, 5) * _ginibre(rng, m))
        a = q * (np.diag(r) / np.abs(np.diag(r)))
    elif t == "tilted":  # some outcomes of a per cent or less
        q, r = np.linalg.qr(np.eye(m) + rng.uniform(.02, .2) * _ginibre(rng, m))
        a = q * (np.diag(r) / np.abs(np.diag(r)))
    elif t == "rot":  # a chain of very unbalanced beam splitters
        a = np.eye(m, dtype=complex)
        for j in range(m - 1):
            p = 10.0 ** rng.uniform(-3.7, -2.3)
            b = np.eye(m, dtype=complex)
            b[j:j + 2, j:j + 2] = [[np.sqrt(1 - p), -np.sqrt(p)], [np.sqrt(p), np.sqrt(1 - p)]]
            a = b @ a
    elif t == "phaseperm":
        a = np.eye(m)[rng.permutation(m)] * np.exp(2j * np.pi * rng.random(m))
    elif t == "ident":
        a = np.eye(m, dtype=complex)
    elif t == "qft":
        j = np.arange(m)
        a = np.exp(2j * np.pi * np.outer(j, j) / m) / np.sqrt(m)
    elif t == "block":
        k = max(1, m // 2)
        a = np.zeros((m, m), dtype=complex)
        a[:k, :k] = haar(rng, k)
        if m > k:
            a[k:, k:] = haar(rng, m - k)
    elif t == "hadam":  # balanced beam splitters on neighbouring pairs, exact zeros
        a = np.eye(m, dtype=complex)
        for i in range(0, m - 1, 2):
            a[i : i + 2, i : i + 2] = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    elif t == "had4":
        a = np.array([[1, 1, 1, 1], [1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]], dtype=complex) / 2
    elif t == "ginibre":
        a = _ginibre(rng, m)
    elif t == "gaussint":
        a = rng.integers(-3, 4, size=(m, m)) + 1j * rng.integers(-3, 4, size=(m, m))
    elif t == "int":
        a = rng.integers(-3, 4, size=(m, m))
    elif t == "sparse":
        a = _ginibre(rng, m) * (rng.random((m, m)) < 0.5)
    elif t == "ones":
        a = np.ones((m, m), dtype=complex)
    elif t == "rank1":
        a = np.outer(rng.normal(size=m), rng.normal(size=m)) + 0j
    elif t == "lossy":  # generic sub-unitary, singular values from "eta"
        a = haar(rng, m) @ np.diag(np.sqrt(np.asarray(spec["eta"], dtype=float))) @ haar(
            rng, m
        )
    elif t == "lossyin":  # losses in front of a unitary
        a = haar(rng, m) @ np.diag(np.sqrt(np.asarray(spec["eta"], dtype=float)))
    elif t == "lossyout":
        a = np.diag(np.sqrt(np.asarray(spec["eta"], dtype=float))) @ haar(rng, m)
    elif t == "lossyreal":
        a = orth(rng, m) @ np.diag(np.sqrt(np.asarray(spec["eta"], dtype=float))) @ orth(
            rng, m
        )
    elif t == "diag":
        a = np.diag(np.sqrt(np.asarray(spec["eta"], dtype=float))).astype(complex)
    elif t == "zero":
        a = np.zeros((m, m), dtype=complex)
    else:
        raise ValueError(t)
    if "scale" in spec:
        a = a * spec["scale"]
    return a


def as_form(a, form):
    """The same matrix in one of the containers that callers use."""
    if form == "list":
        return [list(map(complex, row)) for row in a]
    if form == "tuple":
        return tuple(tuple(map(complex, row)) for row in a)
    if form == "F":
        return np.asfortranarray(a)
    if form == "view":
        big = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    if form == "ro":
        b = np.array(a)
        b.setflags(write=False)
        return b
    return np.array(a)


def as_state(s, form):
    s = [int(v) for v in s]
    if form == "tuple":
        return tuple(s)
    if form == "array":
        return np.array(s, dtype=np.int64)
    if form == "array32":
        return np.array(s, dtype=np.int32)
    if form == "npints":
        return [np.int64(v) for v in s]
    if form == "ro":
        a = np.array(s, dtype=np.int64)
        a.setflags(write=False)
        return a
    return list(s)


def random_state(rng, n, m, style=None):
    """An m-mode, n-particle Fock state, as a list."""
    style = style or rng.choice(
        ["any", "any", "standard", "gaps", "bunch1", "last", "spread"]
    )
    s = [0] * m
    if style == "standard":
        for i in range(n):
            s[i % m] += 1
    elif style == "gaps" and n <= m:
        for i in rng.choice(m, size=n, replace=False):
            s[int(i)] = 1
    elif style == "bunch1":
        s[int(rng.integers(m))] = n
    elif style == "last":
        for i in range(n):
            s[m - 1 - (i % m)] += 1
    elif style == "spread":
        j = int(rng.integers(m))
        for i in range(n):
            s[(j + i) % m] += 1
    else:
        for i in rng.integers(0, m, size=n):
            s[int(i)] += 1
    return s


def random_unitary_spec(rng, m, kinds=UNITARY_KINDS):
    w = np.array([4.0 if k == "haar" else 1.0 for k in kinds])
    return {"t": str(rng.choice(kinds, p=w / w.sum())), "m": int(m), "s": int(rng.integers(1 << 30))}
