"""Goodness-of-fit monitors for sampled outcomes against a reference distribution."""
import math
from collections import Counter

import numpy as np
from scipy.stats import chi2

IMPOSSIBLE = 1e-13


def impossible(counts, ref):
    """Outcomes that were observed although their probability is (numerically) zero."""
    return [s for s in counts if ref.get(s, 0.0) < IMPOSSIBLE]


def too_even_p(counts, ref, n):
    """Lower-tail chi-square p-value: small when the counts follow the expectation more closely
    than independent draws can (stratified draws, draws without replacement)."""
    x, cells = chi2_stat(counts, ref, n, 20.0)
    if x is None or cells < 7:
        return 1.0
    return float(chi2.cdf(x, cells - 1))


def grouped(groups, ref, m):
    """Several calls of equal length: smallest Bonferroni-corrected p-value of the summed
    chi-square statistics of the calls, both tails (calls that are too even within themselves,
    calls whose outcomes hang together)."""
    best, what, tests = 1.0, "", 0
    for name, f in views(m):
        r = project(ref, f)
        x, dof = 0.0, 0
        for g in groups:
            y, cells = chi2_stat(Counter(f(s) for s in g), r, len(g), 20.0)
            if y is None:
                return 0.0, name
            x += y
            dof += cells - 1
        if dof < 10:
            continue
        for tail, p in (("calls too even", chi2.cdf(x, dof)), ("calls too uneven", chi2.sf(x, dof))):
            tests += 1
            if p < best:
                best, what = float(p), "%s (%s)" % (tail, name)
    return min(1.0, best * max(tests, 1)), what


def chi2_p(counts, ref, n, min_expected=8.0):
    """Pooled chi-square p-value. Returns (p, cells)."""
    x, cells = chi2_stat(counts, ref, n, min_expected)
    if x is None:
        return 0.0, cells
    if cells < 2:
        return 1.0, cells
    return float(chi2.sf(x, cells - 1)), cells


def chi2_stat(counts, ref, n, min_expected=8.0):
    """Pooled chi-square statistic (None when outcomes are missing) and number of cells."""
    cells = []
    tot = sum(ref.values())
    rare_e = rare_o = 0.0
    seen = 0
    for s, p in sorted(ref.items(), key=lambda kv: -kv[1]):
        e = n * p / tot
        o = counts.get(s, 0)
        seen += o
        if e >= min_expected:
            cells.append((e, o))
        else:
            rare_e += e
            rare_o += o
            if rare_e >= min_expected:
                cells.append((rare_e, rare_o))
                rare_e = rare_o = 0.0
    if rare_e > 0 or rare_o > 0:
        if cells:
            # merge the leftover with the smallest cell
            k = min(range(len(cells)), key=lambda i: cells[i][0])
            cells[k] = (cells[k][0] + rare_e, cells[k][1] + rare_o)
        else:
            cells.append((rare_e, rare_o))
    if seen != n:
        return None, len(cells)
    return sum((o - e) ** 2 / e for e, o in cells), len(cells)


def project(d, f):
    out = Counter()
    for k, v in d.items():
        out[f(k)] += v
    return dict(out)


def coarse_classes(ref, k=6):
    """Group the outcomes into at most k classes of comparable probability."""
    items = sorted((s for s in ref if ref[s] >= IMPOSSIBLE), key=lambda s: -ref[s])
    load = [0.0] * k
    cls = {}
    for s in items:
        i = min(range(k), key=lambda j: load[j])
        cls[s] = i
        load[i] += ref[s]
    return cls


def views(m):
    """Projections of an outcome that are monitored besides the full outcome."""
    vs = [("full", lambda s: s), ("total", lambda s: sum(s))]
    if m > 1:
        for i in range(m):
            vs.append(("mode%d" % i, (lambda i: lambda s: s[i])(i)))
    return vs


def fit(samples, ref, m):
    """Smallest Bonferroni-corrected p-value over the monitored views; and witnesses."""
    n = len(samples)
    counts = Counter(samples)
    bad = impossible(counts, ref)
    if bad:
        return 0.0, "impossible outcome %r (probability %.3g)" % (
            bad[0],
            ref.get(bad[0], 0.0),
        ), True
    vs = views(m)
    rare = {s for s, p in ref.items() if p < 0.01}
    if rare and len(rare) < len(ref):
        vs.append(("rare", lambda s: s in rare))
    best, what = 1.0, ""
    for name, f in vs:
        p, cells = chi2_p(project(counts, f), project(ref, f), n)
        p = min(1.0, p * len(vs))
        if p < best:
            best, what = p, name
    return best, what, False


def lag_p(samples, ref, lag, k=5):
    """Independence of outcomes `lag` apart: chi-square of pair classes vs. products."""
    cls = coarse_classes(ref, k)
    pc = Counter()
    for s, p in ref.items():
        if s in cls:
            pc[cls[s]] += p
    if len([v for v in pc.values() if v > 0]) < 2 or len(samples) <= 2 * lag:
        return 1.0
    # disjoint pairs, so that the pairs themselves are independent
    pairs = Counter()
    i = 0
    n = 0
    while i + lag < len(samples):
        if (i // lag) % 2 == 0:
            pairs[(cls.get(samples[i], -1), cls.get(samples[i + lag], -1))] += 1
            n += 1
        i += 1
    ref2 = {(a, b): pc[a] * pc[b] for a in pc for b in pc}
    return chi2_p(pairs, ref2, n)[0]


STAGES = ((1, 3e-3), (4, 1e-4), (16, 1e-6))


def staged(draw, ref, m, base, lags=()):
    """
    draw(n) -> list of outcomes (fresh randomness on every call).  The next, larger stage
    runs only when the previous one looks suspicious; a violation needs all three, so the
    chance of a false alarm is below 1e-12 per configuration.  Returns (verdict, info).
    """
    info = {"stages": 0, "draws": 0}
    for mult, alpha in STAGES:
        n = base * mult
        samples = draw(n)
        info["stages"] += 1
        info["draws"] += len(samples)
        if len(samples) != n:
            return "count", dict(info, asked=n, got=len(samples))
        p, what, hard = fit(samples, ref, m)
        if hard:
            return "violation", dict(info, p=p, view=what, n=n)
        for lag in lags:
            q = lag_p(samples, ref, lag) * len(lags)
            if q < p:
                p, what = q, "lag%d" % lag
        info["p"] = p
        info["view"] = what
        info["distinct"] = len(set(samples))
        if p >= alpha:
            return "ok", info
    c = Counter(samples)
    worst = sorted(set(ref) | set(c), key=lambda s: -abs(c.get(s, 0) / n - ref.get(s, 0)))
    info["n"] = n
    info["worst"] = [
        (s, round(c.get(s, 0) / n, 5), round(ref.get(s, 0.0), 5)) for s in worst[:5]
    ]
    return "violation", info
