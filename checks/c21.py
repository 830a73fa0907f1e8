"""C21: outcomes are independent: within a call, across worker processes, across calls."""
from collections import Counter

import numpy as np

from vlib import gen, ref, stats, sut
from checks.c11 import approximate_reference as bobs_reference
from checks.c12 import approximate_reference as ubobs_reference
from checks.c15 import _reference

PROPERTY = "C21"
REQUIRED = tuple("pairs:" + w for w in sut.SAMPLERS) + ("worker_chunks", "repeated_calls", "fresh_objects", "consecutive", "evenness", "stretches", "groups_of_calls",
                                                       "after_reseeding_children")
RULE = (
    "every sampler on random experiments, with one to eight worker processes, as one long call, many short "
    "calls and calls of fresh objects; no two chunks (workers, calls) may coincide, no long stretch of outcomes may recur anywhere, and pairs of outcomes a "
    "lag apart (1, 2, chunk length) and at equal positions of different chunks or calls must look like "
    "independent draws (staged chi-square of outcome classes), and the frequencies of a call may not match the "
    "expectation, in one or over many calls, more closely or less closely than independent draws do (lower tail of chi-square); non-trivial: at least 4 possible outcomes"
)
ASSUMPTIONS = ("only pairwise dependence between outcomes (by class of outcomes) and coincidence of chunks is judged",)
CASE_TIMEOUT = 400
TIMER = "real"
BUDGET = {"quick": 400, "thorough": 2400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []
    inproc = [w for w in sut.SAMPLERS if not sut.SAMPLERS[w][0]]

    def base(who):
        m = int(rng.choice([3, 4]))
        n = int(rng.choice([2, 3]))
        return {"who": who, "m": m, "s": int(rng.integers(1 << 30)), "in": gen.random_state(rng, n, m),
                "eta": round(float(rng.uniform(.4, .9)), 3), "left": n, "approx": int(rng.integers(0, m)),
                "h": int(rng.integers(1, m + 1))}

    for j in range(48 * k):
        c = base(inproc[j % len(inproc)])
        c.update(k="long" if (j // len(inproc)) % 2 else "calls", threads=1)
        out.append(c)
    for j in range(24 * k):
        c = base(("bobs", "ubobs")[j % 2])
        c.update(k=("long", "long", "calls")[j % 3], threads=int(rng.choice([2, 3, 4, 8])))
        out.append(c)
    return out


def _pairs(mon, who, pairs, r, what):
    """p-value of independence of a list of (outcome, outcome)."""
    cls = stats.coarse_classes(r, 6)
    pc = Counter()
    for s, p in r.items():
        if s in cls:
            pc[cls[s]] += p
    ref2 = {(a, b): pc[a] * pc[b] for a in pc for b in pc}
    obs = Counter((cls.get(a, -1), cls.get(b, -1)) for a, b in pairs)
    mon.count("pairs:" + who, len(pairs))
    mon.count("oracle_evaluations")
    return stats.chi2_p(obs, ref2, len(pairs))[0]


def _coincide(mon, who, a, b, r, what):
    """Identical long stretches of outcomes cannot happen by chance."""
    best = sum(p * p for p in r.values())  # chance that two independent outcomes agree
    need = int(np.ceil(-30 / np.log10(best))) if best < 1 else 1 << 30
    n = min(len(a), len(b), need)
    if n < need:
        return
    mon.check(a[:n] != b[:n], "repeated-outcomes:" + who, "%s: %s start with the same %d outcomes %s..."
              % (who, what, n, a[:6]))


def _repetition(mon, who, seqs, r, what):
    """A stretch of outcomes that occurs twice, anywhere, and is too long to recur by chance."""
    total, top = sum(len(s) for s in seqs), max(r.values())
    if top >= 1 - 1e-9:
        return
    need = int(np.ceil(-(2 * np.log10(max(total, 10)) + 16) / np.log10(top)))
    seen = {}
    for q, s in enumerate(seqs):
        for k in range(len(s) - need + 1):
            w = hash(tuple(s[k:k + need]))
            if w in seen:
                a, b = seen[w]
                if seqs[a][b:b + need] == s[k:k + need]:
                    mon.violation("repeated-outcomes:" + who, "%s: %s: the same %d outcomes %s... occur twice "
                                  "(sequence %d, position %d and sequence %d, position %d)"
                                  % (who, what, need, s[k:k + 5], a, b, q, k))
            seen[w] = (q, k)
    mon.count("stretches", len(seen))


def run_case(case, mon):
    who, m, i = case["who"], case["m"], case["in"]
    spawns = sut.SAMPLERS[who][0]
    eta, left, t = case["eta"], case["left"], case["threads"]
    if who in ("lossynet", "bobs"):
        u = gen.build_matrix({"t": "lossy", "m": m, "s": case["s"], "eta": [.9, .5, .7, .8][:m]})
    else:
        u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    if who == "bobs":
        r = bobs_reference(u, i, case["approx"])
    elif who == "ubobs":
        r = ubobs_reference(u, i, case["h"], eta)
    else:
        r = _reference(who, u, i, eta, left)
    make = lambda: sut.sampler(who, u, i, "ryser", eta=eta, left=left, approx=case["approx"], h=case["h"], threads=t)

    if case["k"] == "long":
        size = {"bobs": 1600, "ubobs": 1600, "gcc_b": 1500, "gcc_b_ul": 1500, "lossynet": 1200}.get(who, 12000)
        for mult, alpha in stats.STAGES:
            n = size * mult // t * t
            with mon.code(who):
                got = sut.loose(make().simulate(list(i), n))
            _repetition(mon, who, [got], r, "one call")
            chunk = n // t
            ps = [(stats.lag_p(got, r, lag, 6), "outcomes %d apart" % lag) for lag in (1, 2, 3)]
            mon.count("pairs:" + who, 3 * n // 2)
            mon.count("consecutive")
            mon.count("oracle_evaluations", 3)
            chunks = [got[c * chunk:(c + 1) * chunk] for c in range(t)]
            for a in range(t):
                for b in range(a):
                    _coincide(mon, who, chunks[a], chunks[b], r, "workers %d and %d" % (b, a))
                    mon.count("worker_chunks")
            half = t // 2
            if half:
                pr = [q for a in range(half) for q in zip(chunks[2 * a], chunks[2 * a + 1])]
                ps.append((_pairs(mon, who, pr, r, "workers"), "outcomes of different workers"))
            ps.append((stats.too_even_p(Counter(got), r, n), "frequencies too even, outcomes of a call"))
            mon.count("evenness")
            p, what = min(ps)
            if p * len(ps) >= alpha:
                break
        else:
            mon.violation("dependent:" + who, "%s: %s are not independent (p=%.3g, %d outcomes, %d workers, input %s)"
                          % (who, what, p, n, t, i))
    else:
        size = {"bobs": 400, "ubobs": 400, "gcc_b": 400, "gcc_b_ul": 400, "lossynet": 400}.get(who, 800)
        for mult, alpha in stats.STAGES:
            n = size * mult // t * t
            with mon.code(who):
                s = make()
                a, b = sut.loose(s.simulate(list(i), n)), sut.loose(s.simulate(list(i), n))
                c = sut.loose(make().simulate(list(i), n))
                d = sut.loose(make().simulate(list(i), n))
            for x, y, what in ((a, b, "two calls"), (b, c, "calls of two objects"), (c, d, "calls of fresh objects"),
                               (a, d, "calls of two objects")):
                _coincide(mon, who, x, y, r, what)
            _repetition(mon, who, [a, b, c, d], r, "several calls")
            mon.count("repeated_calls", 2)
            mon.count("fresh_objects", 2)
            mon.count("after_reseeding_children", int(spawns))
            ps = [(_pairs(mon, who, list(zip(a, b)), r, ""), "two calls"),
                  (_pairs(mon, who, list(zip(c, d)), r, ""), "two objects"),
                  (_pairs(mon, who, list(zip(b, c)), r, ""), "two objects")]
            if not spawns:  # many one-outcome calls
                with mon.code(who):
                    ones = sut.loose([s.simulate(list(i), 1)[0] for _ in range(n)])
                ps.append((stats.lag_p(ones, r, 1, 6), "one-outcome calls"))
                _coincide(mon, who, ones, a, r, "one-outcome calls and a long call")
                with mon.code(who):
                    groups = [sut.loose(s.simulate(list(i), 150)) for _ in range(12 * mult)]
                ps.append(stats.grouped(groups, r, m))
                mon.count("groups_of_calls", len(groups))
            p, what = min(ps)
            if p * len(ps) >= alpha:
                break
        else:
            mon.violation("dependent:" + who, "%s: %s are not independent (p=%.3g, %d outcomes, input %s)"
                          % (who, what, p, n, i))
    if sum(p > 1e-9 for p in r.values()) >= 4:
        mon.see("nontrivial", [who, case["s"], i, case["k"], t])
        mon.sample({"sampler": who, "mode": case["k"], "workers": t, "in": i, "p": p})
