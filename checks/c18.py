"""C18: sample-based distributions are exactly the frequencies of the drawn samples."""
from collections import Counter

import numpy as np

from vlib import gen, ref, sut

PROPERTY = "C18"
REQUIRED = ("default_outcomes", "given_outcomes", "count_from_constructor", "count_from_argument", "default_count",
            "real_strategies", "unlisted_outcomes", "replaced_strategy", "frequencies", "requested_outcomes",
            "replaced_configuration", "replaced_count", "two_digit_occupations", "wide_occupations", "listed_twice")
RULE = (
    "recording strategies (a stub that replays a random multiset of outcomes, or a real sampler) behind the "
    "sample-based calculator, with all ways of choosing outcomes and the number of samples and histories of "
    "replaced parts; the frequencies have to be exactly count/number of samples, aligned with the outcomes; "
    "non-trivial: at least 3 listed outcomes and 2 drawn ones"
)
ASSUMPTIONS = ()
FORMS = ("tuple", "list", "array", "array32", "npints")


class Recorder:
    """Stands between the calculator and a strategy and keeps the event log."""

    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def simulate(self, input_state, samples_number=1):
        got = self.inner(input_state, samples_number)
        self.calls.append((tuple(int(v) for v in input_state), samples_number,
                           [tuple(int(v) for v in s) for s in got]))
        return got


def cases(rng, tier):
    out = []
    for j in range(1200 if tier == "quick" else 25000):
        m = int(rng.integers(1, 5))
        n = int(rng.integers(0, 5))
        steps = [str(v) for v in rng.choice(["dist", "approx", "approx_n", "probs", "set_n", "set_outcomes",
                                             "set_strategy", "set_conf"],
                                            p=[.2, .12, .2, .16, .08, .08, .08, .08], size=int(rng.integers(2, 8)))]
        out.append({"m": m, "in": gen.random_state(rng, n, m), "left": int(rng.integers(0, n + 1)),
                    "real": bool(j % 8 == 0), "steps": steps + ["dist"],
                    "n": None if j % 40 == 1 else int(rng.choice([1, 2, 3, 7, 10, 64, 333])),
                    "outcomes": bool(rng.random() < .4), "sform": str(rng.choice(FORMS[:3])),
                    "oform": str(rng.choice(FORMS))})
        if j % 9 == 5:
            out[-1]["twice"] = 1
        if j % 10 == 3:  # two-digit occupations
            n = int(rng.integers(11, 14))
            out[-1].update({"m": 2, "in": gen.random_state(rng, n, 2), "left": n - int(rng.integers(2)),
                            "real": False, "n": int(rng.choice([64, 333]))})
        if j % 25 == 4:  # occupations that do not fit into a byte
            n = int(rng.integers(100, 400))
            out[-1].update({"m": 2, "in": gen.random_state(rng, n, 2), "left": n, "real": False,
                            "n": int(rng.choice([20, 64])), "wide": 1, "steps": ["dist", "probs", "approx"]})
    return out


def run_case(case, mon):
    m, i = case["m"], case["in"]
    rng = np.random.default_rng(case["seed"])
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["seed"]})

    def pool(state):
        if sum(state) >= 100:  # states whose occupations differ by multiples of 128 among others
            n = sum(state)
            return [(n, 0), (0, n)] + [(n - a, a) for a in range(1, n, max(1, n // 40))] + [
                (n - a, a) for a in (64, 128, 256) if a < n and a % max(1, n // 40) != 1]
        return [s for k in range(sum(state) + 1) for s in ref.compositions(k, m)]

    def strategy(state):
        if case["real"]:
            mon.count("real_strategies")
            return Recorder(sut.sampler("gcc_a_ul", u, state, eta=.7).simulate)

        def stub(st, k):
            ps = pool(st)
            return [gen.as_state(ps[int(v)], case["sform"]) for v in rng.integers(0, len(ps), size=k)]

        return Recorder(stub)

    def some(state):
        ps = pool(state)
        pick = [ps[int(v)] for v in rng.permutation(len(ps))[: int(rng.integers(1, len(ps) + 1))]]
        if case.get("twice"):
            pick += [pick[int(v)] for v in rng.integers(0, len(pick), size=2)]
        return [gen.as_state(s, case["oform"]) for s in pick]

    listed = some(i) if case["outcomes"] else None
    conf = sut.config(u, list(i), case["left"])
    rec = strategy(i)
    count = case["n"]
    with mon.code("construct"):
        args = {} if count is None else {"samples_number": count}
        if listed is not None:
            args["outcomes"] = listed
        calc = sut.BSSampleBasedDistributionCalculator(conf, rec, **args)
    if count is None:
        count = 5000
        mon.count("default_count")
    else:
        mon.count("count_from_constructor")
    state, left = list(i), case["left"]
    for step in case["steps"]:
        expected = count
        with mon.code(step):
            if step == "dist":
                got = calc.calculate_distribution()
            elif step == "approx":
                got = calc.calculate_approximate_distribution()
            elif step == "approx_n":
                expected = int(rng.choice([1, 2, 5, 50, 128]))
                got = calc.calculate_approximate_distribution(expected)
                mon.count("count_from_argument")
            elif step == "probs":
                asked = some(state)
                got = calc.calculate_probabilities_of_outcomes(asked)
                listed = asked
                mon.count("requested_outcomes")
            elif step == "set_n":
                count = int(rng.choice([1, 4, 9, 100]))
                calc.samples_number = count
                mon.count("replaced_count")
                continue
            elif step == "set_outcomes":
                listed = some(state)
                calc.outcomes = listed
                continue
            elif step == "set_strategy":
                rec = strategy(state)
                calc.strategy = rec
                mon.count("replaced_strategy")
                continue
            else:
                state = gen.random_state(rng, int(rng.integers(0, 5)), m)
                left = int(rng.integers(0, sum(state) + 1))
                if case["real"]:
                    rec = strategy(state)
                    calc.strategy = rec
                calc.configuration = sut.config(u, list(state), left)
                mon.count("replaced_configuration")
                continue
            order = calc.get_outcomes_in_proper_order()
        ctx = "%s, input %s, %d samples" % (step, state, expected)
        mon.check(len(rec.calls) >= 1, "no-sampling", "nothing was sampled (%s)" % ctx)
        drawn = [s for c in rec.calls for s in c[2]]
        mon.check(len(drawn) == expected, "samples-number", "%d samples were drawn (%s)" % (len(drawn), ctx))
        mon.check(all(c[0] == tuple(state) for c in rec.calls), "input", "sampled for %r (%s)" % (rec.calls[0][0], ctx))
        rec.calls.clear()
        order = [tuple(int(v) for v in s) for s in order]
        if listed is None:
            mon.check(sorted(order) == sorted(ref.compositions(left, m)), "outcomes",
                      "the outcomes are not the %d-particle states: %s (%s)" % (left, order, ctx))
            mon.count("default_outcomes")
        else:
            want = [tuple(int(v) for v in s) for s in listed]
            mon.check(order == want, "outcomes", "outcomes %s instead of the given %s (%s)" % (order, want, ctx))
            mon.count("given_outcomes")
        mon.check(len(got) == len(order), "length", "%d frequencies for %d outcomes (%s)" % (len(got), len(order), ctx))
        freq = Counter(drawn)
        for s, p in zip(order, got):
            mon.check(abs(float(p) - freq.get(s, 0) / expected) < 1e-12, "frequency",
                      "outcome %s was drawn %d times out of %d, but its frequency is %r (%s)"
                      % (s, freq.get(s, 0), expected, p, ctx))
        mon.count("frequencies", len(got))
        mon.count("listed_twice", len(order) - len(set(order)))
        mon.count("wide_occupations", sum(max(s) > 127 for s in freq))
        mon.count("two_digit_occupations", sum(max(s) > 9 for s in freq))
        mon.count("unlisted_outcomes", sum(v for s, v in freq.items() if s not in set(order)))
        if len(order) >= 3 and len(freq) >= 2:
            mon.see("nontrivial", [case["seed"], step, state, expected])
            mon.sample({"step": step, "in": state, "samples": expected, "outcomes": len(order), "drawn": len(freq)})
