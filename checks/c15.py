"""C15: what an object returns depends on the present request only, not on what it (or another
object that shares its parts) was asked before; requests do not modify what the caller passed."""
import copy

import numpy as np

from theboss import quantum_computations_utilities as qcu
from checks.c06 import _compare
from checks.c10 import lossy_spec
from checks.c11 import approximate_reference as bobs_reference
from checks.c12 import approximate_reference as ubobs_reference
from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C15"
INPROC = tuple(w for w in sut.SAMPLERS if not sut.SAMPLERS[w][0])
REQUIRED = tuple("certain:" + w for w in sut.SAMPLERS) + tuple("fits:" + w for w in INPROC) + (
    "new_matrix", "shared_calculator_steps", "snapshots_compared", "calculator_steps", "permanent_steps",
    "returned_values_spoiled", "buffers_reused", "replaced_settings", "recycled_matrices",
    "edited_configurations")
RULE = (
    "random histories of requests (different inputs, particle numbers, matrices, numbers of samples, queries "
    "of distributions) on one object, and on several objects that share one permanent calculator; outcomes "
    "that are certain are checked one by one, others by staged chi-square interleaved with foreign requests, "
    "calculators against independent values; matrices, states and configurations are compared with snapshots "
    "after every call, and returned values are spoiled by the caller between calls; non-trivial: a history of "
    "at least 4 requests with at least 2 different inputs"
)
ASSUMPTIONS = ("replacing the matrix of an object is visible in the objects it shares a calculator with",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
INPROC_WIDE = 16
CASE_TIMEOUT = 300
TIMER = "real"
BUDGET = {"quick": 320, "thorough": 2400}
SETTABLE = ("gcc_a", "gcc_ma", "gcc_b", "gcc_a_ul", "gcc_b_ul", "lossynet")


def cases(rng, tier):
    k = 2 if tier == "quick" else 24
    out = []

    def history(m, nmax, steps, single, settable):
        h = []
        for _ in range(steps):
            if settable and rng.random() < 0.3:
                h.append(["mat", int(rng.integers(1 << 30))])
            n = int(rng.integers(0, nmax + 1))
            s = gen.random_state(rng, n, m, "bunch1" if single else None)
            h.append(["sim", s, int(rng.integers(1, 4))])
        return h

    for j in range(180 * k):
        who = INPROC[j % len(INPROC)]
        m = int(rng.integers(2, 7 if who != "gcc_b" else 12))
        big = j // len(INPROC) % 4 == 3  # more modes and particles
        if big:
            m = int(rng.integers(5, 9))
        out.append({"k": "certain", "who": who, "m": m, "s": int(rng.integers(1 << 30)),
                    "calc": str(rng.choice(CALC[1:] if big else CALC)), "left": int(rng.integers(0, 4)),
                    "buffer": bool(rng.random() < 0.4),
                    "hist": history(m, 6 if big else 3, int(rng.integers(4, 12)), who in ("fixed", "uniform"), who in SETTABLE)})
    for j in range(10 * k):
        who = ("bobs", "ubobs")[j % 2]
        m = int(rng.integers(2, 5))
        out.append({"k": "certain", "who": who, "m": m, "s": int(rng.integers(1 << 30)), "calc": "ryser",
                    "left": 0, "buffer": bool(j % 3 == 0), "hist": history(m, 3, 4, False, False)})
    for j in range(32 * k):
        who = INPROC[j % len(INPROC)]
        m = int(rng.choice([2, 3]))
        out.append({"k": "interleaved", "who": who, "m": m, "mats": [int(v) for v in rng.integers(1 << 30, size=2)],
                    "calc": str(rng.choice(CALC)), "eta": round(float(rng.uniform(.2, .95)), 3), "left": 2,
                    "in": gen.random_state(rng, int(rng.integers(2, 4)), m),
                    "other": gen.random_state(rng, int(rng.integers(1, 4)), m),
                    "batch": int(rng.choice([1, 3, 40, 200]))})
    for j in range(INPROC_WIDE * k):
        who = INPROC[j % len(INPROC)]
        m, n = [(4, 4), (5, 3), (6, 3), (4, 3)][j // len(INPROC) % 4]
        out.append({"k": "interleaved", "who": who, "m": m, "mats": [int(v) for v in rng.integers(1 << 30, size=2)],
                    "calc": "ryser", "eta": round(float(rng.uniform(.4, .95)), 3), "left": 3, "base": 700,
                    "in": gen.random_state(rng, n, m, "spread"),
                    "other": gen.random_state(rng, int(rng.integers(1, 6)), m), "batch": int(rng.choice([40, 200]))})
    for j in range(40 * k):
        m = int(rng.integers(2, 6)) if j % 3 else int(rng.integers(6, 9))
        out.append({"k": "shared", "m": m, "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(CALC)),
                    "steps": [[str(rng.choice(["gcc_a", "gcc_ma", "gcc_b", "gcc_a_ul", "gcc_b_ul", "lossynet",
                                               "factory", "dist"])),
                               gen.random_state(rng, int(rng.integers(0, 4 if m < 6 else 5)), m)] for _ in range(12)]})
    for j in range(8 * k):
        m = int(rng.choice([2, 3]))
        out.append({"k": "sharedfit", "m": m, "s": int(rng.integers(1 << 30)), "calc": str(rng.choice(CALC)),
                    "who": ("gcc_a", "gcc_b", "gcc_ma", "lossynet")[j % 4],
                    "in": gen.random_state(rng, 3, m), "other": gen.random_state(rng, 2, m)})
    for j in range(60 * k):
        m = int(rng.integers(2, 5))
        n = int(rng.integers(1, 4))
        if j % 5 == 4:
            m, n = int(rng.integers(4, 7)), int(rng.integers(4, 6))
        out.append({"k": "distcalc", "which": ("fixed", "uniform")[int(j % 6 == 0)], "m": m,
                    "mat": gen.random_unitary_spec(rng, m), "in": gen.random_state(rng, n, m),
                    "left": int(rng.integers(0, n + 1)), "eta": round(float(rng.random()), 3),
                    "calc": str(rng.choice(CALC)),
                    "steps": [str(v) for v in rng.choice(["all", "some", "order", "spoil", "foreign", "edit"], size=8)]})
    for j in range(60 * k):
        m = int(rng.integers(1, 5 if j % 3 else 8))
        out.append({"k": "perm", "m": m, "calc": str(rng.choice(CALC)), "s": int(rng.integers(1 << 30)),
                    "steps": int(rng.integers(6, 20))})
    for j in range(24 * k):
        out.append({"k": "attributes", "who": ("uniform", "uniform", "fixed")[j % 3], "m": int(rng.integers(1, 7)),
                    "steps": int(rng.integers(3, 10))})
    for j in range(40 * k):
        out.append({"k": "utils", "m": int(rng.integers(1, 5 if j % 3 else 8)), "n": int(rng.integers(1, 5 if j % 3 else 7)),
                    "s": int(rng.integers(1 << 30))})
    return out


def _attributes(case, mon):
    """Public settings of the separable samplers are replaced between requests."""
    m, rng = case["m"], np.random.default_rng(case["seed"])

    def mat(size):
        return gen.build_matrix({"t": "phaseperm", "m": size, "s": int(rng.integers(1 << 30))})

    u = mat(m)
    eta, left = 1.0, 2
    with mon.code("construct " + case["who"]):
        s = sut.sampler(case["who"], u.copy(), [2] * m, eta=eta, left=left)
    for step in range(case["steps"]):
        if case["who"] == "uniform":
            what = str(rng.choice(["interferometer_matrix", "interferometer_matrix", "transmissivity", "size"]))
            with mon.code("uniform, " + what):
                if what == "size":
                    m = int(rng.integers(1, 7))
                    s.number_of_modes = m
                if what in ("size", "interferometer_matrix"):
                    u = mat(m)
                    s.interferometer_matrix = None
                    s.interferometer_matrix = u.copy()
                else:
                    eta = float(rng.integers(0, 2))
                    s.transmissivity = eta
        else:
            left = int(rng.integers(0, 6))
            s.number_of_photons_left = left
        i = gen.random_state(rng, int(rng.integers(1, 6)), m, "bunch1")
        with mon.code(case["who"]):
            got = s.simulate(list(i), 3)
        want = [v * int(eta) if case["who"] == "uniform" else left * bool(v) for v in image(u, i)]
        deterministic(mon, case["who"], got, want, "settings replaced, step %d" % step)
        mon.count("replaced_settings")
    mon.see("nontrivial", [case["who"], case["seed"]])


class Snapshots:
    """What the caller passed must not change."""

    def __init__(self, mon, who):
        self.mon, self.who, self.kept = mon, who, []

    def keep(self, label, obj):
        self.kept.append((label, obj, copy.deepcopy(obj)))
        return obj

    @staticmethod
    def same(a, b):
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(Snapshots.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return type(a) is type(b) and list(a) == list(b) and all(Snapshots.same(v, b[k]) for k, v in a.items())
        if hasattr(a, "interferometer_matrix") and hasattr(a, "initial_state"):
            return set(vars(a)) == set(vars(b)) and all(
                Snapshots.same(v, vars(b)[k]) for k, v in vars(a).items() if k != "network_simulation_strategy")
        return a == b

    def compare(self):
        for label, obj, before in self.kept:
            self.mon.count("snapshots_compared")
            self.mon.check(self.same(obj, before), "modified-argument:%s:%s" % (self.who, label),
                           "%s modified the %s it was given: %r became %r" % (self.who, label, before, obj))


def image(u, s):
    want = [0] * len(s)
    for c, v in enumerate(s):
        want[int(np.argmax(np.abs(u[:, c])))] += v
    return want


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon)


def _certain(case, mon):
    who, m = case["who"], case["m"]
    rng = np.random.default_rng(case["seed"])
    snap = Snapshots(mon, who)

    def matrix(seed):
        u = gen.build_matrix({"t": "phaseperm", "m": m, "s": seed})
        keep = np.ones(m)
        if who == "lossynet":
            keep = (np.random.default_rng(seed).random(m) < 0.7).astype(float)
        return snap.keep("matrix", u * keep), u, keep

    a, u, keep = matrix(case["s"])
    first = next(h[1] for h in case["hist"] if h[0] == "sim")
    if who in ("bobs", "ubobs"):
        # a bunched, permuted, phase-only network: approximating a single mode changes nothing
        opts = {"approx": int(rng.integers(0, 2)), "h": m - int(rng.integers(0, 2)), "threads": 2}
    else:
        opts = {"left": case["left"]}
    pc = None
    if who not in ("fixed", "uniform"):
        pc = sut.PERM[case["calc"]](a, list(first), list(first))
    with mon.code("construct " + who):
        s = sut.sampler(who, a, first, case["calc"], eta=1.0, pc=pc, **opts)
    buffer = [0] * m
    inputs = set()
    for step, h in enumerate(case["hist"]):
        if h[0] == "mat":
            a, u, keep = matrix(h[1])
            with mon.code(who + ".set_new_matrix"):
                s.set_new_matrix(a)
            mon.count("new_matrix")
            continue
        if case["buffer"]:
            buffer[:] = h[1]
            state = buffer
            mon.count("buffers_reused")
        else:
            state = snap.keep("input state", gen.as_state(h[1], ("list", "array", "tuple", "ro")[step % 4]))
        before = copy.deepcopy(state)
        with mon.code(who):
            got = s.simulate(state, h[2])
        mon.check(Snapshots.same(state, before), "modified-argument:%s:input state" % who,
                  "%s turned its input %r into %r" % (who, before, state))
        kept = [int(v * k) for v, k in zip(h[1], keep)]
        want = image(u, kept)
        if who == "fixed":
            want = [case["left"] if v else 0 for v in want]
        if who == "ubobs" and len(set(h[1])) < m and opts["h"] < m:
            # relabelling of equally occupied modes makes the approximated mode move, nothing else
            pass
        mon.check(len(got) == h[2], "samples-number:" + who, "%d instead of %d" % (len(got), h[2]))
        deterministic(mon, who, got, want, "input %s, request %d of %s" % (h[1], step, case["hist"]))
        if pc is not None and who not in SETTABLE:
            mon.check(np.array_equal(pc.matrix, a), "modified-argument:%s:calculator" % who,
                      "%s changed the matrix of the permanent calculator it was given" % who)
        snap.compare()
        inputs.add(tuple(h[1]))
    if pc is not None and not any(h[0] == "mat" for h in case["hist"]):
        mon.check(np.array_equal(np.asarray(pc.matrix), a), "modified-argument:%s:calculator" % who,
                  "%s changed the matrix of the permanent calculator it was given" % who)
    mon.see("histories", [who, case["hist"]])
    if len(inputs) >= 2 and len(case["hist"]) >= 4:
        mon.see("nontrivial", [who, case["s"], case["hist"]])
        mon.sample({"object": who, "history": case["hist"][:5]})


def _reference(who, a, i, eta, left):
    if who in ("gcc_a", "gcc_ma", "gcc_b"):
        return ref.lossless_distribution(a, i)
    if who in ("gcc_a_ul", "gcc_b_ul"):
        return ref.uniform_loss_distribution(a, i, eta)
    if who == "lossynet":
        return ref.lossy_distribution(a, i)
    if who == "fixed":
        return ref.separable_fixed_loss_distribution(a, i, left)
    if who == "uniform":
        return ref.mix((w, ref.separable_fixed_loss_distribution(a, i, l))
                       for l, w in enumerate(ref.binomial_weights(sum(i), eta)))
    raise ValueError(who)


def _interleaved(case, mon):
    who, m, i = case["who"], case["m"], case["in"]
    if who == "lossynet":
        mats = [gen.build_matrix({"t": "lossy", "m": m, "s": s, "eta": [.9, .4, .7, .8, .95, .6][:m]}) for s in case["mats"]]
    else:
        mats = [gen.build_matrix({"t": "haar", "m": m, "s": s}) for s in case["mats"]]
    r = _reference(who, mats[0], i, case["eta"], case["left"])
    with mon.code("construct " + who):
        s = sut.sampler(who, mats[0], i, case["calc"], eta=case["eta"], left=case["left"])

    def draw(k):
        out = []
        while len(out) < k:
            if who in SETTABLE and case["batch"] >= 40:
                s.set_new_matrix(mats[1])
                s.simulate(case["other"], 2)
                s.set_new_matrix(mats[0])
                mon.count("new_matrix")
            s.simulate(case["other"], 1)
            out += s.simulate(i, min(case["batch"], k - len(out)))
        return out

    base = case.get("base", 1000 if case["batch"] == 1 else 2000)
    info = monitored(mon, who, draw, r, m, base, key="interleaved",
                     ctx="input %s interleaved with %s, batches of %d" % (i, case["other"], case["batch"]))
    mon.see("nontrivial", [who, case["mats"], i, case["other"]])
    mon.sample({"object": who, "in": i, "interleaved_with": case["other"], "p": info["p"]})


def _shared(case, mon):
    m = case["m"]
    u = gen.build_matrix({"t": "phaseperm", "m": m, "s": case["s"]})
    snap = Snapshots(mon, "shared calculator")
    snap.keep("matrix", u)
    first = case["steps"][0][1]
    pc = sut.PERM[case["calc"]](u, list(first), list(first))
    made = {}
    for step, (who, i) in enumerate(case["steps"]):
        n = sum(i)
        state = snap.keep("input state", list(i))
        want = image(u, i)
        if who == "dist":
            conf = snap.keep("configuration", sut.config(u, state, n))
            with mon.code("distribution calculator"):
                dc = sut.BSDistributionCalculatorWithFixedLosses(conf, pc)
                states = dc.get_outcomes_in_proper_order()
                probs = dc.calculate_distribution()
            _compare(mon, "fixed-losses", states, probs, {tuple(want): 1.0}, "shared calculator, input %s" % i)
        else:
            with mon.code(who):
                if who == "factory":
                    conf = snap.keep("configuration", sut.config(u, state, n))
                    s = sut.SimulationStrategyFactory(conf, pc, sut.StrategyType.GCC).generate_strategy()
                else:
                    if who not in made:
                        made[who] = sut.sampler(who, u, i, eta=1.0, pc=pc)
                    s = made[who]
                got = s.simulate(state, 2)
            deterministic(mon, who, got, want, "step %d of %s with a shared calculator" % (step, case["steps"]))
        mon.check(np.array_equal(np.asarray(pc.matrix), u), "modified-argument:%s:calculator" % who,
                  "%s changed the matrix of the permanent calculator it shares" % who)
        mon.count("shared_calculator_steps")
        snap.compare()
    mon.see("nontrivial", [case["s"], case["steps"]])


def _sharedfit(case, mon):
    who, m, i = case["who"], case["m"], case["in"]
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    pc = sut.PERM[case["calc"]](u, list(i), list(i))
    r = ref.lossless_distribution(u, i)
    with mon.code(who):
        s = sut.sampler(who, u, i, pc=pc)
        others = [sut.sampler(w, u, i, pc=pc, eta=.5) for w in ("gcc_b", "lossynet", "gcc_a", "gcc_a_ul")]
    dc = sut.BSDistributionCalculatorWithFixedLosses(sut.config(u, case["other"], 1), pc)

    def draw(k):
        out, turn = [], 0
        while len(out) < k:
            others[turn % 4].simulate(case["other"], 1)
            if turn % 5 == 0:
                dc.calculate_distribution()
            turn += 1
            out += s.simulate(i, min(50, k - len(out)))
        mon.count("shared_calculator_steps", turn)
        return out

    monitored(mon, who, draw, r, m, 2000, key="shared", ctx="input %s, shared permanent calculator" % i)
    mon.see("nontrivial", [who, case["s"], i])


def _distcalc(case, mon):
    m, i, which = case["m"], case["in"], case["which"]
    n = sum(i)
    u = gen.build_matrix(case["mat"])
    u2 = gen.build_matrix({"t": "haar", "m": m, "s": 3})
    snap = Snapshots(mon, "distribution calculator")
    snap.keep("matrix", u)
    conf = sut.config(u, list(i), n if which == "uniform" else case["left"], case["eta"])
    kept = Snapshots(mon, "distribution calculator")
    kept.keep("configuration", conf)
    pc = sut.PERM[case["calc"]](u, list(i), list(i))
    if which == "fixed":
        r = ref.fixed_loss_distribution(u, i, case["left"])
        make = sut.BSDistributionCalculatorWithFixedLosses
    else:
        r = ref.uniform_loss_distribution(u, i, case["eta"])
        make = sut.BSDistributionCalculatorWithUniformLosses
    with mon.code("construct"):
        dc = make(conf, pc)
    rng = np.random.default_rng(case["seed"])
    every = [s for k in (range(n + 1) if which == "uniform" else [case["left"]]) for s in ref.compositions(k, m)]
    for step in case["steps"]:
        with mon.code("distribution calculator, " + step):
            if step == "all":
                states, probs = dc.get_outcomes_in_proper_order(), dc.calculate_distribution()
            elif step == "order":
                states, probs = dc.get_outcomes_in_proper_order(), None
            elif step == "spoil":  # the returned lists belong to the caller
                dc.get_outcomes_in_proper_order().clear()
                p = dc.calculate_distribution()
                p.reverse()
                p.append(7.0)
                mon.count("returned_values_spoiled", 2)
                states, probs = dc.get_outcomes_in_proper_order(), dc.calculate_distribution()
            elif step == "edit":  # the caller prepares the next experiment; this one was agreed on
                conf.number_of_particles_left, conf.number_of_particles_lost = 1, max(n - 1, 0)
                conf.uniform_transmissivity = 0.123
                conf.initial_state[:] = gen.random_state(rng, max(1, n), m)
                conf.initial_state = gen.random_state(rng, max(1, n), m)
                conf.interferometer_matrix = u2
                kept = Snapshots(mon, "distribution calculator")
                kept.keep("configuration", conf)
                mon.count("edited_configurations")
                states, probs = dc.get_outcomes_in_proper_order(), dc.calculate_distribution()
            elif step == "foreign":  # somebody else uses the same permanent calculator
                pc.matrix, pc.input_state, pc.output_state = u2, [1] * m, [1] * m
                pc.compute_permanent()
                states, probs = dc.get_outcomes_in_proper_order(), dc.calculate_distribution()
            else:
                states = [every[int(v)] for v in rng.permutation(len(every))[: int(rng.integers(1, len(every) + 1))]]
                snap.keep("outcomes", states)
                probs = dc.calculate_probabilities_of_outcomes(states)
        if probs is None:
            mon.check(sorted(tuple(s) for s in states) == sorted(every), "outcomes:" + which, "wrong outcomes")
        else:
            _compare(mon, which, states, probs, r, "input %s, step %s of %s" % (i, step, case["steps"]))
        mon.count("calculator_steps")
        snap.compare()
        kept.compare()
    mon.see("nontrivial", [which, case["mat"], i, case["steps"]])


def _perm(case, mon):
    m = case["m"]
    rng = np.random.default_rng(case["seed"])
    buf = gen.build_matrix({"t": "ginibre", "m": m, "s": 1})
    ib, ob = [0] * m, [0] * m
    with mon.code("construct " + case["calc"]):
        pc = sut.PERM[case["calc"]](buf, ib, ob)
    for step in range(case["steps"]):
        n = int(rng.integers(1, (5 if m < 5 else 8) if case["calc"] != "classic" else 4))
        if step % 4 == 1:  # a new matrix where the old one was
            pc.matrix = np.eye(m)
            del buf
            mon.count("recycled_matrices")
            buf = gen.build_matrix({"t": "haar", "m": m, "s": int(rng.integers(1 << 30))})
        elif step % 3 == 0:
            buf[:] = gen.build_matrix({"t": "haar", "m": m, "s": int(rng.integers(1 << 30))})
        ib[:] = gen.random_state(rng, n, m)
        ob[:] = gen.random_state(rng, n, m)
        with mon.code(case["calc"]):
            pc.matrix, pc.input_state, pc.output_state = buf, ib, ob
            before = (buf.copy(), list(ib), list(ob))
            v = complex(pc.compute_permanent())
            w = complex(pc.compute_permanent())
        mon.check(np.array_equal(before[0], buf) and before[1] == ib and before[2] == ob,
                  "modified-argument:%s" % case["calc"], "%s modified its arguments" % case["calc"])
        want = ref.permanents_from_input(buf, ib).get(tuple(ob), 0.0)
        tol = 1e-9 * ref.permanent_scale(buf, ib, ob) + 1e-9
        mon.check(abs(v - want) <= tol and abs(w - want) <= tol, "permanent-history:" + case["calc"],
                  "%s, request %d: permanents %r and %r instead of %r (input %s, output %s)"
                  % (case["calc"], step, v, w, want, ib, ob))
        mon.count("permanent_steps")
        mon.count("buffers_reused")
    mon.see("nontrivial", [case["calc"], case["s"], m])


def _utils(case, mon):
    m, n = case["m"], case["n"]
    b = sut.bsu
    rng = np.random.default_rng(case["seed"])
    state = gen.random_state(rng, n, m)
    a = gen.build_matrix({"t": "lossy", "m": m, "s": case["s"], "eta": list(rng.random(m))})
    snap = Snapshots(mon, "utility")
    snap.keep("matrix", a)
    snap.keep("state", state)
    keys = ref.compositions(n, m)
    half = max(1, len(keys) // 2)
    q = snap.keep("distribution", {s: float(v) for s, v in zip(keys[:half + 1], rng.random(half + 1))})
    w = snap.keep("distribution", {s: float(v) for s, v in zip(keys[half - 1:], rng.random(len(keys)))})
    ql, wl = snap.keep("distribution", list(rng.random(5))), snap.keep("distribution", rng.random(5))
    a2 = snap.keep("matrix", rng.normal(size=(m, m)) * 1j)
    assign = snap.keep("assignment", [int(v) for v in rng.integers(0, m, size=n)])
    lossy_net = sut.LossyNetworkSimulationStrategy(a)
    lossless_net = sut.LosslessNetworkSimulationStrategy(a)
    amps = snap.keep("amplitudes", rng.normal(size=m) + 1j * rng.normal(size=m))
    scatter = sut.bsu.EffectiveScatteringMatrixCalculator(a, state, state)
    calls = {
        "count_total_variation_distance_dicts": lambda: qcu.count_total_variation_distance_dicts(q, w),
        "count_total_variation_distance": lambda: qcu.count_total_variation_distance(ql, wl),
        "count_distance_between_matrices": lambda: qcu.count_distance_between_matrices(a, a2),
        "compute_qft_matrix": lambda: qcu.compute_qft_matrix(m),
        "get_prime_factors": lambda: qcu.get_prime_factors(12 * n),
        "mode_assignment_to_mode_occupation": lambda: b.mode_assignment_to_mode_occupation(assign, m),
        "lossy network": lambda: lossy_net.simulate(amps),
        "lossless network": lambda: lossless_net.simulate(amps),
        "effective scattering matrix": lambda: scatter.calculate(),
        "generate_possible_states": lambda: b.generate_possible_states(n, m),
        "generate_possible_states(losses)": lambda: b.generate_possible_states(n, m, True),
        "generate_state_types": lambda: b.generate_state_types(m, n),
        "generate_lossy_n_particle_input_states": lambda: b.generate_lossy_n_particle_input_states(state, n - 1),
        "mode_occupation_to_mode_assignment": lambda: b.mode_occupation_to_mode_assignment(state),
        "bosonic_space_dimension": lambda: b.bosonic_space_dimension(n, m, True),
        "generate_qft_matrix_for_first_m_modes": lambda: b.generate_qft_matrix_for_first_m_modes(m - 1, m),
        "prepare_interferometer_matrix_in_expanded_space":
            lambda: b.prepare_interferometer_matrix_in_expanded_space(a),
        "get_modes_transmissivity_values_from_matrix": lambda: b.get_modes_transmissivity_values_from_matrix(a),
    }
    for name, f in calls.items():
        with mon.code(name):
            x = f()
            keep = copy.deepcopy(x)
            if isinstance(x, list):
                x.reverse()
                x.append(None)
                mon.count("returned_values_spoiled")
            elif isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 7
                mon.count("returned_values_spoiled")
            y = f()
        same = np.allclose(keep, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else Snapshots.same(keep, y)
        mon.check(same, "history:" + name, "%s: a second call returned %r instead of %r after the caller changed "
                  "the first result" % (name, y, keep))
        snap.compare()
    mon.see("nontrivial", [m, n, case["s"]])
