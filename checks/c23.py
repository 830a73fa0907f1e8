"""C23: requests that fail or are interrupted are reported and leave nothing behind."""
import os
import signal
import tempfile
import threading
import time
from multiprocessing import resource_tracker

import numpy as np

from checks.c15 import Snapshots, _reference, image
from vlib import crash, gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C23"
INPROC = tuple(w for w in sut.SAMPLERS if not sut.SAMPLERS[w][0])
SETTABLE = ("gcc_a", "gcc_ma", "gcc_b", "gcc_a_ul", "gcc_b_ul", "lossynet")
REQUIRED = tuple("struck:" + w for w in sut.SAMPLERS) + (
    "struck:fixed calculator", "struck:uniform calculator", "struck:sample-based calculator", "struck:permanent",
    "struck:submatrices", "struck:factory", "struck:accuracy", "killed_workers", "calls_without_leftovers",
    "asked_again", "interrupts", "failures")
RULE = (
    "a request is made to fail at a random line of the code (as an interrupt or an error), workers of parallel "
    "requests are killed at random times or fail at a random line of theirs; the call has to raise (or, if the fault "
    "came too late, return what it should), may not hang, no worker process may stay, arguments stay untouched, and the "
    "same object has to answer correctly when asked again (certain outcomes one by one, staged chi-square, exact "
    "values); non-trivial: a fault that struck; distinct by the place where it did"
)
ASSUMPTIONS = ("a worker of the uniform-loss calculator is not killed: multiprocessing.Pool cannot notice",)
CALC = ("classic", "glynn", "chinhuh", "ryser")
CASE_TIMEOUT = 90
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for j in range(96 * k):
        who = INPROC[j % len(INPROC)]
        out.append({"k": "certain", "who": who, "m": int(rng.integers(2, 6 if j % 3 else 8)), "calc": str(rng.choice(CALC)), "rounds": 14})
    for j in range(24 * k):
        who = INPROC[j % len(INPROC)]
        m = int(rng.choice([2, 3]))
        out.append({"k": "fit", "who": who, "m": m, "calc": str(rng.choice(CALC)), "s": int(rng.integers(1 << 30)),
                    "eta": round(float(rng.uniform(.3, .95)), 3), "in": gen.random_state(rng, int(rng.integers(2, 4)), m)})
    for j in range(100 * k):
        m = int(rng.integers(2, 4 if j % 4 else 6))
        out.append({"k": "calculator", "which": ("fixed", "fixed", "sample", "fixed", "uniform")[j % 5], "m": m,
                    "mat": gen.random_unitary_spec(rng, m), "in": gen.random_state(rng, int(rng.integers(1, 4)), m),
                    "eta": round(float(rng.random()), 3), "calc": str(rng.choice(CALC)), "rounds": 3 if j % 5 == 4 else 8})
    for j in range(80 * k):
        out.append({"k": "permanent" if j % 2 else "submatrices", "m": int(rng.integers(1, 5 if j % 3 else 8)), "rounds": 12,
                    "calc": str(rng.choice(CALC)) if j % 2 else str(rng.choice(list(sut.SUB)))})
    for j in range(16 * k):
        out.append({"k": "accuracy", "m": 2 + j % 2, "rounds": 6, "calc": str(rng.choice(CALC)),
                    "eta": round(float(rng.uniform(.2, .95)), 3), "s": int(rng.integers(1 << 30))})
    for j in range(16 * k):
        out.append({"k": "factory", "m": 3, "rounds": 8})
    for j in range(28 * k):
        out.append({"k": "workers", "who": ("bobs", "ubobs")[j % 2], "m": int(rng.integers(2, 5)),
                    "how": ("kill", "kill", "raise", "here")[j // 2 % 4], "threads": int(rng.choice([1, 2, 3, 8])),
                    "delay": float(rng.choice([0, .1, .2, .4, .6, .8, 1.0, 1.3, 2.5])), "all": bool(rng.random() < .4),
                    "n": int(rng.choice([4, 9, 400, 900]))})
    return out


def run_case(case, mon):
    before = crash.children()
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))
    left = crash.children(before)
    deadline = time.time() + 15
    while left and time.time() < deadline:
        time.sleep(.05)
        left = crash.children(before)
    mon.check(not left, "leftover-processes", "%d worker processes are still there after the calls ended (%s)"
              % (len(left), {k: v for k, v in case.items() if k in ("k", "who", "how", "which")}))
    mon.count("calls_without_leftovers")


def _strike(mon, rng, label, fn, total=None, everywhere=False):
    """Lets fn() fail at one of its first `total` lines (counted beforehand by the caller)."""
    target = int(rng.integers(0, max(1, total)))
    if everywhere:  # forked workers go on counting where this process was
        target = total + int(rng.integers(0, 80))
    error = crash.FAILURES[int(rng.integers(len(crash.FAILURES)))]
    if rng.random() < .4 and not everywhere:
        error = crash.Interrupt
    with mon.code(label):
        failed, got, where = crash.strike(fn, target, error, everywhere)
    if failed:
        mon.count("struck:" + label)
        mon.count("interrupts" if error is crash.Interrupt else "failures")
        mon.count("raised:" + error.__name__)
        mon.see("nontrivial", [label, where])
        mon.see("crash_points", [label, where])
        mon.sample({"request": label, "failed_at": where, "as": error.__name__})
    else:
        mon.count("too_late:" + label)
    return failed, got


def _certain(case, mon, rng):
    who, m = case["who"], case["m"]
    single = who in ("fixed", "uniform")

    def matrix():
        return gen.build_matrix({"t": "phaseperm", "m": m, "s": int(rng.integers(1 << 30))})

    def some():
        return gen.random_state(rng, int(rng.integers(1, 4 if m < 5 else 6)), m, "bunch1" if single else None)

    u = matrix()
    left = 2
    pc = None if single else sut.PERM[case["calc"]](u, some(), some())
    with mon.code("construct " + who):
        s = sut.sampler(who, u, some(), eta=1.0, left=left, pc=pc)
    first = some()
    with mon.code(who):
        total = crash.lines(lambda: s.simulate(list(first), 2))
    for step in range(case["rounds"]):
        snap = Snapshots(mon, who)
        a, b = some(), some()
        form = snap.keep("input", gen.as_state(a, "array" if step % 2 else "list"))
        count = int(rng.integers(1, 4))
        change = who in SETTABLE and rng.random() < .35
        if change:
            u = matrix()
            failed, _ = _strike(mon, rng, who, lambda: s.set_new_matrix(u), 20)
            if failed:
                with mon.code(who):
                    s.set_new_matrix(u)
        snap.keep("matrix", u)
        failed, got = _strike(mon, rng, who, lambda: s.simulate(form, count), total)
        if not failed:
            mon.check(len(got) == count, "samples-number:" + who, "%d samples instead of %d" % (len(got), count))
            deterministic(mon, who, got, [left * bool(v) for v in image(u, a)] if who == "fixed" else image(u, a),
                          "input %s" % a)
        snap.compare()
        if rng.random() < .3:
            continue  # several faults in a row
        with mon.code(who + " after a fault"):
            got = s.simulate(list(b), 2)
        mon.count("asked_again")
        mon.check(len(got) == 2, "samples-number:" + who, "%d samples instead of 2" % len(got))
        deterministic(mon, who, got, [left * bool(v) for v in image(u, b)] if who == "fixed" else image(u, b),
                      "input %s, after a fault" % b)


def _fit(case, mon, rng):
    who, m, i = case["who"], case["m"], case["in"]
    if who == "lossynet":
        u = gen.build_matrix({"t": "lossy", "m": m, "s": case["s"], "eta": [.9, .5, .7][:m]})
    else:
        u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    r = _reference(who, u, i, case["eta"], 2)
    with mon.code("construct " + who):
        s = sut.sampler(who, u, i, case["calc"], eta=case["eta"], left=2)
        total = crash.lines(lambda: s.simulate(list(i), 2))

    def draw(k):
        got = []
        while len(got) < k:
            other = gen.random_state(rng, int(rng.integers(1, 4)), m)
            ask = i if rng.random() < .5 else other
            failed, more = _strike(mon, rng, who, lambda: s.simulate(list(ask), 2), total)
            got += s.simulate(list(i), min(100, k - len(got)))
            mon.count("asked_again")
        return got

    monitored(mon, who, draw, r, m, 1200, ctx="input %s, interrupted requests in between" % i, key="after-faults")


def _calculator(case, mon, rng):
    m, i, which = case["m"], case["in"], case["which"]
    u = gen.build_matrix(case["mat"])
    n = sum(i)
    left = int(rng.integers(0, n + 1))
    conf = sut.config(u, list(i), left, case["eta"])
    pc = sut.PERM[case["calc"]](u, list(i), list(i))
    label = {"fixed": "fixed calculator", "uniform": "uniform calculator", "sample": "sample-based calculator"}[which]
    snap = Snapshots(mon, label)
    snap.keep("configuration", conf)
    with mon.code("construct " + label):
        if which == "fixed":
            c = sut.BSDistributionCalculatorWithFixedLosses(conf, pc)
            want = ref.fixed_loss_distribution(u, i, left)
        elif which == "uniform":
            c = sut.BSDistributionCalculatorWithUniformLosses(conf, pc)
            want = ref.uniform_loss_distribution(u, i, case["eta"])
        else:
            s = sut.sampler("gcc_a_ul", u, i, case["calc"], eta=1.0)
            conf.number_of_particles_left, conf.number_of_particles_lost = n, 0
            snap = Snapshots(mon, label)
            snap.keep("configuration", conf)
            asked = []

            class Recorder:
                def simulate(self, state, k=1):
                    got = s.simulate(state, k)
                    asked.append(got)
                    return got

            c = sut.BSSampleBasedDistributionCalculator(conf, Recorder(), 20)
            want = None
        total = crash.lines(c.calculate_distribution)
    for step in range(case["rounds"]):
        where = which == "uniform" and step % 2 == 1
        if which == "uniform" and step == 0:
            _strike(mon, rng, label, lambda: c.set_weightless(True), 12)
            with mon.code(label):
                c.set_weightless(False)
        failed, got = _strike(mon, rng, label, c.calculate_distribution, total, where)
        results = [] if failed else [got]
        if which == "sample" and results:
            _frequencies(mon, label, c, asked[-1], got)
        if which == "sample":
            asked.clear()
        with mon.code(label + " after a fault"):
            got = c.calculate_distribution()
            order = c.get_outcomes_in_proper_order()
        if which == "sample":
            drawn = [t for a in asked for t in a]
            mon.check(len(drawn) == 20, "samples-number", "%d samples were drawn" % len(drawn))
            _frequencies(mon, label, c, drawn, got)
        else:
            results.append(got)
        mon.count("asked_again")
        for g in results if which != "sample" else []:
            mon.check(len(g) == len(order), "length:" + which, "%d probabilities of %d outcomes" % (len(g), len(order)))
            for t, p in zip(order, g):
                w = want.get(tuple(int(v) for v in t), 0)
                mon.check(abs(p - w) < 1e-9, "probability:" + which, "outcome %s has probability %r instead of %r "
                          "(input %s, after a fault)" % (t, p, w, i))
        snap.compare()


def _frequencies(mon, label, c, drawn, got):
    drawn = sut.loose(drawn)
    for t, p in zip(c.get_outcomes_in_proper_order(), got):
        k = drawn.count(tuple(int(v) for v in t))
        mon.check(abs(p - k / len(drawn)) < 1e-12, "frequency", "%s was drawn %d times of %d, reported %r"
                  % (t, k, len(drawn), p))


def _permanent(case, mon, rng):
    m = case["m"]
    c = None
    for step in range(case["rounds"]):
        n = int(rng.integers(0, 5 if m < 5 or case["calc"] == "classic" else 8))
        a = gen.build_matrix({"t": "ginibre", "m": m, "s": int(rng.integers(1 << 30))})
        i, o = gen.random_state(rng, n, m), gen.random_state(rng, n, m)
        with mon.code("permanent"):
            if c is None:
                c = sut.PERM[case["calc"]](a, i, o)
                total = 150
            c.matrix, c.input_state, c.output_state = a, i, o
        failed, got = _strike(mon, rng, "permanent", c.compute_permanent, total)
        results = [] if failed else [got]
        with mon.code("permanent after a fault"):
            results.append(c.compute_permanent())
            total = crash.lines(c.compute_permanent)
        want = ref.permanents_from_input(a, i).get(tuple(o), 0)
        for g in results:
            mon.check(abs(g - want) <= 1e-9 * (1 + ref.permanent_scale(a, i, o)), "permanent:" + case["calc"],
                      "%r instead of %r (input %s, output %s, after a fault)" % (g, want, i, o))
        mon.count("asked_again")


def _submatrices(case, mon, rng):
    m = case["m"]
    c = None
    total = 150
    for step in range(case["rounds"]):
        n = int(rng.integers(1, 5 if m < 5 else 8))
        a = gen.build_matrix({"t": "ginibre", "m": m, "s": int(rng.integers(1 << 30))})
        i, o = gen.random_state(rng, n, m), gen.random_state(rng, n - 1, m)
        with mon.code("submatrices"):
            if c is None:
                c = sut.SUB[case["calc"]](a, i, o)
            c.matrix, c.input_state, c.output_state = a, i, o
        failed, got = _strike(mon, rng, "submatrices", c.compute_permanents, total)
        results = [] if failed else [list(got)]
        with mon.code("submatrices after a fault"):
            results.append(list(c.compute_permanents()))
            total = crash.lines(c.compute_permanents)
        for got in results:
            for j in range(m):
                if not i[j]:
                    continue
                less = list(i)
                less[j] -= 1
                want = ref.permanents_from_input(a, less).get(tuple(o), 0)
                mon.check(abs(got[j] - want) <= 1e-9 * (1 + ref.permanent_scale(a, less, o)), "submatrices:" + case["calc"],
                          "mode %d: %r instead of %r (input %s, output %s, after a fault)" % (j, got[j], want, i, o))
        mon.count("asked_again")


def _accuracy(case, mon, rng):
    m = case["m"]
    i = [1] * m
    u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    want = ref.uniform_loss_distribution(u, i, case["eta"])
    with mon.code("construct gcc_a_ul"):
        s = sut.sampler("gcc_a_ul", u, i, case["calc"], eta=case["eta"])
        total = crash.lines(lambda: s.compute_distribution_up_to_accuracy(list(i), .9))
    for step in range(case["rounds"]):
        _strike(mon, rng, "accuracy", lambda: s.compute_distribution_up_to_accuracy(list(i), .9), total)
        with mon.code("accuracy after a fault"):
            got = [float(p) for p in s.compute_distribution_up_to_accuracy(list(i), .9)]
        mon.count("asked_again")
        mon.check(len(got) == len(want), "accuracy-length", "%d entries instead of %d" % (len(got), len(want)))
        mon.check(sum(got) >= .9 - 1e-9, "accuracy-covered", "only %r is covered after a fault" % sum(got))
        free = sorted(want.values())
        for p in got:  # every entry is a probability of an outcome, each outcome at most once
            if p <= 1e-12:
                continue
            hit = min(range(len(free)), key=lambda q: abs(free[q] - p)) if free else None
            mon.check(hit is not None and abs(free[hit] - p) < 1e-9, "accuracy-value",
                      "%r is not the probability of an outcome (after a fault)" % p)
            free.pop(hit)


def _factory(case, mon, rng):
    m = case["m"]
    u = gen.build_matrix({"t": "phaseperm", "m": m, "s": case["seed"]})
    i = [1] + [0] * (m - 1)
    conf = sut.config(u, list(i), 1, 1.0, hierarchy=m)
    types = [sut.StrategyType[t] for t in ("FIXED_LOSS", "UNIFORM_LOSS", "GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC")]
    with mon.code("construct factory"):
        f = sut.SimulationStrategyFactory(conf, sut.PERM["ryser"](u, i, i), types[0])
    for step in range(case["rounds"]):
        f.strategy_type = types[int(rng.integers(len(types)))]
        _strike(mon, rng, "factory", f.generate_strategy, 14)
        with mon.code("factory after a fault"):
            got = f.generate_strategy().simulate(list(i), 3)
        mon.count("asked_again")
        deterministic(mon, "factory", got, image(u, i), "product after a fault, %s" % f.strategy_type)


class _Killer(threading.Thread):
    """Kills worker processes of this process some time after they appear."""

    def __init__(self, delay, everyone):
        super().__init__(daemon=True)
        self.delay, self.everyone, self.done, self.killed = delay, everyone, threading.Event(), 0
        self.before = crash.children()

    def run(self):
        while not self.done.is_set():
            new = crash.children(self.before)
            if new:
                self.done.wait(self.delay)
                new = sorted(crash.children(self.before))
                for p in new if self.everyone else new[-1:]:
                    if not self.done.is_set():
                        try:
                            os.kill(p, signal.SIGKILL)
                            self.killed += 1
                        except OSError:
                            pass
                if new:
                    return
            time.sleep(.002)


def _workers(case, mon, rng):
    resource_tracker.ensure_running()  # not one of the processes to be killed
    who, m, how = case["who"], case["m"], case["how"]
    u = gen.build_matrix({"t": "phaseperm", "m": m, "s": case["seed"]})
    i = gen.random_state(rng, 3, m)
    with mon.code("construct " + who):
        s = sut.sampler(who, u, i, "ryser", eta=1.0, h=m, approx=0, threads=case["threads"])
    count = case["n"]
    want = image(u, i)
    got, raised = None, None
    if how == "here":
        failed, got = _strike(mon, rng, who, lambda: s.simulate(list(i), count), 60)
        raised = failed
    elif how == "raise":
        raised, got = _raising_workers(case, mon, rng, who, s, i, count)
    else:
        k = _Killer(case["delay"], case["all"])
        k.start()
        try:
            mon.depth += 1
            try:
                got = s.simulate(list(i), count)
            except Exception as e:
                raised = e
            finally:
                mon.depth -= 1
        finally:
            k.done.set()
            k.join(5)
        mon.count("killed_workers", k.killed)
        if raised is not None and not k.killed:
            mon.violation("exception:" + who, "%r although no worker was killed" % raised)
        if raised is not None:
            mon.count("struck:" + who)
            mon.count("failures")
            mon.see("nontrivial", [who, how, case["seed"]])
    if not raised:
        mon.count("too_late:" + who)
        mon.check(len(got) == count, "incomplete:" + who, "%d outcomes instead of %d although a worker failed (%s)"
                  % (len(got), count, how))
        deterministic(mon, who, got, want, "input %s" % i)
    with mon.code(who + " after a fault"):
        got = s.simulate(list(i), 5)
    mon.count("asked_again")
    mon.check(len(got) == 5, "samples-number:" + who, "%d outcomes instead of 5 after a fault" % len(got))
    deterministic(mon, who, got, want, "input %s, after a fault" % i)


def _raising_workers(case, mon, rng, who, s, i, count):
    fd, log = tempfile.mkstemp(prefix="verif-fault-")
    os.close(fd)
    names = ("PYTHONPATH", "VERIF_FAULT", "VERIF_FAULT_LOG", "VERIF_FAULT_ROOT", "VERIF_FAULT_KIND")
    old = {k: os.environ.get(k) for k in names}
    # the first few hundred lines are those of the imports
    target = int(rng.choice([int(rng.integers(0, 300)), int(rng.integers(300, 3000))], p=[.2, .8]))
    os.environ.update(PYTHONPATH=os.path.join(HERE, "inject") + os.pathsep + (old["PYTHONPATH"] or ""),
                      VERIF_FAULT=str(target), VERIF_FAULT_LOG=log, VERIF_FAULT_ROOT=crash._root(),
                      VERIF_FAULT_KIND=str(int(rng.integers(len(crash.FAILURES)))))
    raised = got = None
    try:
        mon.depth += 1
        try:
            got = s.simulate(list(i), count)
        except Exception as e:
            raised = e
        finally:
            mon.depth -= 1
        with open(log) as f:
            struck = len(f.readlines())
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        os.remove(log)
    mon.count("failing_workers", struck)
    if raised is not None and not struck:
        mon.violation("exception:" + who, "%r although no worker failed" % raised)
    if struck:
        mon.check(raised is not None or len(got) == count, "hidden-failure:" + who,
                  "%d workers failed, the request returned %r outcomes" % (struck, got and len(got)))
    if raised is not None:
        mon.count("struck:" + who)
        mon.count("failures")
        mon.see("nontrivial", [who, "raise", target])
    return raised, got
