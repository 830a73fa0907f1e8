"""C27: repeating requests, or making and dropping objects, does not accumulate memory, processes,
threads or open files."""
import gc
import os
import threading
import time
import tracemalloc

import numpy as np

from vlib import crash, gen, sut, zoo

PROPERTY = "C27"
INPROC = tuple(k for k in zoo.KINDS if k not in zoo.WORKERS)
UTILITIES = ("states", "types", "lossy inputs", "counts", "conversions", "distances", "dilation", "matrices")
REQUIRED = tuple("repeated:" + k for k in zoo.KINDS + UTILITIES) + tuple("dropped:" + k for k in INPROC) + (
    "memory_measurements", "resource_measurements", "large_requests")
RULE = (
    "the same few requests are repeated on one object of every kind (or on new objects that are dropped), and the memory "
    "still held is measured with tracemalloc at four points; growth in all three intervals of more than 30 bytes per "
    "request, confirmed by a second, longer run, is a violation; processes, threads and open files have to be the same "
    "before and after; non-trivial: at least 100 requests were measured; distinct by kind and experiment"
)
ASSUMPTIONS = ("memory held for a bounded number of different experiments is not accumulation",)
CASE_TIMEOUT = 90
TIMER = "real"
BUDGET = {"quick": 300, "thorough": 2400}
PER_CALL = 30


def cases(rng, tier):
    k = 1 if tier == "quick" else 10
    out = []
    for kind in INPROC:
        for j in range(2 * k):
            out.append({"k": "repeat", "kind": kind})
            out.append({"k": "drop", "kind": kind})
    for kind in UTILITIES:
        for j in range(k):
            out.append({"k": "utility", "kind": kind})
    for kind in zoo.INPROC:
        for j in range(k):
            out.append({"k": "large", "kind": kind})
    for j in range(2 * k):
        for kind in zoo.WORKERS:
            out.append({"k": "workers", "kind": kind})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))


def _held():
    gc.collect()
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def _growth(mon, what, once, n):
    """Held memory after each of three intervals of n requests, minus that before."""
    for _ in range(20):
        once()
    marks = [_held()]
    for _ in range(3):
        for _ in range(n):
            once()
        marks.append(_held())
        mon.count("memory_measurements")
    return [b - a for a, b in zip(marks, marks[1:])]


def _watch(case, mon, what, once):
    files, threads, procs = _open_files(), threading.active_count(), crash.children()
    tracemalloc.start()
    try:
        with mon.code(what):
            for n in (40, 160, 320):
                g = _growth(mon, what, once, n)
                if not all(d > PER_CALL * n for d in g):
                    break
    finally:
        tracemalloc.stop()
    mon.check(not all(d > PER_CALL * n for d in g), "memory:" + what,
              "%s holds %s more bytes after every %d requests" % (what, g, n))
    _resources(mon, what, files, threads, procs)
    mon.see("nontrivial", [what, case["k"], case["seed"]])
    mon.sample({"what": what, "way": case["k"], "requests_per_interval": n, "bytes_kept_in_intervals": g})


def _open_files():
    return len(os.listdir("/proc/self/fd"))


def _resources(mon, what, files, threads, procs):
    deadline = time.time() + 10
    while time.time() < deadline and (_open_files() > files or threading.active_count() > threads or crash.children(procs)):
        gc.collect()
        time.sleep(.05)
    mon.count("resource_measurements")
    mon.check(_open_files() <= files, "files:" + what, "%s leaves %d open files more" % (what, _open_files() - files))
    mon.check(threading.active_count() <= threads, "threads:" + what, "%s leaves threads: %s" % (what, threading.enumerate()))
    mon.check(not crash.children(procs), "processes:" + what, "%s leaves %d processes" % (what, len(crash.children(procs))))


def _repeat(case, mon, rng):
    kind = case["kind"]
    with mon.code("construct " + kind):
        t = zoo.make(kind, rng, m=int(rng.integers(2, 4)))
    _watch(case, mon, kind, lambda: t.ask(t.obj))
    with mon.code(kind):
        got = t.ask(t.obj)
    t.judge(mon, got, "after many requests")
    mon.count("repeated:" + kind)


def _drop(case, mon, rng):
    kind = case["kind"]
    m, seed = int(rng.integers(2, 4)), int(rng.integers(1 << 30))
    calc = str(rng.choice(["classic", "glynn", "chinhuh", "ryser"]))

    def once():
        t = zoo.make(kind, np.random.default_rng(seed), m=m, calc=calc)
        t.ask(t.obj)

    _watch(case, mon, kind, once)
    mon.count("dropped:" + kind)


def _large(case, mon, rng):
    """Memory after many samples were drawn and dropped: nothing is kept per sample."""
    who = case["kind"]
    m = 2
    u = gen.build_matrix({"t": "haar", "m": m, "s": int(rng.integers(1 << 30))})
    with mon.code("construct " + who):
        s = sut.sampler(who, u, [1, 1], "ryser", eta=.7, left=2)
    _watch(case, mon, who, lambda: s.simulate([1, 1], 12))
    mon.count("large_requests")


def _workers(case, mon, rng):
    kind = case["kind"]
    from multiprocessing import resource_tracker

    resource_tracker.ensure_running()
    with mon.code("construct " + kind):
        t = zoo.make(kind, rng, m=2)
    with mon.code(kind):
        t.ask(t.obj)
        files, threads, procs = _open_files(), threading.active_count(), crash.children()
        for _ in range(3):
            got = t.ask(t.obj)
    t.judge(mon, got, "after several requests")
    _resources(mon, kind, files, threads, procs)
    mon.count("repeated:" + kind)


def _utility(case, mon, rng):
    kind = case["kind"]
    from theboss import quantum_computations_utilities as qcu

    b = sut.bsu
    asks = []
    for _ in range(4):
        n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        asks.append((n, m, gen.random_state(rng, n, m), gen.build_matrix({"t": "haar", "m": m, "s": int(rng.integers(1 << 30))}),
                     dict(enumerate(rng.dirichlet([1] * m))), list(rng.dirichlet([1] * n))))
    calls = {
        "states": lambda n, m, s, u, d, e: b.generate_possible_states(n, m, losses=True),
        "types": lambda n, m, s, u, d, e: b.generate_state_types(m, n, losses=True),
        "lossy inputs": lambda n, m, s, u, d, e: b.generate_lossy_n_particle_input_states(list(s), n - 1),
        "counts": lambda n, m, s, u, d, e: (b.bosonic_space_dimension(n, m, True), b.compute_number_of_state_types(m, n),
                                            b.compute_number_of_states_of_given_type(list(s)), qcu.get_prime_factors(12 * n)),
        "conversions": lambda n, m, s, u, d, e: b.mode_assignment_to_mode_occupation(
            b.mode_occupation_to_mode_assignment(list(s)), m),
        "distances": lambda n, m, s, u, d, e: (qcu.count_total_variation_distance_dicts(d, dict(enumerate(e))),
                                               qcu.count_total_variation_distance(e, e[::-1]),
                                               qcu.count_distance_between_matrices(u, u.T)),
        "dilation": lambda n, m, s, u, d, e: b.prepare_interferometer_matrix_in_expanded_space(u * .8),
        "matrices": lambda n, m, s, u, d, e: (qcu.compute_qft_matrix(m), b.generate_qft_matrix_for_first_m_modes(m - 1, m),
                                              b.generate_random_phases_matrix_for_first_m_modes(m - 1, m),
                                              b.get_modes_transmissivity_values_from_matrix(u)),
    }
    at = [0]

    def once():
        at[0] += 1
        calls[kind](*asks[at[0] % 4])

    _watch(case, mon, kind, once)
    mon.count("repeated:" + kind)
