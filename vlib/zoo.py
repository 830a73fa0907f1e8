"""One of everything: objects of the code under test together with a request and what it has to
return, for checks that are about objects in general (copies, resources)."""
import numpy as np

from vlib import gen, ref, sut

SAMPLERS = tuple(sut.SAMPLERS)
INPROC = tuple(w for w in SAMPLERS if not sut.SAMPLERS[w][0])
KINDS = SAMPLERS + ("fixed calculator", "uniform calculator", "sample-based calculator", "classic", "glynn", "chinhuh",
                    "ryser", "sub_ryser", "sub_chinhuh", "factory", "permanent factory", "simulator", "scattering",
                    "lossy network", "lossless network", "accuracy")
WORKERS = ("bobs", "ubobs", "uniform calculator")


def image(u, s):
    want = [0] * len(s)
    for c, v in enumerate(s):
        want[int(np.argmax(np.abs(u[:, c])))] += v
    return want


class Thing:
    """obj: the object; ask(obj): makes the request; judge(mon, answer, ctx): compares;
    alter(obj): changes the settings of obj in place (or None)."""

    def __init__(self, kind, obj, ask, judge, alter=None):
        self.kind, self.obj, self.ask, self.judge, self.alter = kind, obj, ask, judge, alter


def make(kind, rng, m=None, calc=None):
    if m is None:
        m = int(rng.integers(2, 5))
        if rng.random() < .25 and kind not in WORKERS:
            m = int(rng.integers(5, 8))
    top = 4 if m < 5 else 6  # more particles than top - 1 are not used
    calc = str(rng.choice(["classic", "glynn", "chinhuh", "ryser"])) if calc is None else calc

    def seed():
        return int(rng.integers(1 << 30))

    def phases():
        return gen.build_matrix({"t": "phaseperm", "m": m, "s": seed()})

    def haar():
        return gen.build_matrix({"t": "haar", "m": m, "s": seed()})

    def values(want, tol=1e-9):
        def judge(mon, got, ctx):
            ok = np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=0, atol=tol)
            mon.check(ok, "answer:" + kind, "%s answered %r instead of %r (%s)" % (kind, got, want, ctx))
        return judge

    def certain(want, count=2):
        def judge(mon, got, ctx):
            mon.check(sut.loose(got) == [tuple(want)] * count, "answer:" + kind,
                      "%s returned %s, the only possible outcome is %s (%d requested; %s)" % (kind, got, want, count, ctx))
        return judge

    if kind in SAMPLERS or kind in ("factory", "simulator"):
        single = kind in ("fixed", "uniform")
        u, v = phases(), phases()
        a = gen.random_state(rng, int(rng.integers(1, top)), m, "bunch1" if single else None)
        want = image(u, a) if kind != "fixed" else [2 * bool(x) for x in image(u, a)]
        if kind == "factory":
            t = sut.StrategyType[str(rng.choice(["GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC"]))]
            f = sut.SimulationStrategyFactory(sut.config(u, list(a), None, 1.0), sut.PERM[calc](u, list(a), list(a)), t)

            def alter(x):
                x.strategy_type = sut.StrategyType.FIXED_LOSS
                x.bs_permanent_calculator = sut.PERM[calc](v, list(a), list(a))
            return Thing(kind, f, lambda x: x.generate_strategy().simulate(list(a), 2), certain(want), alter)
        if kind == "simulator":
            s = sut.BosonSamplingSimulator(sut.sampler("gcc_b", u, a, calc))
            return Thing(kind, s, lambda x: x.get_classical_simulation_results(list(a), 2), certain(want))
        s = sut.sampler(kind, u, a, calc, eta=1.0, left=2, h=m, approx=0, threads=2)
        alter = None
        if hasattr(s, "set_new_matrix"):
            def alter(x):
                x.set_new_matrix(v)
                if kind not in WORKERS:
                    x.simulate([1] + [0] * (m - 1), 1)
        elif kind == "uniform":
            def alter(x):
                x.transmissivity = 0.0
                x.simulate([1] + [0] * (m - 1), 1)
        elif kind == "fixed":
            def alter(x):
                x.number_of_photons_left = 5
                x.simulate([1] + [0] * (m - 1), 1)
        return Thing(kind, s, lambda x: x.simulate(list(a), 2), certain(want), alter)
    if kind in sut.PERM or kind in sut.SUB or kind in ("permanent factory", "scattering"):
        n = int(rng.integers(1, top + 1))
        a = gen.build_matrix({"t": "ginibre", "m": m, "s": seed()})
        b = gen.build_matrix({"t": "ginibre", "m": m, "s": seed()})
        i = gen.random_state(rng, n, m)
        o = gen.random_state(rng, n - (kind in sut.SUB), m)

        def alter(x):
            x.matrix = b
            x.input_state = [1] + [0] * (m - 1)
            x.output_state = [1] + [0] * (m - 1)
        if kind == "scattering":
            rows, cols = ([q for q, v in enumerate(s) for _ in range(v)] for s in (o, i))
            return Thing(kind, sut.bsu.EffectiveScatteringMatrixCalculator(a, list(i), list(o)),
                         lambda x: np.array(x.calculate()), values(a[np.ix_(rows, cols)]), alter)
        if kind in sut.SUB:
            want = {}
            for q in range(m):
                if i[q]:
                    less = list(i)
                    less[q] -= 1
                    want[q] = ref.permanents_from_input(a, less).get(tuple(o), 0), ref.permanent_scale(a, less, o)

            def judge(mon, got, ctx):
                mon.check(len(got) == m and all(abs(got[q] - w) <= 1e-9 * (1 + s) for q, (w, s) in want.items()),
                          "answer:" + kind, "%s answered %r instead of %r (%s)" % (kind, got, want, ctx))
            return Thing(kind, sut.SUB[kind](a, list(i), list(o)), lambda x: list(x.compute_permanents()), judge, alter)
        want = ref.permanents_from_input(a, i).get(tuple(o), 0)
        judge = values(want, 1e-9 * (1 + ref.permanent_scale(a, i, o)))
        if kind == "permanent factory":
            f = sut.BSPermanentCalculatorFactory(a, list(i), list(o), sut.PermanentCalculatorType.RYSER)

            def alter(x):
                x.matrix = b
            return Thing(kind, f, lambda x: x.generate_calculator().compute_permanent(), judge, alter)
        return Thing(kind, sut.PERM[kind](a, list(i), list(o)), lambda x: x.compute_permanent(), judge, alter)
    if kind in ("fixed calculator", "uniform calculator", "sample-based calculator", "accuracy"):
        i = gen.random_state(rng, int(rng.integers(1, 4 if kind == "accuracy" and m > 5 else top)), m)
        u, v = haar(), haar()
        n, eta = sum(i), round(float(rng.uniform(.2, .9)), 3)
        left = int(rng.integers(0, n + 1))
        pc = sut.PERM[calc](u, list(i), list(i))
        if kind == "accuracy":
            s = sut.sampler("gcc_a_ul", u, i, eta=eta, pc=pc)
            want = sorted(ref.uniform_loss_distribution(u, i, eta).values())
            hole = -int(rng.integers(2))
            acc = float(rng.choice([.8, .3, 1.0 if n <= 2 and m <= 3 else .6]))
            if hole:
                s.missing_values_in_distribution = True

            def judge(mon, got, ctx):
                free = list(want)
                mon.check(len(got) == len(want) and sum(p for p in got if p > 0) >= acc - 1e-9, "answer:" + kind,
                          "%r (%s)" % (got, ctx))
                mon.check(all(p == hole for p in got if p < 1e-12) or want[0] < 1e-9, "answer:" + kind,
                          "missing values are not marked by %d: %r (%s)" % (hole, got, ctx))
                for p in got:
                    if p > 1e-12:
                        hit = min(range(len(free)), key=lambda q: abs(free[q] - p)) if free else None
                        mon.check(hit is not None and abs(free[hit] - p) < 1e-9, "answer:" + kind,
                                  "%r is not one of the probabilities %r (%s)" % (p, want, ctx))
                        free.pop(hit)
            return Thing(kind, s, lambda x: [float(p) for p in x.compute_distribution_up_to_accuracy(list(i), acc)], judge,
                         lambda x: x.set_new_matrix(v))
        conf = sut.config(u, list(i), left, eta)
        if kind == "sample-based calculator":
            u = phases()
            conf = sut.config(u, list(i), n, 1.0)
            c = sut.BSSampleBasedDistributionCalculator(conf, sut.sampler("gcc_b", u, i, calc), 7)
            want = {tuple(image(u, i)): 1.0}
        elif kind == "fixed calculator":
            c, want = sut.BSDistributionCalculatorWithFixedLosses(conf, pc), ref.fixed_loss_distribution(u, i, left)
        else:
            c, want = sut.BSDistributionCalculatorWithUniformLosses(conf, pc), ref.uniform_loss_distribution(u, i, eta)
            if rng.integers(2):
                c.set_weightless(True)
                want = {}
                for k in range(n + 1):
                    want.update(ref.fixed_loss_distribution(u, i, k))
        total = sum(want.values())

        def judge(mon, got, ctx):
            order, ps = got
            mon.check(len(order) == len(ps) and abs(sum(ps) - total) < 1e-9, "answer:" + kind, "%r (%s)" % (got, ctx))
            for t, p in zip(order, ps):
                w = want.get(tuple(int(q) for q in t), 0)
                mon.check(abs(p - w) < 1e-9, "answer:" + kind, "%s: %r instead of %r (input %s, %s)" % (t, p, w, i, ctx))

        def ask(x):
            ps = [float(p) for p in x.calculate_distribution()]
            return list(x.get_outcomes_in_proper_order()), ps

        def alter(x):
            x.configuration.interferometer_matrix = v
            x.configuration.initial_state = [n] + [0] * (m - 1)
            if kind == "uniform calculator":
                x.set_weightless(not x.weightless)
        return Thing(kind, c, ask, judge, alter)
    u = gen.build_matrix({"t": "lossy", "m": m, "s": seed(), "eta": [.9, .4, .7, .2, .5, .8, .6][:m]})
    a = rng.normal(size=m) + 1j * rng.normal(size=m)
    cls = sut.LossyNetworkSimulationStrategy if kind == "lossy network" else sut.LosslessNetworkSimulationStrategy
    return Thing(kind, cls(u), lambda x: np.array(x.simulate(a)), values(u @ a))


def utilities():
    """name -> function of utility_arguments()"""
    from theboss import quantum_computations_utilities as qcu

    b = sut.bsu
    return {
        "states": lambda n, m, s, u, d, e: (b.generate_possible_states(n, m), b.generate_possible_states(n, m, losses=True)),
        "types": lambda n, m, s, u, d, e: (b.generate_state_types(m, n), b.generate_state_types(m, n, losses=True)),
        "lossy inputs": lambda n, m, s, u, d, e: [b.generate_lossy_n_particle_input_states(list(s), k) for k in range(n + 1)],
        "counts": lambda n, m, s, u, d, e: (b.bosonic_space_dimension(n, m, True), b.compute_number_of_state_types(m, n),
                                            b.compute_number_of_states_of_given_type(list(s)),
                                            b.compute_number_of_k_element_integer_partitions_of_n(m, n),
                                            qcu.get_prime_factors(12 * n + 1)),
        "conversions": lambda n, m, s, u, d, e: b.mode_assignment_to_mode_occupation(
            b.mode_occupation_to_mode_assignment(list(s)), m),
        "distances": lambda n, m, s, u, d, e: (qcu.count_total_variation_distance_dicts(d, dict(enumerate(e))),
                                               qcu.count_total_variation_distance(e, e[::-1]),
                                               qcu.count_distance_between_matrices(u, u.T)),
        "dilation": lambda n, m, s, u, d, e: b.prepare_interferometer_matrix_in_expanded_space(u * .8),
        "matrices": lambda n, m, s, u, d, e: (qcu.compute_qft_matrix(m), b.generate_qft_matrix_for_first_m_modes(m - 1, m),
                                              b.get_modes_transmissivity_values_from_matrix(u)),
        "random matrices": lambda n, m, s, u, d, e: b.generate_random_phases_matrix_for_first_m_modes(
                                                     m - 1, m),
    }


def utility_arguments(rng, top=4):
    n, m = int(rng.integers(1, top)), int(rng.integers(1, top))
    return (n, m, gen.random_state(rng, n, m), gen.build_matrix({"t": "haar", "m": m, "s": int(rng.integers(1 << 30))}),
            dict(enumerate(rng.dirichlet([1] * m))), list(rng.dirichlet([1] * n)))
