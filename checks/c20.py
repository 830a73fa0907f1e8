"""C20: the factories build what the configuration says."""
import importlib
import importlib.util

import numpy as np

from checks.c11 import approximate_reference as bobs_reference
from checks.c12 import approximate_reference as ubobs_reference
from vlib import gen, ref, sut
from vlib.sampling import deterministic, monitored

PROPERTY = "C20"
TYPES = ("FIXED_LOSS", "UNIFORM_LOSS", "GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC", "BOBS", "UNIFORM_LOSSES_BOBS")
REQUIRED = tuple("built:" + t for t in TYPES) + tuple("permanents:" + t for t in ("CLASSIC", "GLYNN", "CHIN_HUH", "RYSER")) + (
    "reconfigured", "replaced_part", "edited_configuration", "replaced_calculator", "replaced_type", "isolated_strategies", "detached:BOBS", "detached:UNIFORM_LOSSES_BOBS", "spoiled_calculator",
    "default_type", "missing_backend", "network_strategy_used")
RULE = (
    "factories configured with random experiments; every produced strategy has to be of the requested kind and "
    "to follow the reference distribution of its configuration (transmissivity, particles left, hierarchy "
    "level, network model), also after the type, the configuration or the calculator of the factory were "
    "replaced, and independently of sibling strategies and of what happens to the caller's calculator; "
    "permanent calculators from the other factory are checked by value; non-trivial: non-default parameters"
)
ASSUMPTIONS = ("rpy2 is not installed",)
CASE_TIMEOUT = 300
TIMER = "real"
BUDGET = {"quick": 320, "thorough": 2400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for j in range(200 * k):
        out.append({"k": "permanent", "type": ("CLASSIC", "GLYNN", "CHIN_HUH", "RYSER")[j % 4], "m": int(rng.integers(1, 8)),
                    "default": bool(j % 12 == 3)})
    for j in range(84 * k):
        t = TYPES[j % len(TYPES)]
        m = int(rng.choice([2, 3]))
        n = int(rng.integers(2, 4))
        if "BOBS" not in t and j // len(TYPES) % 3 == 2:
            m, n = [(4, 4), (5, 4), (6, 3), (4, 3)][j // len(TYPES) // 3 % 4]
        out.append({"k": "fit", "type": t, "m": m, "s": int(rng.integers(1 << 30)), "in": gen.random_state(rng, n, m),
                    "left": int(rng.integers(1, n + 1)), "eta": round(float(rng.uniform(.2, .9)), 3),
                    "h": int(rng.integers(0, m + 1)), "net": bool(rng.random() < .4),
                    "edit": bool(j // len(TYPES) % 3 == 0),
                    "how": str(rng.choice(["ctor", "type", "conf", "calc", "all"]))})
    for j in range(30 * k):
        m = int(rng.integers(2, 5 if j % 2 else 9))
        out.append({"k": "isolation", "m": m, "s": int(rng.integers(1 << 30)),
                    "type": ("GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC")[j % 3],
                    "in": gen.random_state(rng, int(rng.integers(1, 4 if j % 2 else 8)), m)})
    for j in range(10 * k):
        m = int(rng.integers(2, 5))
        out.append({"k": "detached", "m": m, "s": int(rng.integers(1 << 30)),
                    "type": ("BOBS", "UNIFORM_LOSSES_BOBS", "GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC")[j % 5],
                    "in": gen.random_state(rng, int(rng.integers(1, 4)), m), "setter": bool(j // 5 % 2)})
    out.append({"k": "backend", "m": 3})
    out.append({"k": "approximated", "m": 3})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon)


KIND = {"CLASSIC": "classic", "GLYNN": "glynn", "CHIN_HUH": "chinhuh", "RYSER": "ryser"}


def _permanent(case, mon):
    t, m = case["type"], case["m"]
    rng = np.random.default_rng(case["seed"])
    F, T = sut.BSPermanentCalculatorFactory, sut.PermanentCalculatorType

    def problem():
        n = int(rng.integers(1, 4 if m < 3 else 7))
        return (gen.build_matrix({"t": "ginibre", "m": m, "s": int(rng.integers(1 << 30))}),
                gen.random_state(rng, n, m), gen.random_state(rng, n, m))

    def judge(pc, prob, what):
        if not case["default"]:
            mon.check(isinstance(pc, sut.PERM[KIND[t]]), "permanent-type:" + t, "%s produced a %s" % (t, type(pc).__name__))
        with mon.code("compute_permanent"):
            v = complex(pc.compute_permanent())
        want = ref.permanents_from_input(prob[0], prob[1]).get(tuple(prob[2]), 0.0)
        mon.check(abs(v - want) <= 1e-8 * (1 + ref.permanent_scale(*prob)), "permanent-value:" + t,
                  "%s %s: %r instead of %r" % (t, what, v, want))
        mon.count("permanents:" + t)

    a, b, c = problem(), problem(), problem()
    with mon.code("permanent factory"):
        f = F(*a) if case["default"] else F(*a, calculator_type=T[t])
        first = f.generate_calculator()
    judge(first, a, "from the constructor")
    with mon.code("permanent factory"):
        for name in rng.permutation(["matrix", "input_state", "output_state"]):
            setattr(f, str(name), b[["matrix", "input_state", "output_state"].index(name)])
        second = f.generate_calculator()
    judge(second, b, "after the experiment was replaced")
    judge(first, a, "produced earlier")
    with mon.code("permanent factory"):
        second.matrix, second.input_state, second.output_state = c
        third = f.generate_calculator()
    judge(second, c, "given another experiment")
    judge(third, b, "produced after a sibling was changed")
    part = str(rng.choice(["matrix", "input_state", "output_state"]))  # only one setting is replaced
    d = list(b)
    if part == "matrix":
        d[0] = c[0]
    else:
        d[1 if part == "input_state" else 2] = gen.random_state(rng, sum(b[1]), m)
    with mon.code("permanent factory"):
        if rng.random() < .5:  # something else in between
            setattr(f, part, c[0] if part == "matrix" else gen.random_state(rng, int(rng.integers(0, 6)), m))
            if rng.random() < .5:
                f.generate_calculator()
        setattr(f, part, d[["matrix", "input_state", "output_state"].index(part)])
        fourth = f.generate_calculator()
    judge(fourth, d, "after the %s was replaced" % part)
    mon.count("replaced_part")
    mon.see("nontrivial", [t, case["seed"]])
    mon.count("default_type", int(case["default"]))


CLS = {"FIXED_LOSS": "FixedLossSimulationStrategy", "UNIFORM_LOSS": "UniformLossSimulationStrategy",
       "GCC": "GeneralizedCliffordsSimulationStrategy",
       "LOSSY_NET_GCC": "LossyNetworksGeneralizedCliffordsSimulationStrategy",
       "UNIFORM_LOSSES_GCC": "GeneralizedCliffordsUniformLossesSimulationStrategy",
       "BOBS": "NonuniformLossesApproximationStrategy",
       "UNIFORM_LOSSES_BOBS": "LossyStateApproximationSimulationStrategy"}


def _fit(case, mon):
    t, m, i, how = case["type"], case["m"], case["in"], case["how"]
    n, eta, h, left = sum(i), case["eta"], case["h"], case["left"]
    lossy = t in ("LOSSY_NET_GCC", "BOBS")
    if lossy:
        u = gen.build_matrix({"t": "lossy", "m": m, "s": case["s"], "eta": [.9, .5, .7, .8, .95, .6][:m]})
    else:
        u = gen.build_matrix({"t": "haar", "m": m, "s": case["s"]})
    other = gen.build_matrix({"t": "haar", "m": m, "s": 77})
    net = None
    if t == "FIXED_LOSS" and case["net"]:  # the network model of the configuration, not the matrix, evolves
        net = sut.LosslessNetworkSimulationStrategy(other)
        mon.count("network_strategy_used")
    conf = meant = sut.config(u, list(i), left, eta, net, h)
    if case["edit"]:
        conf = sut.config(other, list(reversed(i)), 1, 1 - eta, None, m - h)
    rng = np.random.default_rng(case["seed"])
    wrong_conf = sut.config(other, list(reversed(i)), 1, 1 - eta, None, m - h)
    pc = sut.PERM["ryser"](u, list(i), list(i))
    wrong_pc = sut.PERM["ryser"](other, list(i), list(i))
    T = sut.StrategyType
    wrong_t = T.GCC if t != "GCC" else T.UNIFORM_LOSS
    with mon.code("strategy factory"):
        if how == "ctor" and t == "FIXED_LOSS":
            f = sut.SimulationStrategyFactory(conf, pc)
            mon.count("default_type")
        else:
            f = sut.SimulationStrategyFactory(
                wrong_conf if how in ("conf", "all") else conf, wrong_pc if how in ("calc", "all") else pc,
                wrong_t if how in ("type", "all") else T[t])
            f.generate_strategy()
        if how in ("type", "all"):
            f.strategy_type = T[t]
            mon.count("replaced_type")
        if how in ("conf", "all"):
            f.experiment_configuration = conf
            mon.count("reconfigured")
        if how in ("calc", "all"):
            f.bs_permanent_calculator = pc
            mon.count("replaced_calculator")
        mon.check(f.strategy_type == T[t] and f.experiment_configuration is conf, "factory-settings",
                  "the factory does not report its settings")
        if case["edit"]:  # the configuration is edited, not replaced
            for name in rng.permutation(sorted(vars(conf))):
                setattr(conf, str(name), getattr(meant, str(name)))
            mon.count("edited_configuration")
        if t == "UNIFORM_LOSSES_BOBS":
            f.available_threads_number = 2
        s = f.generate_strategy()
    mon.check(isinstance(s, getattr(sut, CLS[t])), "strategy-type:" + t, "%s produced a %s" % (t, type(s).__name__))
    evolve = other if net is not None else u
    r = {"FIXED_LOSS": lambda: ref.separable_fixed_loss_distribution(evolve, i, left),
         "UNIFORM_LOSS": lambda: ref.mix((w, ref.separable_fixed_loss_distribution(u, i, l))
                                         for l, w in enumerate(ref.binomial_weights(n, eta))),
         "GCC": lambda: ref.lossless_distribution(u, i),
         "LOSSY_NET_GCC": lambda: ref.lossy_distribution(u, i),
         "UNIFORM_LOSSES_GCC": lambda: ref.uniform_loss_distribution(u, i, eta),
         "BOBS": lambda: bobs_reference(u, i, m - h),
         "UNIFORM_LOSSES_BOBS": lambda: ubobs_reference(u, i, h, eta)}[t]()
    monitored(mon, t, lambda k: s.simulate(list(i), k), r, m, 1500, key="configuration",
              ctx="input %s, %d left, transmissivity %g, hierarchy level %d, %s" % (i, left, eta, h, how))
    mon.count("built:" + t)
    mon.see("nontrivial", [t, case["s"], i, left, eta, h, how])
    mon.sample({"type": t, "in": i, "left": left, "eta": eta, "hierarchy": h, "how": how})


def _image(u, s):
    want = [0] * len(s)
    for c, v in enumerate(s):
        want[int(np.argmax(np.abs(u[:, c])))] += v
    return want


def _isolation(case, mon):
    m, i, t = case["m"], case["in"], case["type"]
    u, v, w = (gen.build_matrix({"t": "phaseperm", "m": m, "s": case["s"] + d}) for d in range(3))
    pc = sut.PERM["ryser"](u, list(i), list(i))
    with mon.code("strategy factory"):
        f = sut.SimulationStrategyFactory(sut.config(u, list(i), sum(i), 1.0), pc, sut.StrategyType[t])
        a, b = f.generate_strategy(), f.generate_strategy()
        pc.matrix = v  # the caller goes on with another experiment
        pc.input_state = [1] * m
        mon.count("spoiled_calculator")
        c = f.generate_strategy()
        a.set_new_matrix(w)
        d = f.generate_strategy()
    for name, s, want in (("changed", a, w), ("sibling", b, u), ("after the calculator changed", c, u),
                          ("after a sibling changed", d, u)):
        with mon.code(t):
            got = s.simulate(list(i), 3)
        deterministic(mon, t, got, _image(want, i), name)
    mon.check(np.array_equal(pc.matrix, v), "modified-argument:" + t, "the caller's calculator was modified")
    mon.count("isolated_strategies", 4)
    mon.see("nontrivial", [t, case["s"], i])


def _detached(case, mon):
    """Products keep their experiment when the calculators of the factory and of the caller change."""
    m, i, t = case["m"], case["in"], case["type"]
    u, v, w = (gen.build_matrix({"t": "phaseperm", "m": m, "s": case["s"] + d}) for d in range(3))
    pc = sut.PERM["ryser"](u, list(i), list(i))
    with mon.code("strategy factory"):
        if case["setter"]:
            f = sut.SimulationStrategyFactory(sut.config(u, list(i), sum(i), 1.0, None, m),
                                              sut.PERM["ryser"](w, list(i), list(i)), sut.StrategyType[t])
            f.generate_strategy()
            f.bs_permanent_calculator = pc
        else:
            f = sut.SimulationStrategyFactory(sut.config(u, list(i), sum(i), 1.0, None, m), pc, sut.StrategyType[t])
        if t == "UNIFORM_LOSSES_BOBS":
            f.available_threads_number = 1
        pc.matrix = w
        s = f.generate_strategy()
        pc.matrix = v
        f.bs_permanent_calculator.matrix = v
    with mon.code(t):
        got = s.simulate(list(i), 6)
    deterministic(mon, t, got, _image(u, i), "after the calculators of the caller and of the factory changed")
    mon.count("detached:" + t)


def _backend(case, mon):
    if importlib.util.find_spec("rpy2") is not None:
        mon.count("missing_backend")
        return
    u = gen.build_matrix({"t": "haar", "m": 3, "s": 1})
    f = sut.SimulationStrategyFactory(sut.config(u, [1, 1, 0]), sut.PERM["ryser"](u, [1, 1, 0], [1, 1, 0]),
                                      sut.StrategyType.CLIFFORD_R)
    try:
        f.generate_strategy()
        got = None
    except Exception as e:
        got = e
    mon.check(isinstance(got, ImportError), "missing-backend", "without rpy2 the R strategy gives %r, not an ImportError" % (got,))
    mon.count("missing_backend")


def _approximated(case, mon):
    """The remaining distribution calculator of the package has to be usable, too."""
    mod = importlib.import_module(
        "theboss.distribution_calculators.bs_appriximated_distribution_from_separable_states_calculator")
    u = gen.build_matrix({"t": "haar", "m": 3, "s": 1})
    cls = [v for k, v in vars(mod).items() if isinstance(v, type) and v.__module__ == mod.__name__]
    mon.check(len(cls) == 1, "approximated-calculator-missing", "%r" % cls)
    try:
        c = cls[0](sut.config(u, [1, 1, 0], 2, .5, None, 1), sut.PERM["ryser"](u, [1, 1, 0], [1, 1, 0]))
        p = c.calculate_distribution()
        problem = None if abs(sum(p) - 1) < 1e-6 else "probabilities sum up to %r" % sum(p)
    except Exception as e:
        problem = "%s: %s" % (type(e).__name__, e)
    mon.check(problem is None, "approximated-distribution-calculator-unusable", "%s: %s" % (cls[0].__name__, problem))
