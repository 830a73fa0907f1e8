"""C25: malformed requests are refused, requests for nothing return nothing."""
import numpy as np

from theboss import quantum_computations_utilities as qcu
from vlib import gen, ref, sut
from vlib.sampling import deterministic
from vlib.zoo import image

PROPERTY = "C25"
REQUIRED = ("refused:ryser", "refused:chinhuh", "refused:distance", "asked_again", "nothing_requested", "empty_listings",
            "shape:rectangular", "shape:lengths", "shape:long") + tuple("nothing:" + w for w in sut.SAMPLERS)
RULE = (
    "Ryser and Chin-Huh calculators are given rectangular matrices, states of different lengths and states longer than the "
    "matrix, at construction or by replacement, between proper requests; lists of different lengths are compared; samplers "
    "are asked for zero or fewer samples and listings for negative numbers; every malformed request has to raise, every "
    "request for nothing to return an empty list, and proper requests in between are compared with the independent values; "
    "non-trivial: a malformed request on a used object; distinct by sizes"
)
CASE_TIMEOUT = 20
BUDGET = {"quick": 200, "thorough": 1200}
CALC = ("classic", "glynn", "chinhuh", "ryser")


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    out = []
    for j in range(160 * k):
        out.append({"k": "permanent", "calc": ("ryser", "chinhuh")[j % 2], "m": int(rng.integers(2, 6)), "steps": 14})
    for j in range(80 * k):
        out.append({"k": "distance"})
    for j in range(80 * k):
        who = list(sut.SAMPLERS)[j % len(sut.SAMPLERS)]
        out.append({"k": "nothing", "who": who, "m": int(rng.integers(2, 6)), "calc": str(rng.choice(CALC))})
    for j in range(20 * k):
        out.append({"k": "listings"})
    return out


def run_case(case, mon):
    globals()["_" + case["k"]](case, mon, np.random.default_rng(case["seed"]))


def _refused(mon, label, what, fn):
    mon.depth += 1
    try:
        got = fn()
    except Exception as e:
        mon.count("refused:" + label)
        return e
    finally:
        mon.depth -= 1
    mon.violation("answered:" + label, "%s answered %r to a malformed request (%s)" % (label, got, what))


def _permanent(case, mon, rng):
    m, calc = case["m"], case["calc"]

    def matrix(r, c):
        return rng.normal(size=(r, c)) + 1j * rng.normal(size=(r, c))

    def proper():
        n = int(rng.integers(0, 5))
        return matrix(m, m), gen.random_state(rng, n, m), gen.random_state(rng, n, m)

    a, i, o = proper()
    with mon.code("construct " + calc):
        c = sut.PERM[calc](a, i, o)
    for step in range(case["steps"]):
        a, i, o = proper()
        if rng.random() < .6:
            bad = str(rng.choice(["rectangular", "lengths", "long"]))
            if bad == "rectangular":
                r = m + int(rng.choice([-1, 1]))
                a = matrix(r, m) if rng.random() < .5 else matrix(m, r)
                if rng.random() < .5:  # the states fit one of its sides
                    n = int(rng.integers(1, 4))
                    i, o = gen.random_state(rng, n, min(r, m)), gen.random_state(rng, n, min(r, m))
            elif bad == "lengths":
                other = m + int(rng.choice([-1, 1]))
                n = int(rng.integers(1, 4))
                i, o = gen.random_state(rng, n, m), gen.random_state(rng, n, other)
                if rng.random() < .5:
                    i, o = o, i
            else:
                n, more = int(rng.integers(1, 4)), m + int(rng.integers(1, 3))
                i, o = gen.random_state(rng, n, more), gen.random_state(rng, n, more)
            mon.count("shape:" + bad)
            what = "%s matrix, input %s, output %s" % (np.shape(a), i, o)
            if rng.random() < .4:
                _refused(mon, calc, what, lambda: sut.PERM[calc](a, i, o).compute_permanent())
            else:
                def ask():
                    c.matrix, c.input_state, c.output_state = a, i, o
                    return c.compute_permanent()

                _refused(mon, calc, what, ask)
                mon.see("nontrivial", [calc, np.shape(a), len(i), len(o)])
        else:
            with mon.code(calc + " after a refusal"):
                c.matrix, c.input_state, c.output_state = a, i, o
                got = c.compute_permanent()
            want = ref.permanents_from_input(a, i).get(tuple(o), 0)
            mon.check(abs(got - want) <= 1e-9 * (1 + ref.permanent_scale(a, i, o)), "permanent:" + calc,
                      "%r instead of %r (input %s, output %s, after a refusal)" % (got, want, i, o))
            mon.count("asked_again")
    mon.sample({"calculator": calc, "modes": m, "steps": case["steps"]})


def _distance(case, mon, rng):
    a, b = (list(rng.dirichlet([1] * int(q))) for q in rng.choice(np.arange(1, 9), size=2, replace=False))
    if rng.random() < .3:  # the difference is made of zeros
        b = a + [0.0] * int(rng.integers(1, 3))
    if rng.random() < .5:
        a, b = b, a
    if rng.random() < .3:
        a, b = np.array(a), np.array(b)
    _refused(mon, "distance", "%d and %d probabilities" % (len(a), len(b)), lambda: qcu.count_total_variation_distance(a, b))


def _nothing(case, mon, rng):
    who, m = case["who"], case["m"]
    single = who in ("fixed", "uniform")
    u = gen.build_matrix({"t": "phaseperm", "m": m, "s": case["seed"]})

    def some():
        return gen.random_state(rng, int(rng.integers(1, 4)), m, "bunch1" if single else None)

    with mon.code("construct " + who):
        s = sut.sampler(who, u, some(), case["calc"], eta=1.0, left=2, h=m, approx=0, threads=2)
    for step in range(2 if sut.SAMPLERS[who][0] else 6):
        for k in (0, -1, -7):
            with mon.code(who):
                got = s.simulate(some(), k)
            mon.check(isinstance(got, list) and len(got) == 0, "nothing:" + who, "%d samples requested, got %r" % (k, got))
            mon.count("nothing_requested")
            mon.count("nothing:" + who)
        a = some()
        with mon.code(who):
            got = s.simulate(list(a), 2)
        mon.check(len(got) == 2, "samples-number:" + who, "%d outcomes instead of 2" % len(got))
        deterministic(mon, who, got, [2 * bool(v) for v in image(u, a)] if who == "fixed" else image(u, a), "input %s" % a)
        mon.count("asked_again")


def _listings(case, mon, rng):
    b = sut.bsu
    for n, m in [(-1, 3), (-5, 1), (2, 0), (0, 0), (3, -1), (-2, -2), (-int(rng.integers(1, 9)), int(rng.integers(1, 9)))]:
        for losses in (False, True):
            with mon.code("generate_possible_states"):
                got = b.generate_possible_states(n, m, losses=losses)
            mon.check(list(got) == [], "listing", "%d particles in %d modes: %r" % (n, m, got))
            mon.count("empty_listings")
    with mon.code("partitions"):
        for k, n in [(4, 3), (2, 1), (0, 3), (-1, 5), (2, 0), (9, 4), (0, int(rng.integers(1, 9)))]:
            got = b.compute_number_of_k_element_integer_partitions_of_n(k, n)
            mon.check(got == 0, "partitions", "%d-element partitions of %d: %r" % (k, n, got))
            mon.count("empty_listings")
