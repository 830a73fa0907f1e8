"""Shared driver: run a real sampler, monitor every outcome against the reference."""
from vlib import stats, sut


def monitored(mon, name, draw, reference, m, base, lags=(1,), key=None, ctx=""):
    """draw(n) runs the code under test and returns the raw outcomes."""
    total = sum(reference.values())
    if abs(total - 1) > 1e-7:
        raise RuntimeError("reference distribution sums up to %r" % total)

    def drawn(n):
        with mon.code(name):
            raw = draw(n)
            got = sut.loose(raw)
        mon.count("samples:" + name, len(got))
        for s in set(got):
            mon.see("outcomes", [name, ctx, s])
        return got

    verdict, info = stats.staged(drawn, reference, m, base, lags)
    mon.count("oracle_evaluations")
    mon.count("fits:" + name)
    mon.count("stages", info["stages"])
    if verdict == "violation":
        mon.violation((key or "distribution") + ":" + name, "%s does not follow the reference "
                      "distribution (%s): %s" % (name, ctx, info), info=info)
    if verdict == "count":
        mon.violation("samples-number:" + name, "%s returned %d samples instead of %d (%s)"
                      % (name, info["got"], info["asked"], ctx), info=info)
    return info


def deterministic(mon, name, samples, expected, ctx=""):
    """All the outcomes are known for certain."""
    got = sut.loose(samples)
    mon.count("certain:" + name, len(got))
    for s in got:
        mon.check(s == tuple(expected), "impossible-outcome:" + name,
                  "%s returned %s, the only possible outcome is %s (%s)" % (name, s, expected, ctx))
