"""Access to the code under test, through its public constructors and methods only."""
import numpy as np

from theboss.boson_sampling_simulator import BosonSamplingSimulator
from theboss.boson_sampling_utilities import boson_sampling_utilities as bsu
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ch_submatrices_permanent_calculator import (
    BSCCCHSubmatricesPermanentCalculator,
)
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ryser_submatrices_permanent_calculator import (
    BSCCRyserSubmatricesPermanentCalculator,
)
from theboss.boson_sampling_utilities.permanent_calculators.bs_permanent_calculator_factory import (
    BSPermanentCalculatorFactory,
    PermanentCalculatorType,
)
from theboss.boson_sampling_utilities.permanent_calculators.chin_huh_permanent_calculator import (
    ChinHuhPermanentCalculator,
)
from theboss.boson_sampling_utilities.permanent_calculators.classic_permanent_calculator import (
    ClassicPermanentCalculator,
)
from theboss.boson_sampling_utilities.permanent_calculators.glynn_gray_permanent_calculator import (
    GlynnGrayPermanentCalculator,
)
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import (
    RyserPermanentCalculator,
)
from theboss.distribution_calculators.bs_distribution_calculator_interface import (
    BosonSamplingExperimentConfiguration,
)
from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import (
    BSDistributionCalculatorWithFixedLosses,
)
from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import (
    BSDistributionCalculatorWithUniformLosses,
)
from theboss.distribution_calculators.bs_sample_based_distribution_calculator import (
    BSSampleBasedDistributionCalculator,
)
from theboss.network_simulation_strategy.lossless_network_simulation_strategy import (
    LosslessNetworkSimulationStrategy,
)
from theboss.network_simulation_strategy.lossy_network_simulation_strategy import (
    LossyNetworkSimulationStrategy,
)
from theboss.simulation_strategies.fixed_loss_simulation_strategy import (
    FixedLossSimulationStrategy,
)
from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy import (
    GeneralizedCliffordsBSimulationStrategy,
)
from theboss.simulation_strategies.generalized_cliffords_b_uniform_losses_simulation_strategy import (
    GeneralizedCliffordsBUniformLossesSimulationStrategy,
)
from theboss.simulation_strategies.generalized_cliffords_simulation_strategy import (
    GeneralizedCliffordsSimulationStrategy,
)
from theboss.simulation_strategies.generalized_cliffords_uniform_losses_simulation_strategy import (
    GeneralizedCliffordsUniformLossesSimulationStrategy,
)
from theboss.simulation_strategies.lossy_networks_generalized_cliffords_simulation_strategy import (
    LossyNetworksGeneralizedCliffordsSimulationStrategy,
)
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import (
    LossyStateApproximationSimulationStrategy,
)
from theboss.simulation_strategies.mode_assignment_generalized_cliffords_simulation_strategy import (
    ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface,
)
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import (
    NonuniformLossesApproximationStrategy,
)
from theboss.simulation_strategies.simulation_strategy_factory import (
    SimulationStrategyFactory,
    StrategyType,
)
from theboss.simulation_strategies.uniform_loss_simulation_strategy import (
    UniformLossSimulationStrategy,
)

PERM = {
    "classic": ClassicPermanentCalculator,
    "glynn": GlynnGrayPermanentCalculator,
    "chinhuh": ChinHuhPermanentCalculator,
    "ryser": RyserPermanentCalculator,
}
SUB = {
    "sub_ryser": BSCCRyserSubmatricesPermanentCalculator,
    "sub_chinhuh": BSCCCHSubmatricesPermanentCalculator,
}

# name -> (spawns processes, lossy)
SAMPLERS = {
    "gcc_a": (False, False),
    "gcc_ma": (False, False),
    "gcc_b": (False, False),
    "gcc_a_ul": (False, True),
    "gcc_b_ul": (False, True),
    "lossynet": (False, True),
    "fixed": (False, True),
    "uniform": (False, True),
    "bobs": (True, True),
    "ubobs": (True, True),
}


def disguise(u, state):
    """The same matrix as another kind of array, as callers may hold it."""
    u = np.asarray(u)
    pick = (5 * int(sum(state)) + 3 * len(state) + int(1e6 * float(np.sum(np.abs(u.real))))) % 7
    if pick in (0, 1) and u.dtype.kind == "c" and not u.imag.any():
        u = u.real.copy()
        if pick == 0 and np.array_equal(u, np.rint(u)):
            u = u.astype(int)
    if pick == 2:
        return np.asfortranarray(u)
    if pick == 3:
        big = np.zeros((2 * u.shape[0], 2 * u.shape[1]), dtype=u.dtype)
        big[::2, 1::2] = u
        return big[::2, 1::2]
    if pick == 4:
        u = np.array(u)
        u.setflags(write=False)
    return u


def config(u, state, left=None, eta=1.0, network=None, hierarchy=0):
    n = int(sum(state))
    left = n if left is None else left
    more = {"uniform_transmissivity": eta, "network_simulation_strategy": network, "hierarchy_level": hierarchy}
    if (n + len(state)) % 2 == 0:  # for some experiments the defaults are relied on
        if eta == 1:
            del more["uniform_transmissivity"]
        if network is None:
            del more["network_simulation_strategy"]
        if hierarchy == 0:
            del more["hierarchy_level"]
    return BosonSamplingExperimentConfiguration(
        interferometer_matrix=disguise(u, state),
        initial_state=state,
        initial_number_of_particles=n,
        number_of_modes=len(state),
        number_of_particles_lost=n - left,
        number_of_particles_left=left,
        **more,
    )


def sampler(name, u, state, calc="ryser", eta=1.0, left=None, approx=0, h=0, threads=1,
            network=None, pc=None):
    """A freshly constructed sampler for matrix u (state: for constructors that size
    themselves by the calculator's input state)."""
    m = len(state)
    u = disguise(u, state)
    defaults = (int(sum(state)) + m) % 2 == 0  # for some experiments the defaults are relied on
    if pc is None and name not in ("fixed", "uniform"):
        pc = PERM[calc](u, state, list(state))
    if name == "gcc_a":
        return GeneralizedCliffordsSimulationStrategy(pc)
    if name == "gcc_ma":
        return ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface(pc)
    if name == "gcc_b":
        return GeneralizedCliffordsBSimulationStrategy(pc)
    if name == "gcc_a_ul":
        if eta == 0 and defaults:
            return GeneralizedCliffordsUniformLossesSimulationStrategy(pc)
        return GeneralizedCliffordsUniformLossesSimulationStrategy(pc, eta)
    if name == "gcc_b_ul":
        if eta == 1 and defaults:
            return GeneralizedCliffordsBUniformLossesSimulationStrategy(pc)
        return GeneralizedCliffordsBUniformLossesSimulationStrategy(pc, eta)
    if name == "lossynet":
        return LossyNetworksGeneralizedCliffordsSimulationStrategy(pc)
    if name == "fixed":
        n = int(sum(state))
        if network is None and defaults:
            return FixedLossSimulationStrategy(u, n if left is None else left, m)
        return FixedLossSimulationStrategy(u, n if left is None else left, m, network)
    if name == "uniform":
        return UniformLossSimulationStrategy(u, m, eta)
    if threads == -1 and defaults and name in ("bobs", "ubobs"):
        return (NonuniformLossesApproximationStrategy(pc, approx) if name == "bobs"
                else LossyStateApproximationSimulationStrategy(pc, eta, h))
    if name == "bobs":
        return NonuniformLossesApproximationStrategy(pc, approx, threads)
    if name == "ubobs":
        return LossyStateApproximationSimulationStrategy(pc, eta, h, threads)
    raise ValueError(name)


def clean(mon, name, samples, m):
    """Checks the shape of the returned outcomes and returns them as plain tuples."""
    mon.check(isinstance(samples, list), "container:" + name,
              "%s returned %r instead of a list" % (name, type(samples)))
    out = []
    for s in samples:
        if not isinstance(s, tuple):
            mon.violation("outcome-type:" + name, "%s: outcome %r is a %s, not a tuple"
                          % (name, s, type(s).__name__))
        if len(s) != m:
            mon.violation("outcome-length:" + name, "%s: outcome %r has %d modes, not %d"
                          % (name, s, len(s), m))
        for v in s:
            if not isinstance(v, (int, np.integer)) or isinstance(v, bool) or v < 0:
                mon.violation("outcome-occupation:" + name, "%s: outcome %r holds %r (%s)"
                              % (name, s, v, type(v).__name__))
        out.append(tuple(int(v) for v in s))
    return out


def loose(samples):
    """Outcomes as plain tuples, for checks whose property is not the shape."""
    return [tuple(int(v) for v in s) for s in samples]
