"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json

U = "theboss/boson_sampling_utilities/boson_sampling_utilities.py"
Q = "theboss/quantum_computations_utilities.py"
PC = "theboss/boson_sampling_utilities/permanent_calculators/"
ST = "theboss/simulation_strategies/"
DC = "theboss/distribution_calculators/"
NW = "theboss/network_simulation_strategy/"

P = []


def prop(i, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (i, len(title))
    P.append({
        "id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Every permanent calculator computes the permanent of the scattering matrix",
     "For any matrix and any input and output occupation with equal particle numbers, each of the four permanent calculators (classic, Glynn, Chin-Huh, Ryser) returns the permanent of the matrix whose rows are repeated according to the output and whose columns are repeated according to the input. The vacuum-to-vacuum value is 1, all four agree, and the result after replacing the matrix or the states of a calculator is the one of a fresh calculator.",
     ["inputs", "histories"], "all complex matrices, all pairs of occupations (vacuum, gaps, bunching), all sequences of replacements",
     "The tests compare a few fixed matrices and states; errors that need bunching in particular modes, empty modes, odd/even particle numbers or a re-used calculator are not sampled.",
     [PC + f for f in ("classic_permanent_calculator.py", "glynn_gray_permanent_calculator.py", "chin_huh_permanent_calculator.py", "ryser_permanent_calculator.py", "bs_permanent_calculator_base.py")] + [U],
     [("compute_permanent of the four calculators", PC), ("effective scattering matrix", U)], ["returned permanents"])
prop("C02", "Submatrix calculators return all permanents with one input particle removed",
     "For an n-particle input and an (n-1)-particle output, both calculators of submatrix permanents return a list in which the entry of every occupied input mode is the permanent of the scattering matrix with one particle of that mode removed from the input. Expanding along a new output particle with these values gives the n-particle permanents; re-used calculators give the same values as fresh ones.",
     ["inputs", "histories"], "all complex matrices, inputs and outputs with one particle less, all sequences of replacements",
     "The tests cover a handful of small states; Gray-code and binomial bookkeeping errors show only for particular occupations.",
     [PC + f for f in ("bs_cc_ryser_submatrices_permanent_calculator.py", "bs_cc_ch_submatrices_permanent_calculator.py", "bs_submatrices_permanent_calculator_base.py")],
     [("compute_permanents", PC)], ["returned lists of permanents"])
prop("C03", "Fock space listing is complete, without repetition, and counted exactly",
     "For every number of particles and modes, the listed states are exactly the occupations with that many particles (with losses: at most that many), each exactly once, as tuples of the right length. The reported dimension is the exact integer number of these states for any size, also where it exceeds floating-point precision.",
     ["inputs"], "all numbers of particles and modes, with and without losses",
     "Tests check a few small spaces; the guarantee is about all sizes, and floating-point counts go wrong only for large ones.",
     [U], [("generate_possible_states", U), ("bosonic_space_dimension", U)], ["listed states", "returned dimension"])
prop("C04", "Lossy inputs are listed exactly and state representations convert losslessly",
     "For every input and every possible number of surviving particles, the listed lossy inputs are exactly the states obtainable by removing particles from the input, each once. Converting between the occupation of modes and the assignment of particles to modes loses nothing: the occupation counts each mode's particles, the assignment lists them in mode order, and unordered assignments convert to the same occupation.",
     ["inputs"], "all occupations, numbers of survivors, assignments in any order",
     "Tests use a few fixed states without bunching or gaps.",
     [U], [("generate_lossy_n_particle_input_states", U), ("mode_assignment_to_mode_occupation", U), ("mode_occupation_to_mode_assignment", U)],
     ["listed inputs", "converted states"])
prop("C05", "State types are listed exactly and all counts of types and states are exact",
     "For every number of modes and particles the state types are exactly the non-increasing occupations with that many particles (with losses: at most that many), each once, and their reported number agrees. The reported number of states of a type is the exact integer number of its distinct permutations, also for many modes, and the sizes of all types add up to the dimension of the space.",
     ["inputs"], "all numbers of modes and particles, all types, with and without losses",
     "Tests check a few small values; counting through floating-point factorials fails only for many modes.",
     [U], [("generate_state_types", U), ("compute_number_of_state_types", U), ("compute_number_of_states_of_given_type", U), ("compute_number_of_k_element_integer_partitions_of_n", U)],
     ["listed types", "returned counts"])
prop("C06", "Exact distribution with a fixed number of lost particles",
     "The calculated probabilities of an experiment in which a given number of particles is lost uniformly at random are the exact quantum-mechanical ones: the average over all ways to lose the particles of the lossless Boson Sampling probabilities. They are aligned with the reported outcomes, add up to one for a unitary network, and asking for any subset of outcomes in any order gives the same values.",
     ["inputs", "configurations"], "all networks, inputs (gaps, bunching), numbers of losses, permanent calculators, requested outcomes",
     "Tests check sums and a few small cases; wrong weights of bunched inputs or misaligned outcomes keep the sum equal to one.",
     [DC + "bs_distribution_calculator_with_fixed_losses.py", U], [("calculate_distribution, calculate_probabilities_of_outcomes", DC)],
     ["returned probabilities", "outcome order"])
prop("C07", "Exact distribution with uniform losses",
     "The calculated probabilities of an experiment in which every particle survives independently with the given transmissivity are the exact ones, aligned with the reported outcomes of up to all particles, and add up to one. With the weights switched off every outcome has its probability given its own number of particles, and switching the weights on again restores the original distribution.",
     ["inputs", "configurations", "histories"], "all networks, inputs, transmissivities from 0 to 1, requested outcomes, switching of weights",
     "Tests check sums of a few cases; binomial weights attached to wrong outcomes or lost on switching are not observed.",
     [DC + "bs_exact_distribution_with_uniform_losses.py", DC + "bs_distribution_calculator_with_fixed_losses.py"],
     [("calculate_probabilities_of_outcomes", DC), ("set_weightless", DC)], ["returned probabilities", "outcome order"])
prop("C08", "Lossless samplers follow the exact Boson Sampling distribution",
     "For every unitary interferometer and every input, the three exact samplers (generalised Clifford and Clifford, version A, version B and the mode-assignment variant) return outcomes distributed exactly as Boson Sampling prescribes, whichever permanent calculator they are given. Outcomes of probability zero never occur.",
     ["inputs", "configurations"], "all unitary networks, all inputs with gaps and bunching, all permanent calculators",
     "Tests compare a single configuration with a loose tolerance.",
     [ST + f for f in ("generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py", "mode_assignment_generalized_cliffords_simulation_strategy.py")],
     [("chain-rule sampling of one particle after another", ST)], ["returned samples"])
prop("C09", "Samplers with uniform losses follow the exact lossy distribution",
     "For every unitary interferometer, input and transmissivity between 0 and 1, both exact samplers with uniform losses return outcomes distributed as if every particle survived independently with that transmissivity and the survivors interfered exactly. Transmissivity 1 gives the lossless distribution, transmissivity 0 always the vacuum.",
     ["inputs", "configurations"], "all unitary networks, inputs, transmissivities, permanent calculators",
     "Tests compare a single configuration with a loose tolerance; particle-number statistics and bunched inputs are not separated.",
     [ST + "generalized_cliffords_uniform_losses_simulation_strategy.py", ST + "generalized_cliffords_b_uniform_losses_simulation_strategy.py"],
     [("loss of particles before interference", ST)], ["returned samples"])
prop("C10", "The sampler for lossy networks follows the exact lossy distribution",
     "For every network matrix with singular values up to one and every input, the lossy-network sampler returns outcomes distributed exactly as the marginal of a lossless experiment in which lost particles go to unobserved modes. This holds for mode-dependent, uniform and absent losses, for opaque modes, and after the network was replaced.",
     ["inputs", "configurations", "histories"], "all sub-unitary networks, all inputs, replacement of the network",
     "Tests use one uniformly lossy network.",
     [ST + "lossy_networks_generalized_cliffords_simulation_strategy.py", U], [("expansion to twice the modes and trimming", ST), ("prepare_interferometer_matrix_in_expanded_space", U)],
     ["returned samples"])
prop("C11", "Partially approximated sampling of lossy networks follows its distribution",
     "For every lossy network, input and number k of approximated modes, the sampler's outcomes follow the exact lossy distribution of the input in which the particles of the first k modes are replaced by as many particles spread independently and uniformly over those modes, regardless of the number of worker processes. With k=0 the distribution is the exact one; k is clipped to the number of modes.",
     ["inputs", "configurations", "schedules"], "all sub-unitary networks, inputs, numbers of approximated modes and worker processes",
     "Tests compare one configuration with a loose bound and never a bunched or reused one.",
     [ST + "nonuniform_losses_approximation_strategy.py"], [("uniform losses extracted, Fourier transform and random phases on the first modes", ST + "nonuniform_losses_approximation_strategy.py")],
     ["returned samples"])
prop("C12", "Partially approximated sampling with uniform losses follows its distribution",
     "For every unitary network, input, transmissivity and hierarchy level h, the sampler's outcomes follow the uniform-loss distribution of the input in which the particles of all but the first h modes are replaced by particles spread independently and uniformly over those modes, averaged over all relabellings of equally occupied modes. With h equal to the number of modes it is the exact uniform-loss distribution; the number of worker processes does not matter.",
     ["inputs", "configurations", "schedules"], "all unitary networks, inputs, transmissivities, hierarchy levels and worker processes",
     "Tests compare a few configurations with a loose bound.",
     [ST + "lossy_state_approximated_simulation_strategy.py"], [("lossy exact part, Fourier transform and random phases on the approximated part", ST + "lossy_state_approximated_simulation_strategy.py")],
     ["returned samples"])
prop("C13", "Separable-state approximations follow their distribution",
     "The fixed-loss sampler's outcomes follow the distribution of the configured number of particles, each prepared in the same superposition of modes weighted by the input's occupations with independent random mode phases and evolved through the network; the uniform-loss sampler draws the number of particles binomially and does the same. With one particle left this is the exact distribution; a given network model replaces the default one.",
     ["inputs", "configurations"], "all networks (lossy or not), inputs with gaps and bunching, numbers of particles left, transmissivities, network models",
     "Tests use one input in the first modes and loose bounds.",
     [ST + "fixed_loss_simulation_strategy.py", ST + "uniform_loss_simulation_strategy.py", NW + "lossy_network_simulation_strategy.py", NW + "lossless_network_simulation_strategy.py"],
     [("prepared one-particle state, random phases, independent particles", ST + "fixed_loss_simulation_strategy.py")], ["returned samples"])
prop("C14", "Samplers return the requested number of well-formed outcomes",
     "Every sampler returns a list of exactly as many outcomes as were requested (none for zero, one by default), however the request is divided among worker processes and whatever values the random generator yields. Every outcome is a tuple with one non-negative integer per mode, with exactly the input's number of particles for lossless sampling, exactly the configured number for fixed losses on a unitary network, and never more than the input otherwise.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all samplers, inputs, requested numbers, numbers of workers, values of random draws including the extreme ones",
     "Tests request one or a fixed number of samples with one number of workers; extreme random draws never happen by chance.",
     [ST, "theboss/boson_sampling_simulator.py"], [("division of samples among workers", ST), ("selection by cumulative weights", ST)], ["returned lists"])
prop("C15", "Answers do not depend on earlier requests, and arguments stay untouched",
     "What a sampler, calculator or utility returns depends only on its present configuration and request: not on earlier inputs, matrices or numbers of samples, on other objects that share its permanent calculator, or on what callers did to earlier results; an exact distribution calculator keeps to the configuration it was made for even if the caller edits that object afterwards. No request modifies the matrices, states, lists, configurations or calculators that callers passed, except that replacing the matrix of a sampler replaces it in the calculator it was given.",
     ["histories"], "all sequences of requests on one object and on objects sharing parts",
     "Tests use fresh objects and one request each.",
     [ST, DC, PC, U], [("state reset at the start of every simulation", ST), ("copies of configurations and calculators", DC)], ["returned values over histories", "arguments before and after"])
prop("C16", "Loss dilation, Fourier, phase and evolution matrices are what they claim",
     "Expanding a network to twice the modes gives a unitary matrix whose upper left block is the network, and the reported transmissivities are the squares of its singular values. The Fourier matrix acts on the first modes only and is the discrete Fourier transform there; the random-phase matrix is diagonal with independent uniform phases on the first modes and ones elsewhere; both network models map amplitudes by the network's matrix; and the effective scattering matrix repeats rows by output and columns by input occupation.",
     ["inputs"], "all networks with singular values up to one, sizes, numbers of first modes, amplitudes, states",
     "Tests check a few matrices and one block of the expansion.",
     [U, Q] + [NW + "lossy_network_simulation_strategy.py", NW + "lossless_network_simulation_strategy.py"],
     [("prepare_interferometer_matrix_in_expanded_space", U), ("generate_qft_matrix_for_first_m_modes", U), ("generate_random_phases_matrix_for_first_m_modes", U)],
     ["returned matrices and vectors"])
prop("C17", "Distributions computed up to an accuracy are exact where given and cover it",
     "The uniform-loss sampler's distribution up to a requested accuracy ends and returns one entry per possible lossy outcome, each the exact probability of that outcome or a placeholder (zero, or -1 if missing values are to be marked), with a total of at least the accuracy. The unweighted variant holds exact probabilities given the number of surviving particles, with an average total over particle numbers of at least the accuracy.",
     ["inputs", "histories"], "all unitary networks, inputs, non-negligible transmissivities, accuracies up to 1, repeated requests",
     "The tests never call it.",
     [ST + "generalized_cliffords_uniform_losses_simulation_strategy.py"], [("compute_distribution_up_to_accuracy, compute_unweighted_distribution_up_to_accuracy", ST)], ["returned lists"])
prop("C18", "Sample-based distributions are the exact frequencies of the drawn samples",
     "The sample-based calculator draws exactly the configured (or requested) number of samples for the configured input and returns, for every reported outcome, the number of samples equal to it divided by the number of samples drawn. By default the outcomes are all states with the configured number of particles left; given or requested outcomes replace them, and other samples count in the denominator only, and an outcome listed twice has its frequency at both places.",
     ["inputs", "histories", "configurations"], "all strategies, outcomes, numbers of samples, replacements of parts between requests",
     "Tests look at one default configuration.",
     [DC + "bs_sample_based_distribution_calculator.py"], [("calculate_approximate_distribution", DC)], ["calls of the strategy", "returned frequencies"])
prop("C19", "Distances, error bounds, minimal sample counts and factorisations are exact",
     "The total variation distance is half the sum of absolute differences over all outcomes that either distribution knows, for dictionaries and lists; matrix distance is the Frobenius norm of the difference. The error bound follows sqrt((outcomes*ln2 - ln(error probability))/(2*samples)), the minimal number of samples is the smallest one whose bound does not exceed the requested distance, prime factorisations multiply to the number with primes only, and the Fourier matrix is the discrete Fourier transform.",
     ["inputs"], "all distributions, matrices, bound parameters, positive integers",
     "Tests check one or two values each.",
     [Q], [("count_total_variation_distance_dicts and siblings", Q)], ["returned values"])
prop("C20", "Factories build exactly what their current settings describe",
     "A strategy factory produces a sampler of the selected kind that follows the distribution described by the factory's current configuration (matrix, particles left, transmissivity, hierarchy level, network model) and calculator, also after any of these was replaced, and independently of its other products and of what the caller later does to the calculator; an R-based sampler without its R packages is refused with an import error. A permanent-calculator factory produces calculators of the selected kind for its current matrix and states.",
     ["configurations", "histories"], "all kinds, configurations, sequences of replacements",
     "Tests check the type of the product only.",
     [ST + "simulation_strategy_factory.py", PC + "bs_permanent_calculator_factory.py"], [("mapping of types to generators, copies of the calculator", ST + "simulation_strategy_factory.py")],
     ["products and their samples"])
prop("C21", "Outcomes are independent within a call, across workers and across calls",
     "The outcomes a sampler returns are independent draws: neighbouring outcomes of one call, outcomes of different worker processes, and outcomes of different calls or objects are uncorrelated, and no two workers or calls produce the same sequence.",
     ["schedules", "histories", "configurations"], "all samplers, numbers of worker processes, sequences of calls",
     "Tests look at single-outcome frequencies only; cloned random generators in workers or reused random numbers leave them unchanged.",
     [ST], [("fresh worker processes with their own random generators", ST + "nonuniform_losses_approximation_strategy.py"), ("fresh draws for every sample", ST)],
     ["returned samples"])
prop("C22", "The R sampler wrapper hands over the right columns and decodes the answers",
     "For every network and non-vacuum input, the wrapper passes R the columns of the occupied modes, repeated by occupation, in R's storage order, asks for the requested number of samples, and returns R's outcomes, in order, as occupations of all modes. Probabilities reported by R are attached to the outcome they belong to: those of the possible outcomes of interest, also if one is named twice, or those of the requested number of first different outcomes that R draws (all, if fewer are possible).",
     ["inputs"], "all networks, non-vacuum inputs, numbers of samples",
     "R is not available in the test environment, so the tests never run it.",
     [ST + "cliffords_r_simulation_strategy.py"], [("conversion to an R matrix and decoding of mode assignments", ST + "cliffords_r_simulation_strategy.py")],
     ["arguments given to R", "returned samples"])

prop("C23", "Failed or interrupted requests are reported and leave nothing behind",
     "A request that is interrupted, or in which some part or worker process fails, ends by raising to the caller: it never hangs, and never returns fewer or other outcomes or values than an undisturbed request would. No worker process outlives it and the arguments are untouched. The same object, asked again, answers exactly as if the failed request had never been made.",
     ["crash_points", "fault_sequences", "histories"], "all lines at which a request can fail, all workers and times at which they can die, all sequences of failed and successful requests",
     "The tests never let a request fail.",
     [ST, DC, PC], [("state of a request is set up anew for every request", ST), ("worker pools are shut down and their failures passed on", ST + "nonuniform_losses_approximation_strategy.py")],
     ["exceptions", "processes left", "answers of the object after the failure"])
prop("C24", "Objects used at the same time in several threads do not disturb each other",
     "Samplers, distribution and permanent calculators, factories and the utility functions that are used at the same time in different threads, each thread with objects of its own, give the same answers as when used alone: the same certain outcomes and exact values, and samples from the same distributions. Matrices shared between them for reading only stay unchanged.",
     ["schedules", "configurations"], "all interleavings of threads, all combinations of objects",
     "The tests use one thread; state shared between objects (class attributes, module-level buffers or caches) shows only under particular interleavings.",
     [ST, DC, PC, U, Q], [("all state of a request lives in its object", ST)], ["answers of every thread"])

prop("C25", "Malformed requests are refused and requests for nothing return nothing",
     "The Ryser and Chin-Huh permanent calculators refuse, by raising, non-square matrices, input and output states of different lengths and states longer than the matrix, and the list form of the total variation distance refuses lists of different lengths; none of these is ever answered with a value. A refusal leaves the object usable. Asking any sampler for zero or fewer samples returns an empty list, listing the states of a negative number of particles or of less than one mode returns an empty list, and there are no partitions into less than one or more than n elements.",
     ["inputs", "histories"], "all mismatching sizes, all sequences of malformed and proper requests, all non-positive numbers",
     "The tests ask for well-formed things only.",
     [PC + "bs_permanent_calculator_base.py", Q, U, ST], [("size checks before the computation", PC + "bs_permanent_calculator_base.py"), ("equal lengths asserted", Q)],
     ["exceptions", "returned values"])
prop("C26", "Copied or pickled objects answer like the original, and independently of it",
     "Samplers, calculators, factories and network models can be deep-copied and pickled at any time, fresh or used, and sent to other processes; the copy answers exactly as the original would. Changing or using the copy afterwards does not affect the original, and vice versa.",
     ["histories", "configurations"], "all kinds of objects, ways of copying, histories before and after",
     "The tests never copy an object; the worker processes of the parallel samplers rely on it.",
     [ST, DC, PC, NW], [("plain attributes only, no state outside the object", ST)], ["answers of copies and originals"])
prop("C27", "Repeated requests do not accumulate memory, processes, threads or files",
     "However often the same requests are repeated on an object, or objects are made, used and dropped, the memory that stays in use, the number of processes and threads and the number of open files do not grow: nothing is kept per request, per sample or per object.",
     ["histories"], "all kinds of objects and utility functions, all numbers of repetitions",
     "The tests make a few requests and look at results only.",
     [ST, DC, PC, U, Q], [("results of a request are not stored beyond the next one", ST), ("pools are closed after every request", ST)], ["memory, processes, threads and files in use"])
prop("C28", "Bunched states stay cheap: no exponential cost in the number of particles",
     "For a fixed number of modes the work of the Ryser and Chin-Huh permanent calculators and of both submatrix calculators is proportional to the product of (occupation + 1) over the input modes, and that of drawing one sample with any exact Boson Sampling sampler that uses them is polynomial in this product and the number of particles. In particular, dozens of particles in two or three modes take a fraction of a second.",
     ["inputs"], "all occupations of few modes by many particles, all such calculators and samplers",
     "The tests use at most a few particles, where exponential and polynomial cost look alike.",
     [PC, ST], [("iteration over Guan codes of the occupations", PC + "bs_permanent_calculator_base.py"), ("version B of the sampler", ST + "generalized_cliffords_b_simulation_strategy.py")], ["executed steps", "termination"])

prop("C29", "The package leaves the process it is used in as it was",
     "Importing the package and making any request, whether it is answered, refused or fails half-way, leaves the surrounding process alone: nothing is written to the terminal by the process or its workers, no file is created, changed or removed, and the environment variables, working directory, numpy error handling and print options, warning filters, signal handlers, recursion and other limits, import path, multiprocessing start method, logging, locale and standard modules are as before. Exact computations do not touch the random number generators of the process, and sampling never sets them to a fixed state.",
     ["inputs", "histories", "crash_points"], "all kinds of objects and utilities, all requests, also refused and failing ones",
     "The tests look at results only; a setting that is changed in a rare branch or not restored after a failure shows in the caller's other code.",
     [ST, DC, PC, U, Q], [("no global settings are touched, numpy's global generator is only drawn from", ST)],
     ["output, files, settings of the process, state of the random generators"])
prop("C30", "Sampling inside the process is reproducible by seeding numpy's random generator",
     "After seeding numpy.random and random with equal seeds, equal requests to equally configured objects that sample inside the process (all samplers except the two that use worker processes, the sample-based estimates, the accuracy routine and the random phases) return equal outcomes in equal order: with the same object after any other requests, with a new, copied or pickled one, and in another process. Other seeds give other outcomes.",
     ["histories", "inputs"], "all seeds, all requests and earlier requests, all in-process samplers, all hash seeds",
     "The tests never repeat a request with the same seed; another source of randomness, leftovers of earlier requests and orders that depend on the process do not show in distributions.",
     [ST, DC, U], [("all draws come from numpy's global generator", ST)], ["returned outcomes of equally seeded requests"])

NOTE = {
    "statistical": ("runtime monitoring: staged goodness-of-fit monitor on real samples against an independent oracle",
                    "Exploration of randomly generated experiments; each verdict needs three escalating rejections (false-alarm chance below 1e-12 per case) or one impossible outcome. Deviations below a few percent of total variation in a single case can escape."),
    "exact": ("runtime monitoring: value oracle on every result of generated workloads",
              "Exploration of generated inputs; every returned value is compared with an independent computation."),
    "faults": ("runtime monitoring: fault injection at executed lines and into worker processes, with monitors of exceptions, processes and later answers",
               "Exploration of randomly chosen crash points and times of death; every answer after a fault is checked against the independent oracle."),
    "threads": ("runtime monitoring: controlled thread switches at executed lines, with value and goodness-of-fit monitors on every thread's answers",
                "Exploration of random interleavings (about a hundred thousand distinct pairs of lines per run)."),
    "resources": ("runtime monitoring: memory, process, thread and file usage measured around repeated requests",
                  "Exploration of generated histories; accumulation of more than 30 bytes per request is seen."),
    "steps": ("runtime monitoring: executed lines counted online and bounded",
              "Exploration of generated inputs; the bound is generous (10 to 50 times today's count), work inside numpy is bounded by the time limit only."),
    "surroundings": ("runtime monitoring: audit hook, captured output and settings of the process compared around every request",
                     "Exploration of generated requests and failure points; about seventy settings are compared around each."),
    "trace": ("runtime monitoring: offline checker over recorded request histories and returned values",
              "Exploration of generated histories; every event is checked against the specification of the history."),
}
WHICH = {"C08": "statistical", "C09": "statistical", "C10": "statistical", "C11": "statistical", "C12": "statistical",
         "C13": "statistical", "C14": "trace", "C15": "trace", "C18": "trace", "C20": "trace", "C21": "statistical", "C22": "trace",
         "C23": "faults", "C24": "threads", "C25": "trace", "C26": "trace", "C27": "resources", "C28": "steps",
         "C29": "surroundings", "C30": "trace"}

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        t, n = NOTE[WHICH.get(p["id"], "exact")]
        checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "exploration", "level_note": n})
    with open("MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy\"", "checks": checks,
                   "not_applicable": [],
                   "notes": "No hooks: everything is observed through the public interface, faults and thread switches are injected from outside (random generators, tracing, signals to workers)."}, f, indent=1)
        f.write("\n")
