From 3c04cff71887669a6b312d230ca87ebd895c6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 01/25] fix: BOBS must not carry approximated particles over
 between simulate calls

The number of particles in the approximated modes was only ever increased, so a
second simulate() call on the same strategy returned samples with more particles
than the input had.
---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..ccaec95 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From e53460d24980150ca82bf3ad8c70e251054ef708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 02/25] fix: BOBS returns exactly the requested number of
 samples

The number of samples was rounded up to a multiple of the number of threads (and a
whole extra sample per thread was drawn when it already was one).
---
 .../nonuniform_losses_approximation_strategy.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ccaec95..64fee14 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -242,13 +242,11 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
-        samples_for_threads = [samples_per_thread] * self._threads_number
+        samples_for_threads = [
+            samples_number // self._threads_number
+        ] * self._threads_number
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From c7e3470f0b42a0ec5cc64c37337a73b99f7236be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 03/25] fix: BOBS accepts a network that loses every particle

Extracting uniform losses from the zero matrix divided 0 by 0 and crashed later.
---
 .../nonuniform_losses_approximation_strategy.py            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 64fee14..2b3b420 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -137,9 +137,10 @@ class NonuniformLossesApproximationStrategy:
         self._uniform_losses = min(losses)
 
         # Form the interferometer_matrx with losses extracted.
-        transmissivities = [
-            eta / (1 - self._uniform_losses) for eta in transmissivities
-        ]
+        if self._uniform_losses < 1:
+            transmissivities = [
+                eta / (1 - self._uniform_losses) for eta in transmissivities
+            ]
         s = [sqrt(eta) for eta in transmissivities]
         self._initial_matrix = u @ diag(s) @ v
 
-- 
2.43.0


From 87f65471313324f33484a45aae72e92348060979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 04/25] fix: BOBS weighted choice always returns one of the
 values

When the rounded weights sum up to less than 1 a draw close to 1 yielded None.
---
 .../nonuniform_losses_approximation_strategy.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 2b3b420..5bebe54 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -61,6 +61,9 @@ def choice(values: Sequence[int], weights: Sequence[float] = None) -> int:
         if weights_sum > random_number:
             return values[i]
 
+    # The weights may sum up to slightly less than 1 due to rounding.
+    return values[-1]
+
 
 class NonuniformLossesApproximationStrategy:
     """
-- 
2.43.0


From f6d1173dbb2c031a548cedaa82560d1f06839b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:56 +0000
Subject: [PATCH 05/25] fix: uniform losses BOBS weights of lossy bunched
 inputs

The multiplicity of a lossy input was not taken into account, so for a bunched not
approximated part the weights did not sum up to 1 and the simulation crashed.
---
 .../lossy_state_approximated_simulation_strategy.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..21aa0d1 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -173,12 +173,15 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         )
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        whole_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        n = sum(whole_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
-            self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
-            )
+            weight = possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+            # The same particles can be lost from a bunched mode in several ways.
+            for i in range(len(whole_part)):
+                weight *= binom(whole_part[i], state_part[i])
+            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)
 
     def _get_possible_lossy_inputs_weights(
         self, input_state: Sequence[int]
-- 
2.43.0


From 8bbb0b7ad83529a01337385b21e59b589da08738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:56 +0000
Subject: [PATCH 06/25] fix: uniform losses BOBS with an empty (not)
 approximated part

For hierarchy level equal to 0 or to the number of modes one of the input parts is
empty, the input became an array of floats and the simulation crashed.
---
 .../lossy_state_approximated_simulation_strategy.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 21aa0d1..af9b860 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -332,7 +332,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        # Any of the parts may be empty, and an empty list would be of a float type.
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 4b8f68cf384b51194d1a8fde4d7f3204f62ca803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:56 +0000
Subject: [PATCH 07/25] fix: uniform losses BOBS applies QFT to the
 approximated modes

QFT and random phases are applied to the first m - k modes, while the particles to be
approximated were placed in the mode number k. The particles meant to be simulated
exactly were approximated and vice versa.
---
 .../lossy_state_approximated_simulation_strategy.py         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index af9b860..af2e993 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -18,6 +18,7 @@ from numpy import (
     zeros_like,
     array,
     arange,
+    roll,
 )
 from numpy.random import choice, shuffle
 from typing import List, Tuple, Sequence
@@ -333,7 +334,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             )
         ]
         # Any of the parts may be empty, and an empty list would be of a float type.
-        return hstack([not_approximated_part, approximated_part]).astype(int)
+        # QFT and the random phases act on the first modes.
+        return hstack([approximated_part, not_approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
@@ -347,6 +349,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             len(self._permanent_calculator.matrix)
         )  # We work with unitary matrices.
         shuffle(permutation)
+        # The approximated modes go first.
+        permutation = roll(permutation, -self._hierarchy_level)
         return array(self._permanent_calculator.matrix)[:, permutation]
 
     def _get_matrix_for_approximate_sampling(self) -> ndarray:
-- 
2.43.0


From 31de5f80664deed31b9203b177cbd0f2ff6a06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:56 +0000
Subject: [PATCH 08/25] fix: uniform losses BOBS symmetrizes only over equally
 occupied modes

All the columns of the interferometer were shuffled for each sample, which sends the
particles through modes they were not in and simulates a different experiment, e.g.
the identity interferometer moved particles between the modes.
---
 .../lossy_state_approximated_simulation_strategy.py  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index af2e993..dffb553 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -54,6 +54,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._not_approximated_lossy_mixed_state_parts_weights = None
 
         # Required for general simulation
+        self._input_state: Tuple[int, ...] = tuple()
         self._hierarchy_level: int = hierarchy_level
         self._uniform_transmissivity: float = uniform_transmissivity
         self._threads_number: int = self._get_proper_threads_number(threads_number)
@@ -105,6 +106,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         if samples_number < 1:
             return []
 
+        self._input_state = tuple(int(particles) for particles in input_state)
         self._prepare_not_approximated_lossy_mixed_state(
             input_state[: self._hierarchy_level]  # Not approximated state part
         )
@@ -348,7 +350,15 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         permutation = arange(
             len(self._permanent_calculator.matrix)
         )  # We work with unitary matrices.
-        shuffle(permutation)
+        # Only the modes with equal occupations can be swapped without changing the
+        # experiment.
+        for occupation in set(self._input_state):
+            modes = [
+                i for i, n in enumerate(self._input_state) if n == occupation
+            ]
+            shuffled_modes = modes.copy()
+            shuffle(shuffled_modes)
+            permutation[modes] = shuffled_modes
         # The approximated modes go first.
         permutation = roll(permutation, -self._hierarchy_level)
         return array(self._permanent_calculator.matrix)[:, permutation]
-- 
2.43.0


From 84da6736433bf7e820943644206c467034985466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 09/25] fix: fixed and uniform loss strategies return integer
 occupations

The samples were tuples of floats, while the interface promises tuples of ints.
---
 theboss/simulation_strategies/fixed_loss_simulation_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
index 37fbd95..3707426 100644
--- a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
+++ b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
@@ -129,7 +129,7 @@ class FixedLossSimulationStrategy(SimulationStrategyInterface):
             A lossy boson state after traversing through interferometer. The state is
             described in first quantization (mode assignment representation).
         """
-        output = zeros(self.number_of_observed_modes)
+        output = zeros(self.number_of_observed_modes, dtype=int)
         for photon in range(self.number_of_photons_left):
             x = random()
             i = 0
-- 
2.43.0


From f7fa88cf64825bbbfaa2859348014161da5f3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 10/25] fix: fixed loss strategy starts from the modes occupied
 by the input

The photons were always smeared over the first n modes, no matter which modes they
were in; with more photons than modes the state was not normalized, and the vacuum
resulted in 0 / 0.
---
 .../fixed_loss_simulation_strategy.py              | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
index 3707426..b9728c0 100644
--- a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
+++ b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
@@ -3,7 +3,7 @@ __author__ = "Tomasz Rybotycki"
 from random import random
 from typing import List, Optional, Tuple, Sequence
 
-from numpy import conjugate, exp, ndarray, ones, sqrt, zeros, pi
+from numpy import asarray, conjugate, exp, ndarray, sqrt, zeros, pi
 from numpy.random import rand
 
 from theboss.simulation_strategies.simulation_strategy_interface import (
@@ -77,14 +77,14 @@ class FixedLossSimulationStrategy(SimulationStrategyInterface):
 
         :return:
             Returns the initial state of the formula, which is an equal superposition
-            of n photons 'smeared' on the first n modes.
+            of n photons 'smeared' on the modes they initially occupy.
         """
         initial_number_of_photons = int(sum(input_state))
-        prepared_state = ones(self.number_of_observed_modes, dtype=float)
-        prepared_state[initial_number_of_photons:] = 0
-        prepared_state /= sqrt(
-            initial_number_of_photons
-        )  # Note, that numpy version of sqrt is used here!
+        prepared_state = sqrt(asarray(input_state, dtype=float))
+        if initial_number_of_photons > 0:
+            prepared_state /= sqrt(
+                initial_number_of_photons
+            )  # Note, that numpy version of sqrt is used here!
 
         return self._randomize_modes_phases(prepared_state)
 
-- 
2.43.0


From ae5a65c7462d6eec6081788d1e56c156ce3fd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 11/25] fix: uniform losses GCC strategies return tuples as the
 interface promises

As arrays the samples cannot be counted or looked up like the ones of all the other
strategies.
---
 ...ized_cliffords_b_uniform_losses_simulation_strategy.py | 8 ++++----
 ...alized_cliffords_uniform_losses_simulation_strategy.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index f2ffcee..936357f 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -15,8 +15,8 @@ from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy i
     BSPermanentCalculatorInterface,
     mode_occupation_to_mode_assignment,
 )
-from numpy import ndarray, array, int64, zeros_like
-from typing import List
+from numpy import ndarray, zeros_like
+from typing import List, Tuple
 from scipy.special import binom
 from numpy.random import random
 
@@ -84,7 +84,7 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
 
         return number_of_particles_left
 
-    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
+    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[Tuple[int, ...]]:
         """
         Returns sample from linear optics experiments given output state.
 
@@ -105,7 +105,7 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
             self._current_input = zeros_like(input_state)
             self._working_input_state = particle_input_state.copy()
             self._fill_r_sample()
-            samples.append(array(self.r_sample, dtype=int64))
+            samples.append(tuple(self.r_sample))
         return samples
 
     def _fill_r_sample(self) -> None:
diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index 1bc05be..d6449ba 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -2,9 +2,9 @@ __author__ = "Tomasz Rybotycki"
 
 from math import factorial
 from random import random
-from typing import List
+from typing import List, Tuple
 
-from numpy import array, int64, ndarray, array_equal, isclose
+from numpy import ndarray, array_equal, isclose
 from scipy import special
 
 from .generalized_cliffords_simulation_strategy import (
@@ -32,7 +32,7 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
         self.missing_values_in_distribution = False
         super().__init__(bs_permanent_calculator)
 
-    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
+    def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[Tuple[int, ...]]:
         """
             Returns sample from linear optics experiments given output state.
 
@@ -46,7 +46,7 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         while len(samples) < samples_number:
             self._fill_r_sample()
-            samples.append(array(self.r_sample, dtype=int64))
+            samples.append(tuple(self.r_sample))
         return samples
 
     def _initialize_simulation(self, input_state: ndarray) -> None:
-- 
2.43.0


From 99bca129d140d1b1beeff265a989f48dba62ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 12/25] fix: GCCB with uniform losses never samples more
 particles than the input has

When the rounded weights sum up to less than 1 a draw close to 1 gave n + 1 particles.
---
 ...neralized_cliffords_b_uniform_losses_simulation_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index 936357f..0c152db 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -82,7 +82,8 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
 
             number_of_particles_left += 1
 
-        return number_of_particles_left
+        # The weights may sum up to slightly less than 1 due to rounding.
+        return self.number_of_input_photons
 
     def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[Tuple[int, ...]]:
         """
-- 
2.43.0


From 0700232fe71de7418eee1dba2689f891c2e73509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 13/25] fix: the expanded interferometer matrix is unitary, as
 documented

The rows of the two block rows were not orthogonal for lossy interferometers.
---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 338cf85..5b0d584 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -335,7 +335,7 @@ def prepare_interferometer_matrix_in_expanded_space(
     # This is the most specific thing here.
     expanded_singular_values_matrix = block(
         [
-            [diag(singular_values), loss_transfer_extension_matrix],
+            [diag(singular_values), -loss_transfer_extension_matrix],
             [loss_transfer_extension_matrix, diag(singular_values)],
         ]
     )
-- 
2.43.0


From 91d3dab79e1ee2669e2f8ed49bfbd82eed4c0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 14/25] fix: the dimension of the bosonic space is exact

It was computed in floats, and was wrong above 2 ** 53.
---
 .../boson_sampling_utilities/boson_sampling_utilities.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 5b0d584..497e5f2 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -25,7 +25,7 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import binom, factorial
+from scipy.special import comb, factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -226,13 +226,15 @@ def bosonic_space_dimension(
             :math:`n` particles.
     """
 
-    dimension: int = round(binom(particles_number + modes_number - 1, particles_number))
+    dimension: int = comb(
+        particles_number + modes_number - 1, particles_number, exact=True
+    )
 
     if not losses:
         return dimension
 
     for n in range(particles_number):
-        dimension += round(binom(n + modes_number - 1, n))
+        dimension += comb(n + modes_number - 1, n, exact=True)
 
     return dimension
 
-- 
2.43.0


From 69c0ac7b28a870c895244496d9ce204da943aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 15/25] fix: the number of states of given type is an exact
 integer

It was computed in floats, and was wrong for larger numbers of modes.
---
 .../boson_sampling_utilities/boson_sampling_utilities.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 497e5f2..2172b74 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -464,15 +464,10 @@ def compute_number_of_states_of_given_type(state_type: Sequence[int]) -> int:
     for val in vals:
         counts.append(state_type.count(val))
 
-    type_count = factorial(modes_number)
+    number_of_states_of_given_type = factorial(modes_number, exact=True)
 
     for count in counts:
-        type_count /= factorial(count)
-
-    number_of_states_of_given_type = factorial(modes_number)
-
-    for count in counts:
-        number_of_states_of_given_type //= factorial(count)
+        number_of_states_of_given_type //= factorial(count, exact=True)
 
     return number_of_states_of_given_type
 
-- 
2.43.0


From 2aeaf09e700cd99defe059414f2e2d265db7826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 16/25] fix: prime factors are integers greater than 1

The list contained floats, and a trailing 1.0 whenever the largest prime factor is not
unique.
---
 theboss/quantum_computations_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index 83e2d70..3f1d8f5 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -132,14 +132,15 @@ def get_prime_factors(number: int) -> List[int]:
 
     while number % 2 == 0:
         prime_factors.append(2)
-        number = number / 2
+        number = number // 2
 
     for i in range(3, int(sqrt(number)) + 1, 2):
         while number % i == 0:
             prime_factors.append(i)
-            number = number / i
+            number = number // i
 
-    prime_factors.append(number)
+    if number > 1:
+        prime_factors.append(number)
 
     return prime_factors
 
-- 
2.43.0


From 9dd3efaa91499d5f54c675c7b0b56487531fe68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 17/25] fix: sample based calculator honours samples number and
 names its outcomes

The number of samples given in the constructor was ignored, and the outcomes the
probabilities correspond to were None unless they had been given explicitly.
---
 ...bs_sample_based_distribution_calculator.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..0ba92ab 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -1,6 +1,6 @@
 __author__ = "Tomasz Rybotycki"
 
-from typing import List, Iterable
+from typing import List, Iterable, Optional
 
 from numpy import float64, ndarray, zeros, asarray
 
@@ -72,7 +72,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return self.calculate_approximate_distribution()
 
     def calculate_approximate_distribution(
-        self, samples_number: int = 5000
+        self, samples_number: Optional[int] = None
     ) -> List[float]:
         """
             Prepares the approximate distribution using boson sampling simulation method
@@ -81,13 +81,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
             :return: Approximate distribution as a list.
         """
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        if samples_number is None:
+            samples_number = self._samples_number
+
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -110,4 +107,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From 6de1569fd3c46aa03912f4ab4cf560073737a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/25] fix: lossy networks strategy leaves the caller's
 permanent calculator alone

The matrix in the calculator was replaced by the expanded one, so that a second
strategy created with the same calculator simulated a network twice as big.
---
 ...lossy_networks_generalized_cliffords_simulation_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
index fcfa489..7baed3e 100644
--- a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
@@ -4,6 +4,8 @@ __author__ = "Tomasz Rybotycki"
 A class for exact BS simulation using generalized C&C algorithm (version B).
 """
 
+from copy import deepcopy
+
 from numpy import delete, vstack, zeros_like, complex128
 from typing import Sequence, Tuple
 
@@ -39,6 +41,7 @@ class LossyNetworksGeneralizedCliffordsSimulationStrategy(SimulationStrategyInte
     """
 
     def __init__(self, bs_permanent_calculator: BSPermanentCalculatorInterface) -> None:
+        bs_permanent_calculator = deepcopy(bs_permanent_calculator)
         bs_permanent_calculator.matrix = prepare_interferometer_matrix_in_expanded_space(
             bs_permanent_calculator.matrix
         )
-- 
2.43.0


From 4011b1c463863f5f8904f0e8ca3048a0fd560c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 19/25] fix: R wrapper uses the columns of the modes occupied
 by the input

The first n columns of the interferometer were used no matter which modes the
particles were in.
---
 .../cliffords_r_simulation_strategy.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..7e820ee 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -7,7 +7,7 @@ __author__ = "Tomasz Rybotycki"
     https://cran.r-project.org/web/packages/BosonSampling/index.html
 """
 
-from numpy import arange, array, array_split, int64, ndarray, isclose
+from numpy import array, array_split, int64, ndarray, isclose
 from scipy.special import binom
 from collections import defaultdict
 from typing import List, Dict, Tuple, DefaultDict, Sequence
@@ -20,6 +20,7 @@ from theboss.simulation_strategies.simulation_strategy_interface import (
 
 from ..boson_sampling_utilities.boson_sampling_utilities import (
     mode_assignment_to_mode_occupation,
+    mode_occupation_to_mode_assignment,
 )
 
 
@@ -78,10 +79,10 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
-
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            array(self.interferometer_matrix)[
+                :, list(mode_occupation_to_mode_assignment(initial_state))
+            ]
         )
 
         result, permanent, probability_mass_function = self.cliffords_r_sampler(
@@ -122,14 +123,14 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        number_of_bosons = int(sum(initial_state))
-
         outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
 
         outcomes_probabilities: dict = {}
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            array(self.interferometer_matrix)[
+                :, list(mode_occupation_to_mode_assignment(initial_state))
+            ]
         )
 
         number_of_samplings = 0
@@ -185,7 +186,9 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         m = len(initial_state)
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(n)]
+            array(self.interferometer_matrix)[
+                :, list(mode_occupation_to_mode_assignment(initial_state))
+            ]
         )
 
         if int(binom(n + m - 1, m - 1)) < number_of_random_states:
-- 
2.43.0


From 02b92718bb5f4bd6593cf304adf0cd1de35238e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:33 +0000
Subject: [PATCH 20/25] fix: give every uniform-losses BOBS strategy its own
 permanent calculator

The factory handed its calculator itself to these strategies (and only to
them), so changing the factory's calculator changed strategies generated
before.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..85db37c 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From fe17040e6b1e13ede0f2c4873e813e79c9fa53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:30 +0000
Subject: [PATCH 21/25] fix: the number of random states whose probabilities
 are found was ignored

The search went on until the probabilities summed up to one, and for ever if
fewer states than requested were possible.
---
 .../simulation_strategies/cliffords_r_simulation_strategy.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index 7e820ee..d4b9584 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -200,7 +200,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
 
         while len(
             probabilities_of_random_states
-        ) < number_of_random_states or not isclose(probabilities_sum, 1):
+        ) < number_of_random_states and not isclose(probabilities_sum, 1):
 
             result, permanent, pmf = self.cliffords_r_sampler(
                 boson_sampler_input_matrix, sampleSize=1, perm=True
-- 
2.43.0


From 515069e7759f3b0ae01a4a92ec03ecd3b362cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:30 +0000
Subject: [PATCH 22/25] fix: finding the probability of an outcome named twice
 never ended

---
 .../simulation_strategies/cliffords_r_simulation_strategy.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index d4b9584..042ad5c 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -123,7 +123,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
+        outcomes_of_interest = {tuple(o) for o in outcomes_of_interest}
 
         outcomes_probabilities: dict = {}
 
-- 
2.43.0


From 7bbd4f7cfdce6f780ad2cb3e863cc7f86045c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:20 +0000
Subject: [PATCH 23/25] fix: count samples for every occurrence of a listed
 outcome

---
 .../bs_sample_based_distribution_calculator.py                   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 0ba92ab..783154d 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -100,7 +100,6 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
                     asarray(sample) == possible_outcomes[j]
                 ):  # Expect all elements of resultant list to be True.
                     outcomes_probabilities[j] += 1
-                    break
 
         outcomes_probabilities = outcomes_probabilities / samples_number
 
-- 
2.43.0


From ce9f39fe3c6cf1a0e536e9e5d72d083cecbd3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:20 +0000
Subject: [PATCH 24/25] fix: do not sample impossible outcomes that rounding
 gave a tiny probability

---
 .../generalized_cliffords_b_simulation_strategy.py         | 4 ++++
 .../generalized_cliffords_simulation_strategy.py           | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_simulation_strategy.py
index 36a4eaf..a7b1f56 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_simulation_strategy.py
@@ -88,6 +88,10 @@ class GeneralizedCliffordsBSimulationStrategy(GeneralizedCliffordsSimulationStra
 
             self.pmf.append(abs(permanent) ** 2)
 
+        # Rounding errors may give impossible outcomes a tiny probability.
+        negligible_value = 1e-25 * max(self.pmf)
+        self.pmf = [val if val > negligible_value else 0 for val in self.pmf]
+
         total = sum(self.pmf)
         self.pmf = [val / total for val in self.pmf]
 
diff --git a/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
index 20e8004..662dd10 100644
--- a/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_simulation_strategy.py
@@ -255,9 +255,14 @@ class GeneralizedCliffordsSimulationStrategy(SimulationStrategyInterface):
             self.pmfs[self.current_key]
         )  # PMFs are not normalized.
         current_probability = 0
+        # Rounding errors may give impossible outcomes a tiny probability.
+        negligible_probability = 1e-25 * max(self.pmfs[self.current_key])
         for probability in self.pmfs[self.current_key]:
             current_probability += probability
-            if current_probability > random_value:
+            if (
+                current_probability > random_value
+                and probability > negligible_probability
+            ):
                 break
             sample_index += 1
 
-- 
2.43.0


From 860441e8a18707dcf710faea61edb3d5149a8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:41 +0000
Subject: [PATCH 25/25] fix: missing values do not count as probabilities of
 the distribution computed so far

---
 ...cliffords_uniform_losses_simulation_strategy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index d6449ba..0f77581 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -97,7 +97,10 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         self._initialize_simulation(input_state)
 
-        while not isclose(max(accuracy - sum(self.distribution), 0), 0):
+        # The missing values should not be taken into account.
+        while not isclose(
+            max(accuracy - sum(p for p in self.distribution if p > 0), 0), 0
+        ):
             self._fill_r_sample()
 
         return self.distribution
@@ -115,8 +118,15 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         self._initialize_simulation(input_state)
 
+        # The missing values should not be taken into account.
         while not isclose(
-            max(accuracy - sum(self.unweighted_distribution) / sum(input_state), 0), 0
+            max(
+                accuracy
+                - sum(p for p in self.unweighted_distribution if p > 0)
+                / sum(input_state),
+                0,
+            ),
+            0,
         ):
             self._fill_r_sample()
 
-- 
2.43.0

