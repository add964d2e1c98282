From e4f52e05448711c3db7e526e5f6d63cbfbb7e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 01/49] fix: reject information sets with repeated or
 out-of-range positions

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From 0ce1d28a98fe9879b3d12550fefb4073b79d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/49] fix: honour width=0 in BinaryPolynomial.coefficients
 (rate-1 cyclic codes)

---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..fdcb3af 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From f9a353e30ba60b0b7b0ad48388eac8fd5578d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/49] fix: coset leaders of codes without redundancy (endless
 loop)

---
 src/komm/_error_control_block/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..f5a58c2 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -198,6 +198,8 @@ class BlockCode(ABC):
         count = 1
         syndromes = [0]
         leaders = np.zeros((2**m, n), dtype=int)
+        if m == 0:
+            return leaders
         pbar = tqdm(
             total=2**m,
             desc="Generating coset leaders",
@@ -239,6 +241,9 @@ class BlockCode(ABC):
         syndromes = [0]
         weight = 0
         distribution = np.zeros(n + 1, dtype=int)
+        if m == 0:
+            distribution[0] = 1
+            return distribution
         pbar = tqdm(
             total=2**m,
             desc="Computing coset leader weight distribution",
-- 
2.43.0


From 21fa738653df6650df7e82c1f567167b5bf431da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 04/49] fix: syndromes of non-systematic cyclic codes must
 match their check matrix

---
 src/komm/_error_control_block/CyclicCode.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..387c6bb 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -207,16 +207,7 @@ class CyclicCode(abc.BlockCode):
             See [`BlockCode.check`](/ref/BlockCode#check) for examples.
             </span>
         """
-
-        @blockwise(self.length)
-        @vectorize
-        def check(r: npt.NDArray[np.integer]) -> npt.NDArray[np.integer]:
-            r_poly = BinaryPolynomial.from_coefficients(r)
-            s_poly = r_poly % self.generator_polynomial
-            s = s_poly.coefficients(width=self.redundancy)
-            return s
-
-        return check(input)
+        return super().check(input)
 
     @cache
     def codewords(self) -> Array2D[np.integer]:
-- 
2.43.0


From 948639078fe72dc0a22af9c7d89f06160addba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/49] fix: Mealy machines with several edges between the same
 two states

Viterbi, streaming Viterbi and forward-backward identified an edge by its pair of
end states, so that machines in which two inputs lead to the same next state gave
wrong inputs and posteriors. The streaming version also took its decision from the
survivor of the wrong state.
---
 .../_finite_state_machine/MealyMachine.py     | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..114f223 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -1,7 +1,7 @@
 from collections.abc import Callable
 from functools import cached_property
 from itertools import product
-from typing import Any, TypedDict
+from typing import Any, NotRequired, TypedDict
 
 import numpy as np
 import numpy.typing as npt
@@ -10,6 +10,7 @@ import numpy.typing as npt
 class MetricMemory(TypedDict):
     paths: npt.NDArray[np.integer]
     metrics: npt.NDArray[np.floating]
+    inputs: NotRequired[npt.NDArray[np.integer]]
 
 
 class MealyMachine:
@@ -211,6 +212,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +220,21 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
@@ -257,19 +260,26 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         input_hat = np.empty(L, dtype=int)
+        # Inputs along each survivor (needed since states may be joined by more than one edge)
+        paths = memory["paths"]
+        memory.setdefault("inputs", self.input_edges[paths[:, :-1], paths[:, 1:]])
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
+                        inputs[s1] = x
 
             s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
-            input_hat[t] = self.input_edges[s0, s1]
+            new_inputs = np.column_stack((memory["inputs"][choices], inputs))
+            input_hat[t] = new_inputs[s_star, 0]
+            memory["inputs"] = new_inputs[:, 1:]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
@@ -318,7 +328,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
-        log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
+        log_gamma = np.full((L, num_states, num_input_symbols), fill_value=-np.inf)
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
 
@@ -329,19 +339,20 @@ class MealyMachine:
 
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
-                y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                y = self.outputs[s0, x]
+                log_gamma[t, s0, x] = log_input_priors[t, x] + metric_function(y, z)
 
         for t in range(0, L - 1):
             for s1 in range(num_states):
+                s0, x = np.nonzero(self.transitions == s1)
                 log_alpha[t + 1, s1] = np.logaddexp.reduce(
-                    log_gamma[t, :, s1] + log_alpha[t, :]
+                    log_gamma[t, s0, x] + log_alpha[t, s0]
                 )
 
         for t in range(L - 1, -1, -1):
             for s0 in range(num_states):
                 log_beta[t, s0] = np.logaddexp.reduce(
-                    log_gamma[t, s0, :] + log_beta[t + 1, :]
+                    log_gamma[t, s0, :] + log_beta[t + 1, self.transitions[s0]]
                 )
 
         log_input_posteriors = np.empty((L, num_input_symbols), dtype=float)
@@ -351,7 +362,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_gamma[t, s0, x] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From 46f4b214f6c6a1ef987b681738413881ed340fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 06/49] fix: zero-terminated codes built on memoryless encoders
 (no tail)

---
 .../TerminatedConvolutionalCode.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..e492160 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -244,6 +244,8 @@ class ZeroTermination(TerminationStrategy):
         μ = self.convolutional_code.memory_order
         σ = self.convolutional_code.degree
         A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        if μ == 0:  # No tail is needed.
+            return np.zeros((B_mat.shape[0] * h, 0), dtype=int)
         A_pow = [np.eye(σ, dtype=int)]
         for _ in range(1, h + μ):
             A_pow.append((A_pow[-1] @ A_mat) % 2)
@@ -269,8 +271,7 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[:, 0][: self.num_blocks]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +284,7 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: self.num_blocks]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From fc01475514277553e9b263d85410f82f0abe38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 07/49] fix: order of the bits in the output of the BCJR
 decoder for k >= 2

---
 src/komm/_error_control_decoders/BCJRDecoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index d82c526..f309700 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -82,8 +82,9 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
                 final_state_distribution=self._final_state_distribution,
             )
             symbol_posteriors = self._post_process_output(symbol_posteriors)
-            lo = self._labeling.marginalize(symbol_posteriors).reshape(-1)
-            return lo
+            lo = self._labeling.marginalize(symbol_posteriors)
+            # Input symbols are LSB-first, whereas the labeling is MSB-first.
+            return lo[:, ::-1].reshape(-1)
 
         output = decode(input)
         if self.output_type == "hard":
-- 
2.43.0


From 977a654e7db3ec6f556875b466c97d7d7004ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 08/49] fix: Viterbi and BCJR decoding of zero-terminated codes
 whose tail is not unique

The decoders searched over all input sequences driving the encoder to the zero state,
including sequences that the encoder never uses as tail (possible for k >= 2).
---
 .../TerminatedConvolutionalCode.py            | 70 ++++++++++---------
 .../_error_control_decoders/BCJRDecoder.py    | 11 ++-
 .../_error_control_decoders/ViterbiDecoder.py |  8 ++-
 .../_finite_state_machine/MealyMachine.py     |  5 ++
 4 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index e492160..998325f 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -8,6 +8,7 @@ import numpy.typing as npt
 from numpy.linalg import matrix_power
 
 from .. import abc
+from .._util.bit_operations import bits_to_int, int_to_bits
 from .._util.decorators import blockwise, vectorize
 from .._util.matrices import null_matrix, pseudo_inverse
 from ..types import Array1D, Array2D
@@ -187,6 +188,10 @@ class TerminationStrategy(ABC):
     @abstractmethod
     def codeword_length(self) -> int: ...
 
+    def tail_outputs(self) -> npt.NDArray[np.integer]:
+        # Outputs of the tail that follows the information blocks, for each state.
+        return np.zeros((2**self.convolutional_code.degree, 0), dtype=int)
+
     @abstractmethod
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
@@ -197,11 +202,6 @@ class TerminationStrategy(ABC):
         self, num_states: int
     ) -> tuple[npt.NDArray[np.floating], npt.NDArray[np.floating]]: ...
 
-    @abstractmethod
-    def bcjr_post_process_output(
-        self, posteriors: npt.NDArray[np.floating]
-    ) -> npt.NDArray[np.floating]: ...
-
 
 class DirectTruncation(TerminationStrategy):
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
@@ -230,28 +230,42 @@ class DirectTruncation(TerminationStrategy):
         final_distribution = np.ones(num_states) / num_states
         return initial_distribution, final_distribution
 
-    def bcjr_post_process_output(
-        self, posteriors: npt.NDArray[np.floating]
-    ) -> npt.NDArray[np.floating]:
-        return posteriors
-
 
 class ZeroTermination(TerminationStrategy):
     @cached_property
-    def _tail_projector(self) -> npt.NDArray[np.integer]:
-        # See [WBR01, eq. (3)]. Set x_0 = x_t = 0, and t = h + μ.
-        h = self.num_blocks
+    def _tail_multiplier(self) -> npt.NDArray[np.integer]:
+        # See [WBR01, eq. (3)]. Set x_t = 0, and t = μ.
         μ = self.convolutional_code.memory_order
         σ = self.convolutional_code.degree
         A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
         if μ == 0:  # No tail is needed.
-            return np.zeros((B_mat.shape[0] * h, 0), dtype=int)
-        A_pow = [np.eye(σ, dtype=int)]
-        for _ in range(1, h + μ):
-            A_pow.append((A_pow[-1] @ A_mat) % 2)
-        M_info = np.vstack([B_mat @ A_pow[j] % 2 for j in range(h + μ - 1, μ - 1, -1)])
-        M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
-        return M_info @ pseudo_inverse(M_tail) % 2
+            return np.zeros((σ, 0), dtype=int)
+        M_tail = np.vstack([
+            B_mat @ matrix_power(A_mat, j) % 2 for j in range(μ - 1, -1, -1)
+        ])
+        return matrix_power(A_mat, μ) @ pseudo_inverse(M_tail) % 2
+
+    @cached_property
+    def _tail_projector(self) -> npt.NDArray[np.integer]:
+        h = self.num_blocks
+        A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        M_info = np.vstack([
+            B_mat @ matrix_power(A_mat, j) % 2 for j in range(h - 1, -1, -1)
+        ])
+        return M_info @ self._tail_multiplier % 2
+
+    def tail_outputs(self) -> npt.NDArray[np.integer]:
+        μ = self.convolutional_code.memory_order
+        σ = self.convolutional_code.degree
+        n0 = self.convolutional_code.num_output_bits
+        outputs = np.zeros((2**σ, μ), dtype=int)
+        for s in range(2**σ):
+            state = int_to_bits(s, width=σ)
+            v, _ = self.convolutional_code.encode_with_state(
+                input=state @ self._tail_multiplier % 2, initial_state=state
+            )
+            outputs[s] = [bits_to_int(b) for b in v.reshape(μ, n0)]
+        return outputs
 
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         input = np.asarray(input)
@@ -271,21 +285,18 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        x_hat = xs_hat[:, 0][: self.num_blocks]
+        s_hat = np.argmin(final_metrics)
+        x_hat = xs_hat[:, s_hat]
         return x_hat
 
     def bcjr_initial_final_distributions(
         self, num_states: int
     ) -> tuple[npt.NDArray[np.floating], npt.NDArray[np.floating]]:
+        # The final state is the one before the tail.
         initial_distribution = np.eye(1, num_states, 0)
-        final_distribution = np.eye(1, num_states, 0)
+        final_distribution = np.ones(num_states) / num_states
         return initial_distribution, final_distribution
 
-    def bcjr_post_process_output(
-        self, posteriors: npt.NDArray[np.floating]
-    ) -> npt.NDArray[np.floating]:
-        return posteriors[: self.num_blocks]
-
 
 class TailBiting(TerminationStrategy):
     @cached_property
@@ -319,8 +330,3 @@ class TailBiting(TerminationStrategy):
         self, num_states: int
     ) -> tuple[npt.NDArray[np.floating], npt.NDArray[np.floating]]:
         raise NotImplementedError
-
-    def bcjr_post_process_output(
-        self, posteriors: npt.NDArray[np.floating]
-    ) -> npt.NDArray[np.floating]:
-        raise NotImplementedError
diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index f309700..cfdcaa0 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -45,7 +45,7 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         self._initial_state_distribution, self._final_state_distribution = (
             self.code.strategy.bcjr_initial_final_distributions(num_states)
         )
-        self._post_process_output = self.code.strategy.bcjr_post_process_output
+        self._tail_outputs = self.code.strategy.tail_outputs()
         self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
         self._labeling = NaturalLabeling(k)
 
@@ -70,18 +70,23 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             array([1, 1, 0])
         """
         n = self.code.convolutional_code.num_output_bits
+        h = self.code.num_blocks
 
         @blockwise(self.code.length)
         @vectorize
         @with_pbar(get_pbar(np.size(input) // self.code.length, "BCJR"))
         def decode(li: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
+            z = li.reshape(-1, n)
             symbol_posteriors = self._fsm.forward_backward(
-                observed=li.reshape(-1, n),
+                observed=z[:h],
                 metric_function=self._metric_function,
                 initial_state_distribution=self._initial_state_distribution,
                 final_state_distribution=self._final_state_distribution,
+                final_state_metrics=[
+                    sum(map(self._metric_function, ys, z[h:]))
+                    for ys in self._tail_outputs
+                ],
             )
-            symbol_posteriors = self._post_process_output(symbol_posteriors)
             lo = self._labeling.marginalize(symbol_posteriors)
             # Input symbols are LSB-first, whereas the labeling is MSB-first.
             return lo[:, ::-1].reshape(-1)
diff --git a/src/komm/_error_control_decoders/ViterbiDecoder.py b/src/komm/_error_control_decoders/ViterbiDecoder.py
index 3762147..c44f466 100644
--- a/src/komm/_error_control_decoders/ViterbiDecoder.py
+++ b/src/komm/_error_control_decoders/ViterbiDecoder.py
@@ -42,6 +42,7 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         else:
             raise ValueError("input_type must be 'hard' or 'soft'")
         self._fsm = self.code.convolutional_code.finite_state_machine()
+        self._tail_outputs = self.code.strategy.tail_outputs()
         self._post_process_output = self.code.strategy.viterbi_post_process_output
         n = self.code.convolutional_code.num_output_bits
         self._cache_bit = int_to_bits(range(2**n), width=n)
@@ -73,16 +74,21 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         """
         k = self.code.convolutional_code.num_input_bits
         n = self.code.convolutional_code.num_output_bits
+        h = self.code.num_blocks
 
         @blockwise(self.code.length)
         @vectorize
         @with_pbar(get_pbar(np.size(input) // self.code.length, "Viterbi"))
         def decode(r: npt.NDArray[np.integer]):
+            z = r.reshape(-1, n)
             xs_hat, final_metrics = self._fsm.viterbi(
-                observed=r.reshape(-1, n),
+                observed=z[:h],
                 metric_function=self._metric_function,
                 initial_metrics=self._initial_metrics,
             )
+            final_metrics += [
+                sum(map(self._metric_function, ys, z[h:])) for ys in self._tail_outputs
+            ]
             x_hat = self._post_process_output(xs_hat, final_metrics)
             u_hat = int_to_bits(x_hat, width=k).ravel()
             return u_hat
diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index 114f223..acf099f 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -299,6 +299,7 @@ class MealyMachine:
         input_priors: npt.ArrayLike | None = None,
         initial_state_distribution: npt.ArrayLike | None = None,
         final_state_distribution: npt.ArrayLike | None = None,
+        final_state_metrics: npt.ArrayLike | None = None,
     ) -> npt.NDArray[np.floating]:
         r"""
         Applies the forward-backward algorithm on a given observed sequence. The forward-backward algorithm computes the posterior pmf of each input $x_0, x_1, \ldots, x_{L-1} \in \mathcal{X}$ given an observed sequence $z = (z_0, z_1, \ldots, z_{L-1}) \in \mathcal{Z}^L$. The prior pmf of each input may also be provided. See <cite>LC04, 12.6</cite>.
@@ -314,6 +315,8 @@ class MealyMachine:
 
             final_state_distribution: The pmf of the final state of the machine. It must be a 1D-array of length $|\mathcal{S}|$. The default value is uniform over all states.
 
+            final_state_metrics: Additional metrics of the final state of the machine (logarithms of the likelihoods of further observations given the final state). It must be a 1D-array of length $|\mathcal{S}|$. The default value is `0.0` for all states.
+
         Returns:
             input_posteriors: The posterior pmf of each input, given the observed sequence, of shape $L \times |\mathcal{X}|$. The element in row $t \in [0 : L)$ and column $x \in \mathcal{X}$ is $p(x_t = x \mid z)$.
         """
@@ -336,6 +339,8 @@ class MealyMachine:
             log_input_priors = np.log(input_priors)
             log_alpha[0, :] = np.log(initial_state_distribution)
             log_beta[L, :] = np.log(final_state_distribution)
+        if final_state_metrics is not None:
+            log_beta[L, :] += final_state_metrics
 
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
-- 
2.43.0


From 6bd67f3cf2ba5a4986c7a96d39eb02bb5e1289ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 09/49] fix: free distance of catastrophic encoders

A finite-weight output sequence need not drive the encoder back to the zero state.
---
 src/komm/_error_control_convolutional/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_convolutional/base.py b/src/komm/_error_control_convolutional/base.py
index 9ecfff9..100f003 100644
--- a/src/komm/_error_control_convolutional/base.py
+++ b/src/komm/_error_control_convolutional/base.py
@@ -183,11 +183,18 @@ class ConvolutionalCode(ABC):
         Returns the *free distance* $d_\mathrm{free}$ of the code. This is equal to the minimum Hamming weight among all possible non-zero output sequences.
         """
         fsm = self.finite_state_machine()
+        # States from which the output may be zero forever (only 0 if non-catastrophic).
+        silent = np.ones(fsm.num_states, dtype=bool)
+        while True:
+            keep = np.any((fsm.outputs == 0) & silent[fsm.transitions], axis=1)
+            if np.array_equal(keep, silent):
+                break
+            silent = keep
         heap = [(0, 0)]  # (weight, state)
         best = [np.inf] * fsm.num_states
         while heap:
             w, s = heappop(heap)
-            if s == 0 and w > 0:
+            if silent[s] and w > 0:
                 return int(w)
             for x in range(fsm.num_input_symbols):
                 s1 = fsm.transitions[s][x]
@@ -195,8 +202,8 @@ class ConvolutionalCode(ABC):
                 if w1 < best[s1]:
                     best[s1] = w1
                     heappush(heap, (w1, s1))
-                elif s1 == 0 and w1 > 0:
-                    heappush(heap, (w1, 0))
+                elif silent[s1] and w1 > 0:
+                    heappush(heap, (w1, s1))
         raise RuntimeError
 
     @abstractmethod
-- 
2.43.0


From 3ce5ca0d268758ef79b37f5269f628e13cad7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 10/49] fix: high-rate convolutional encoders of degree zero

---
 .../HighRateConvolutionalCode.py                           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..48c6c1d 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -201,6 +201,13 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
                    [0, 0, 1, 1]])
         """
         n, σ = self.num_output_bits, self.degree
+        if σ == 0:  # Memoryless encoder
+            D_mat = np.eye(n - 1, n, dtype=int)
+            D_mat[:, -1] = [p.coefficients(1)[0] for p in self.h_row[:-1]]
+            A_mat, B_mat, C_mat = (
+                np.zeros(shape, dtype=int) for shape in [(0, 0), (n - 1, 0), (0, n)]
+            )
+            return A_mat, B_mat, C_mat, D_mat
         beta = np.array([p.coefficients(σ + 1) for p in self.h_row[:-1]])
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
-- 
2.43.0


From d427ea5f6cc0c3417ec28809421fde10e7eb766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 11/49] fix: invariant factors must divide one another
 (is_catastrophic of k >= 2 encoders)

---
 src/komm/_util/matrices.py | 81 ++++++++++++++------------------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..1103757 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -210,60 +210,37 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     if np.all(matrix == 0):
         return []
 
-    # E1: Find entry of least size and move it to position (0,0)
-    i0, j0, d0, a0 = -1, -1, np.inf, BP(0b0)
-    for i, j in product(range(k), range(n)):
-        a = BP(matrix[i, j])
-        if a == 0b0:
-            continue
-        d = a.degree
-        if d < d0:
-            i0, j0, d0, a0 = i, j, d, a
-    matrix[0, :], matrix[i0, :] = matrix[i0, :].copy(), matrix[0, :].copy()
-    matrix[:, 0], matrix[:, j0] = matrix[:, j0].copy(), matrix[:, 0].copy()
-
-    # E2a
-    done = False
-    while not done:
-        done = True
-        for j in range(1, n):
-            a = BP(matrix[0, j])
-            if a == 0:
+    while True:
+        # E1: Find entry of least size and move it to position (0,0)
+        i0, j0, d0, a0 = -1, -1, np.inf, BP(0b0)
+        for i, j in product(range(k), range(n)):
+            a = BP(matrix[i, j])
+            if a == 0b0:
                 continue
-            q, r = divmod(a, a0)
-            if r != 0:
-                a0 = r
-                for i in range(k):
-                    matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-                matrix[:, 0], matrix[:, j] = matrix[:, j].copy(), matrix[:, 0].copy()
-                done = False
-                break
-    # E2b
-    done = False
-    while not done:
-        done = True
+            d = a.degree
+            if d < d0:
+                i0, j0, d0, a0 = i, j, d, a
+        matrix[0, :], matrix[i0, :] = matrix[i0, :].copy(), matrix[0, :].copy()
+        matrix[:, 0], matrix[:, j0] = matrix[:, j0].copy(), matrix[:, 0].copy()
+
+        # E2: Reduce first row and first column modulo a0
+        for j in range(1, n):
+            q = BP(matrix[0, j]) // a0
+            for i in range(k):
+                matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
         for i in range(1, k):
-            a = BP(matrix[i, 0])
-            if a == 0:
-                continue
-            q, r = divmod(a, a0)
-            if r != 0:
-                a0 = r
-                for j in range(n):
-                    matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
-                matrix[0, :], matrix[i, :] = matrix[i, :].copy(), matrix[0, :].copy()
-                done = False
-                break
+            q = BP(matrix[i, 0]) // a0
+            for j in range(n):
+                matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
+        if np.any(matrix[0, 1:]) or np.any(matrix[1:, 0]):
+            continue
 
-    # E3a
-    for j in range(1, n):
-        q = BP(matrix[0, j]) // a0
-        for i in range(k):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
-    # E3b
-    for i in range(1, k):
-        q = BP(matrix[i, 0]) // a0
-        for j in range(n):
-            matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
+        # E3: Make sure that a0 divides all the remaining entries
+        for i, j in product(range(1, k), range(1, n)):
+            if BP(matrix[i, j]) % a0 != 0:
+                matrix[0, :] ^= matrix[i, :]
+                break
+        else:
+            break
 
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 541cee92da07ec327f128801f1f4b2b75771c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 12/49] fix: refuse tail-biting when no unique closing state
 exists

---
 .../TerminatedConvolutionalCode.py                     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 998325f..4cdf2da 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -10,7 +10,7 @@ from numpy.linalg import matrix_power
 from .. import abc
 from .._util.bit_operations import bits_to_int, int_to_bits
 from .._util.decorators import blockwise, vectorize
-from .._util.matrices import null_matrix, pseudo_inverse
+from .._util.matrices import null_matrix, pseudo_inverse, rank
 from ..types import Array1D, Array2D
 
 TerminationMode = Literal["direct-truncation", "zero-termination", "tail-biting"]
@@ -305,7 +305,13 @@ class TailBiting(TerminationStrategy):
         h = self.num_blocks
         σ = self.convolutional_code.degree
         A_mat, _, _, _ = self.convolutional_code.state_space_representation()
-        return pseudo_inverse((matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2)
+        M_mat = (matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2
+        if rank(M_mat) < σ:
+            raise ValueError(
+                "tail-biting is not possible for this encoder with 'num_blocks' equal"
+                f" to {h} (no unique initial state equal to the final state)"
+            )
+        return pseudo_inverse(M_mat)
 
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         return np.asarray(input)
-- 
2.43.0


From c8249a337cc9fd04cd19a94a48359200daead964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 13/49] fix: filling of the stream Viterbi decoder before the
 delay has elapsed

It was the label of the 0-0 edge, which need not be zero when there are parallel edges.
---
 src/komm/_error_control_convolutional/ViterbiStreamDecoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
index f6a9134..38a924f 100644
--- a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
+++ b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
@@ -33,6 +33,7 @@ class ViterbiStreamDecoder:
         self.memory: MetricMemory = {
             "paths": np.zeros((num_states, traceback_length + 1), dtype=int),
             "metrics": np.full((num_states, traceback_length + 1), fill_value=np.inf),
+            "inputs": np.zeros((num_states, traceback_length), dtype=int),
         }
         self.memory["metrics"][self.state, -1] = 0.0
 
-- 
2.43.0


From 45e18c83941988e5bb334616813ffb03c70ba82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 14/49] fix: reject empty codewords in fixed-to-variable codes

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..9893045 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -51,7 +51,9 @@ class FixedToVariableCode:
             raise ValueError("'source_block_size' must be at least 1")
         if set(domain) != set(product(range(calX), repeat=k)):
             raise ValueError("'enc_mapping': invalid domain")
-        if not all(all(0 <= x < calY for x in word) for word in codomain):
+        if not all(
+            all(0 <= x < calY for x in word) and len(word) > 0 for word in codomain
+        ):
             raise ValueError("'enc_mapping': invalid co-domain")
 
     def __repr__(self) -> str:
-- 
2.43.0


From cbed47238aa79b210068a763a86fd1fa7017e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 15/49] fix: Tunstall codes must use all the codewords that fit
 in the block

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..860c786 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # Largest K such that S + K(S - 1) <= 2^n
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From d7e7270cbd2b805d44baa891e008d43ba7765927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 16/49] fix: LZ77 and LZSS for source alphabets with more than
 256 symbols

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 4 ++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..29b1d0e 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -105,7 +105,7 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -117,7 +117,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, buffer[i + l]))
+            tokens.append((p, l, ord(buffer[i + l])))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..b325b34 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -121,7 +121,7 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -138,7 +138,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, buffer[i]))
+                tokens.append((0, ord(buffer[i])))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From 076650d36ab93ca3d554ea3dfc2ad67c8ad319ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 17/49] fix: exact word widths in the Lempel-Ziv codes
 (rounding of logarithms)

---
 src/komm/_lossless_coding/LempelZiv77Code.py    | 10 ++++------
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  9 +++++++++
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 29b1d0e..c95f17c 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,9 @@
-from math import ceil, log
-
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int, int]
 
@@ -84,9 +82,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..33dd42b 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = ceil_log(i + 1, calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = ceil_log(len(tokens) + 1, calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index b325b34..830395b 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..6639e78 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = ceil_log(calX, calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = ceil_log(len(dictionary) + 1, calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..c1eaae5 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -177,6 +177,15 @@ def canonical_code(lengths: npt.ArrayLike, base: int = 2) -> list[Word]:
     return codewords
 
 
+def ceil_log(value: int, base: int) -> int:
+    # Exact version of ceil(log(value, base)), for which rounding errors may add 1.
+    exponent, power = 0, 1
+    while power < value:
+        power *= base
+        exponent += 1
+    return exponent
+
+
 def integer_to_symbols(integer: int, base: int, width: int) -> Word:
     symbols: list[int] = []
     for _ in range(width):
-- 
2.43.0


From e47babe7b1d8651f3f002c00d3324e90d6555d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 18/49] fix: elements of finite fields must be reduced modulo
 the modulus

---
 src/komm/_algebra/FiniteBifield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_algebra/FiniteBifield.py b/src/komm/_algebra/FiniteBifield.py
index f7dabda..a2806ea 100644
--- a/src/komm/_algebra/FiniteBifield.py
+++ b/src/komm/_algebra/FiniteBifield.py
@@ -179,7 +179,7 @@ class FiniteBifield:
             raise ValueError("'modulus' must be an irreducible polynomial")
 
     def __call__(self, value: int | BinaryPolynomial) -> FiniteBifieldElement[Self]:
-        return FiniteBifieldElement(self, value)
+        return FiniteBifieldElement(self, BinaryPolynomial(value) % self.modulus)
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From ba0ef0cf26f4232fe46bea75b60db466f54a9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 19/49] fix: validate labeling matrices, and indices and bits
 of natural and reflected labelings

---
 src/komm/_labelings/Labeling.py          | 2 +-
 src/komm/_labelings/NaturalLabeling.py   | 4 ++++
 src/komm/_labelings/ReflectedLabeling.py | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/komm/_labelings/Labeling.py b/src/komm/_labelings/Labeling.py
index 6ec3957..32840e7 100644
--- a/src/komm/_labelings/Labeling.py
+++ b/src/komm/_labelings/Labeling.py
@@ -19,7 +19,7 @@ class Labeling(abc.Labeling):
         M, m = matrix.shape
         if M != 2**m:
             raise ValueError(f"shape of 'matrix' must be (2**m, m) (got ({M}, {m}))")
-        if np.any(matrix < 0) or np.any(matrix > 1):
+        if not np.all(np.isin(matrix, [0, 1])):
             raise ValueError("elements of 'matrix' must be either 0 or 1")
         if len(set(tuple(row) for row in matrix)) != M:
             raise ValueError("rows of 'matrix' must be distinct")
diff --git a/src/komm/_labelings/NaturalLabeling.py b/src/komm/_labelings/NaturalLabeling.py
index 6971a38..5e178a9 100644
--- a/src/komm/_labelings/NaturalLabeling.py
+++ b/src/komm/_labelings/NaturalLabeling.py
@@ -83,6 +83,8 @@ class NaturalLabeling(abc.Labeling):
         """
         m = self._num_bits
         indices = np.asarray(indices, dtype=int)
+        if not (np.all(indices >= 0) and np.all(indices < 1 << m)):
+            raise ValueError(f"elements of 'index' must be in [0:{1 << m})")
         bits = int_to_bits(indices, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -98,6 +100,8 @@ class NaturalLabeling(abc.Labeling):
         """
         m = self._num_bits
         bits = np.asarray(bits, dtype=int)
+        if not np.all(np.isin(bits, [0, 1])):
+            raise ValueError("elements of 'bits' must be either 0 or 1")
         indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = cast(npt.NDArray[np.integer], indices)
         return indices.reshape(*bits.shape[:-1], -1)
diff --git a/src/komm/_labelings/ReflectedLabeling.py b/src/komm/_labelings/ReflectedLabeling.py
index 744337e..ecc0cbd 100644
--- a/src/komm/_labelings/ReflectedLabeling.py
+++ b/src/komm/_labelings/ReflectedLabeling.py
@@ -82,6 +82,8 @@ class ReflectedLabeling(abc.Labeling):
         """
         m = self._num_bits
         indices = np.asarray(indices, dtype=int)
+        if not (np.all(indices >= 0) and np.all(indices < 1 << m)):
+            raise ValueError(f"elements of 'index' must be in [0:{1 << m})")
         bits = int_to_bits(indices ^ indices >> 1, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -97,6 +99,8 @@ class ReflectedLabeling(abc.Labeling):
         """
         m = self._num_bits
         bits = np.asarray(bits, dtype=int)
+        if not np.all(np.isin(bits, [0, 1])):
+            raise ValueError("elements of 'bits' must be either 0 or 1")
         nat_indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = np.zeros_like(nat_indices)
         for shift in range(m):
-- 
2.43.0


From eca7d727bf0511df2a085a5e4b896b8f107bd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 20/49] fix: mean of PSK and APSK constellations with a single
 point on a ring

---
 src/komm/_constellations/APSKConstellation.py | 2 +-
 src/komm/_constellations/PSKConstellation.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..aa86c6f 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -131,7 +131,7 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and 1 not in self._orders:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..d096a1d 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -106,7 +106,7 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and self._order > 1:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
@@ -140,6 +140,8 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             1.414213562373095
         """
         M, A = self._order, self._amplitude
+        if M == 1:
+            return super().minimum_distance()
         return 2 * A * sin(pi / M)
 
     def indices_to_symbols(
-- 
2.43.0


From d28547de8988444e1a79ea81a508ecfd386767d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 21/49] fix: reject APSK constellations with parameters of
 different lengths

---
 src/komm/_constellations/APSKConstellation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index aa86c6f..1cdeec1 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -62,6 +62,10 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             self._phase_offsets = phase_offsets
         else:
             self._phase_offsets = (phase_offsets,) * len(orders)
+        if not len(orders) == len(amplitudes) == len(self._phase_offsets):
+            raise ValueError(
+                "'orders', 'amplitudes', and 'phase_offsets' must have the same length"
+            )
 
     def __repr__(self) -> str:
         args = ", ".join([
-- 
2.43.0


From 31813a40966a7ef390cc9e51091c098e11bff6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 22/49] fix: minimum distance of QAM constellations with a
 single row or column

---
 src/komm/_constellations/QAMConstellation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_constellations/QAMConstellation.py b/src/komm/_constellations/QAMConstellation.py
index 53e686f..2f4588e 100644
--- a/src/komm/_constellations/QAMConstellation.py
+++ b/src/komm/_constellations/QAMConstellation.py
@@ -175,7 +175,8 @@ class QAMConstellation(abc.Constellation[np.complexfloating]):
             >>> const.minimum_distance()
             2.0
         """
-        return min(self._deltas)
+        deltas = [δ for M, δ in zip(self._orders, self._deltas) if M > 1]
+        return float(min(deltas)) if deltas else super().minimum_distance()
 
     def indices_to_symbols(
         self, indices: npt.ArrayLike
-- 
2.43.0


From a96f8dd337784a1c8c83a93a1b5886233c1a92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 23/49] fix: PSK constellations of small amplitude must not be
 rounded to multiples of 1e-15

---
 src/komm/_constellations/PSKConstellation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index d096a1d..c22e08c 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -68,9 +68,9 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._amplitude, self._phase_offset
         i = np.arange(M).reshape(-1, 1)
-        matrix = A * np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
+        matrix = np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
         # We round to avoid sin(pi) != 0, and add 0.0 to avoid -0.0.
-        return matrix.round(15) + 0.0
+        return A * matrix.round(15) + 0.0
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 699b395f407d83fa3d3128fbe2c46cd86ce81ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 24/49] fix: absorption quantities of Markov chains must list
 the states in increasing order

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From b5346cadc403c1de2b0853c386e72d59b2fc19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 25/49] fix: discrete memoryless channels must treat boolean
 inputs as bits

---
 src/komm/_channels/BinaryErasureChannel.py      | 5 ++---
 src/komm/_channels/BinarySymmetricChannel.py    | 2 +-
 src/komm/_channels/DiscreteMemorylessChannel.py | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..994efc0 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -111,8 +111,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 2, 0, 1, 0, 2, 0])
         """
         epsilon = self.erasure_probability
-        input = np.asarray(input)
-        erasure_pattern = self.rng.random(input.shape) < epsilon
-        output = np.copy(input)
+        output = np.array(input, dtype=int)
+        erasure_pattern = self.rng.random(output.shape) < epsilon
         output[erasure_pattern] = 2
         return output
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..3f1360e 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -112,6 +112,6 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 1, 0, 1, 0, 0, 0])
         """
         p = self.crossover_probability
-        input = np.array(input)
+        input = np.array(input, dtype=int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index 8342b92..7a7645f 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -105,7 +105,7 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
             >>> dmc.transmit([1, 1, 1, 0, 0, 0, 1, 0, 1, 0])
             array([2, 1, 2, 0, 0, 2, 2, 0, 1, 0])
         """
-        input = np.asarray(input)
+        input = np.asarray(input, dtype=int)
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
             output[index] = self.rng.choice(
-- 
2.43.0


From 80f8215ee22f440353ca41f9ec58f845c4605533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 26/49] fix: mutual information of binary channels must reject
 pmfs of other sizes

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 ++
 src/komm/_channels/BinarySymmetricChannel.py | 2 ++
 src/komm/_channels/ZChannel.py               | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 994efc0..b664f9f 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -80,6 +80,8 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             0.7942195631902467
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError(f"size of 'input_pmf' must be 2 (got {input_pmf.size})")
         base = validate_log_base(base)
         base = e if base == "e" else base
         epsilon = self.erasure_probability
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 3f1360e..4ebd62e 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -80,6 +80,8 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             0.2754734936803773
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError(f"size of 'input_pmf' must be 2 (got {input_pmf.size})")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.crossover_probability
diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index b243619..a469128 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -80,6 +80,8 @@ class ZChannel(abc.DiscreteMemorylessChannel):
             0.6099865470109874
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError(f"size of 'input_pmf' must be 2 (got {input_pmf.size})")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.decay_probability
-- 
2.43.0


From c2cac311c128dc9f430d08985b6d88a9cecf2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 27/49] fix: mean squared error of quantizers with thresholds
 outside of the input range

---
 src/komm/_quantization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/base.py b/src/komm/_quantization/base.py
index 52f18c9..877994c 100644
--- a/src/komm/_quantization/base.py
+++ b/src/komm/_quantization/base.py
@@ -75,7 +75,7 @@ class ScalarQuantizer(ABC):
         """
         # See [Say06, eq. (9.3)].
         x_min, x_max = input_range
-        λ = np.concatenate(([x_min], self.thresholds, [x_max]))
+        λ = np.concatenate(([x_min], self.thresholds, [x_max])).clip(x_min, x_max)
         mse = 0.0
         for i, level in enumerate(self.levels):
             x = np.linspace(λ[i], λ[i + 1], num=points_per_interval, dtype=float)
-- 
2.43.0


From 18390358c5ae7837a8c1ce65594a3a4bd7ebdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 28/49] fix: stopping rule of the Lloyd-Max quantizer must
 scale with the input range

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..7efba2e 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old):
+        if np.allclose(y, y_old, atol=1e-9 * (x_max - x_min)):
             break
 
     return y, λ[1:-1]
-- 
2.43.0


From 83c0d41c7cf0467ac73476e84555bf736796ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 29/49] fix: reject LFSR polynomials that do not describe a
 register

---
 src/komm/_sequences_binary/LFSRSequence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/komm/_sequences_binary/LFSRSequence.py b/src/komm/_sequences_binary/LFSRSequence.py
index 959180f..dc74293 100644
--- a/src/komm/_sequences_binary/LFSRSequence.py
+++ b/src/komm/_sequences_binary/LFSRSequence.py
@@ -49,6 +49,14 @@ class LFSRSequence(BinarySequence):
     ) -> None:
         self.feedback_polynomial = BinaryPolynomial(feedback_polynomial)
         self.start_state_polynomial = BinaryPolynomial(start_state_polynomial)
+        if self.feedback_polynomial.degree < 1 or self.feedback_polynomial.value % 2 == 0:
+            raise ValueError(
+                "'feedback_polynomial' must have degree at least 1 and constant term 1"
+            )
+        if self.start_state_polynomial.degree >= self.feedback_polynomial.degree:
+            raise ValueError(
+                "degree of 'start_state_polynomial' must be less than that of 'feedback_polynomial'"
+            )
         super().__init__(
             bit_sequence=lfsr_sequence(
                 self.feedback_polynomial, self.start_state_polynomial
-- 
2.43.0


From 3f609a9e27f03cc8b10aad01dbc5269e638e152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 30/49] fix: bits_to_int of arrays of words of 64 bits or more

---
 src/komm/_util/bit_operations.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 06b78f3..716bb4a 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -1,4 +1,3 @@
-from functools import partial
 from typing import Literal, cast
 
 import numpy as np
@@ -37,12 +36,18 @@ def bits_to_int(
         if bit_order == "LSB-first":
             input = np.asarray(input, dtype=np.uint8)
         elif bit_order == "MSB-first":
-            input = np.flip(input, axis=-1)
+            input = np.flip(np.asarray(input, dtype=np.uint8), axis=-1)
         else:
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
         return int.from_bytes(packed, byteorder="little")
-    return np.apply_along_axis(partial(bits_to_int, bit_order=bit_order), -1, input)
+    input = np.asarray(input)
+    shape, width = input.shape[:-1], input.shape[-1]
+    # Words of 64 bits or more do not fit in the default integer type.
+    output = np.empty(shape, dtype=int if width < 64 else object)
+    for index in np.ndindex(shape):
+        output[index] = bits_to_int(input[index], bit_order=bit_order)
+    return output
 
 
 def int_to_bits(
-- 
2.43.0


From 133bc621a85da73c0ce473966a4fa7be65ba6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 31/49] fix: autocorrelations of sequences of narrow integer
 types overflowed

---
 src/komm/_util/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..a58fd33 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -35,6 +35,8 @@ def autocorrelation(
         array([11., 20., 30., 20., 11.])
     """
     sequence = np.asarray(sequence)
+    if sequence.dtype.kind in "biu":  # Narrow integer types would overflow.
+        sequence = sequence.astype(int)
     seq_conj = np.conj(sequence)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
@@ -76,6 +78,8 @@ def cyclic_autocorrelation(
         array([22., 24., 30., 24., 22.])
     """
     sequence = np.asarray(sequence)
+    if sequence.dtype.kind in "biu":  # Narrow integer types would overflow.
+        sequence = sequence.astype(int)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
     acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
     energy = np.dot(sequence, sequence.conj())
-- 
2.43.0


From 28a6f2e3e37b5e4455143bc184701fe88065bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 32/49] fix: entropy of pmfs with subnormal probabilities

---
 src/komm/_util/information_theory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index d185a7d..39a766e 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -42,13 +42,13 @@ def entropy(pmf: npt.ArrayLike, base: float | Literal["e"] = 2.0) -> float:
     pmf = validate_pmf(pmf)
     validate_log_base(base)
     pmf = pmf[pmf > 0]
-    # We compute log(1/p) rather than -log(p) to avoid -0.0.
+    # We compute -log(p) rather than log(1/p), since 1/p may overflow; and add 0.0 to avoid -0.0.
     if base == "e":
-        log_recip_pmf = np.log(1 / pmf)
+        log_recip_pmf = -np.log(pmf) + 0.0
     elif base == 2.0:
-        log_recip_pmf = np.log2(1 / pmf)
+        log_recip_pmf = -np.log2(pmf) + 0.0
     else:
-        log_recip_pmf = np.log(1 / pmf) / np.log(base)
+        log_recip_pmf = -np.log(pmf) / np.log(base) + 0.0
     return float(np.dot(pmf, log_recip_pmf))
 
 
-- 
2.43.0


From 881e7a5843c18d3a124f7bd4d5f1f95f16ffda97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 33/49] fix: reject rectangular pulses whose width is out of
 range

---
 src/komm/_pulses/RectangularPulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 3520e2f..072d6b5 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -42,6 +42,10 @@ class RectangularPulse(abc.Pulse):
 
     width: float = 1.0
 
+    def __post_init__(self) -> None:
+        if not 0 < self.width <= 1:
+            raise ValueError("'width' must satisfy 0 < width <= 1")
+
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
         For the rectangular pulse, it is given by
-- 
2.43.0


From cf6228c25fa2f0b0c992c5d3ae46cb9ff17a2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 34/49] fix: Marcum Q-function for arguments beyond the first
 hundred terms of the series

---
 src/komm/_util/special_functions.py | 40 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..2ac3f5b 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -1,4 +1,4 @@
-from math import erfc, gamma, sqrt
+from math import erfc, lgamma, sqrt
 from statistics import NormalDist
 
 import numpy as np
@@ -6,8 +6,6 @@ import numpy.typing as npt
 
 norm = NormalDist()
 
-gamma = np.vectorize(gamma)
-
 
 def _gaussian_q(x: float) -> float:
     # Equivalent to `norm.cdf(-x)``, but accurate in the tail for all supported Python versions.
@@ -74,21 +72,27 @@ def gaussian_q_inv(y: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
     return float(result) if np.ndim(result) == 0 else result
 
 
-def _auxiliary_p(
-    m: int, a: float, b: float, max_iter: int = 100, tol: float = 1e-16
-) -> float:
-    # Auxiliary function for the Marcum Q-function
+def _auxiliary_p(m: int, a: float, b: float) -> float:
+    # Auxiliary function for the Marcum Q-function, evaluated as
+    #     Q = sum_j P[J = j] P[K >= j - m + 1],
+    # where J and K are Poisson random variables with means b and m * a, respectively.
+    # The Poisson weights are computed in the log domain (they would overflow), and
+    # the indices where both of them are negligible are left out.
     # See [https://en.wikipedia.org/wiki/Marcum_Q-function].
-    ms = np.arange(m)
-    result = np.sum(np.exp(-b) * (b**ms) / gamma(ms + 1))
-    for i in range(m, max_iter):
-        ks = np.arange(i - m + 1)
-        inner_sum = np.sum(np.exp(-m * a) * ((m * a) ** ks) / gamma(ks + 1))
-        term = np.exp(-b) * (b**i) / gamma(i + 1) * (1 - inner_sum)
-        result += term
-        if abs(term) < tol:
-            break
-    return result
+    low, high = sorted((m * a, b))
+    start = int(max(0, low - 12 * sqrt(low) - 100))
+    stop = int(high + 12 * sqrt(high) + 100) + m
+    ks = np.arange(start, stop)
+    log_factorials = lgamma(max(start, 1)) + np.cumsum(np.log(np.maximum(ks, 1)))
+
+    def poisson_pmf(mean: float) -> npt.NDArray[np.floating]:
+        if mean == 0:
+            return 1.0 * (ks == 0)
+        return np.exp(ks * np.log(mean) - mean - log_factorials)
+
+    survival = np.cumsum(poisson_pmf(m * a)[::-1])[::-1]
+    weights = np.concatenate((np.ones(m), survival[1 : ks.size - m + 1]))
+    return min(1.0, sum(poisson_pmf(b) * weights))
 
 
 def marcum_q(
@@ -122,7 +126,7 @@ def marcum_q(
         raise ValueError("'m' must be positive")
     if not np.all(a >= 0) or not np.all(x >= 0):
         raise ValueError("'a' and 'x' must be non-negative")
-    result = np.vectorize(_auxiliary_p)(m, a**2 / (2 * m), x**2 / 2)
+    result = np.vectorize(_auxiliary_p, otypes=[float])(m, a**2 / (2 * m), x**2 / 2)
     return float(result) if np.ndim(result) == 0 else result
 
 
-- 
2.43.0


From 8732a3b3fe8f1b9f343ac4be5c471f0549c346a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 35/49] fix: box-plus of two infinite L-values, and of narrow
 or unsigned integers

---
 src/komm/_util/special_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 2ac3f5b..bbc04bd 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -159,12 +159,14 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
         >>> komm.boxplus([0, 1, 2], [1, -1, -1])
         array([ 0.        , -0.43378083, -0.73532566])
     """
-    a = np.asarray(a)
-    b = np.asarray(b)
+    a = np.asarray(a, dtype=float)
+    b = np.asarray(b, dtype=float)
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-    p1 = np.exp(-np.abs(a + b))
-    p2 = np.exp(-np.abs(a - b))
+    with np.errstate(invalid="ignore"):
+        # When both inputs are infinite, inf - inf = nan does not matter: s is infinite.
+        p1 = np.exp(-np.nan_to_num(np.abs(a + b)))
+        p2 = np.exp(-np.nan_to_num(np.abs(a - b)))
     result = s + np.log1p(p1) - np.log1p(p2)
     return float(result) if np.ndim(result) == 0 else result
-- 
2.43.0


From cf7889307e3cd3fbae2cf8e03fce92d5b3709141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 36/49] fix: decoders must not depend on the integer type of
 their input

---
 src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py | 2 +-
 src/komm/_error_control_decoders/ReedDecoder.py             | 3 ++-
 src/komm/_error_control_decoders/SyndromeTableDecoder.py    | 2 +-
 src/komm/_error_control_decoders/WagnerDecoder.py           | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index 9c8f2a9..b34e2ec 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -48,7 +48,7 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
             if self.input_type == "hard":
                 ds = r[..., np.newaxis, :] != self._codewords
             else:
-                ds = -r[..., np.newaxis, :] * (-1) ** self._codewords
+                ds = -r[..., np.newaxis, :].astype(float) * (-1) ** self._codewords
             metrics = np.sum(ds, axis=-1)
             v_hat = self._codewords[np.argmin(metrics, axis=-1)]
             u_hat = self.code.project_word(v_hat)
diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..c26a9f3 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -48,7 +48,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
@@ -59,6 +59,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_soft(r: npt.NDArray[np.floating]):
             u_hat = np.empty(self.code.dimension, dtype=int)
+            r = r.astype(float)
             bx = (r < 0).astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
diff --git a/src/komm/_error_control_decoders/SyndromeTableDecoder.py b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
index 1b5b9ad..aa62de6 100644
--- a/src/komm/_error_control_decoders/SyndromeTableDecoder.py
+++ b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
@@ -40,7 +40,7 @@ class SyndromeTableDecoder(abc.BlockDecoder[abc.BlockCode]):
         def decode(r: npt.NDArray[np.integer]):
             s = self.code.check(r)
             e_hat = self._coset_leaders[bits_to_int(s)]
-            v_hat = np.bitwise_xor(r, e_hat)
+            v_hat = np.bitwise_xor(r.astype(int), e_hat)
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
diff --git a/src/komm/_error_control_decoders/WagnerDecoder.py b/src/komm/_error_control_decoders/WagnerDecoder.py
index 9b4a4d2..3c54382 100644
--- a/src/komm/_error_control_decoders/WagnerDecoder.py
+++ b/src/komm/_error_control_decoders/WagnerDecoder.py
@@ -38,7 +38,7 @@ class WagnerDecoder(abc.BlockDecoder[SingleParityCheckCode]):
         def decode(r: npt.NDArray[np.integer]):
             v_hat = (r < 0).astype(int)
             if np.count_nonzero(v_hat) % 2 != 0:
-                i = np.argmin(np.abs(r))
+                i = np.argmin(np.abs(r.astype(float)))
                 v_hat[i] ^= 1
             u_hat = self.code.project_word(v_hat)
             return u_hat
-- 
2.43.0


From c125a939e51237606fb76928893cbda3b799311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 37/49] fix: overflow of narrow integer types in labelings and
 biorthogonal constellations

---
 src/komm/_constellations/BiorthogonalConstellation.py | 2 +-
 src/komm/_labelings/base.py                           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/BiorthogonalConstellation.py b/src/komm/_constellations/BiorthogonalConstellation.py
index d03bd2f..2c05205 100644
--- a/src/komm/_constellations/BiorthogonalConstellation.py
+++ b/src/komm/_constellations/BiorthogonalConstellation.py
@@ -166,7 +166,7 @@ class BiorthogonalConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         N = M // 2
-        received = np.asarray(received)
+        received = np.asarray(received, dtype=float)
         r = received.reshape(-1, N)
         scores = np.concatenate([r, -r], axis=-1)
         indices = np.argmax(scores, axis=-1)
diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 8013741..0122f0c 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -102,7 +102,7 @@ class Labeling(ABC):
             lvalues: The marginalized metrics over the bits of the labeling. Has the same shape as `metrics`, but with the last dimension changed by a factor of $m / 2^m$.
         """
         M = self.cardinality
-        metrics = np.asarray(metrics)
+        metrics = np.asarray(metrics, dtype=float)
         if metrics.shape[-1] % M != 0:
             raise ValueError(
                 "last dimension of 'metrics' must be a multiple of the cardinality"
-- 
2.43.0


From 747de566259a6fe1270e8159e5134eb0104d5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 38/49] fix: pulses at times and frequencies given in narrow
 integer types

---
 src/komm/_pulses/BeaulieuPulse.py     | 2 +-
 src/komm/_pulses/GaussianPulse.py     | 8 ++++----
 src/komm/_pulses/ManchesterPulse.py   | 8 ++++----
 src/komm/_pulses/RaisedCosinePulse.py | 2 +-
 src/komm/_pulses/RectangularPulse.py  | 8 ++++----
 src/komm/_pulses/SincPulse.py         | 8 ++++----
 src/komm/_pulses/util.py              | 6 +++---
 7 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index beb30e5..745240b 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -86,7 +86,7 @@ class BeaulieuPulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         β = 2 * np.log(2) / α
diff --git a/src/komm/_pulses/GaussianPulse.py b/src/komm/_pulses/GaussianPulse.py
index 4614eab..33b5ed4 100644
--- a/src/komm/_pulses/GaussianPulse.py
+++ b/src/komm/_pulses/GaussianPulse.py
@@ -51,7 +51,7 @@ class GaussianPulse(abc.Pulse):
             ... ).round(3)
             array([0.169, 0.367, 0.641, 0.895, 1.   , 0.895, 0.641, 0.367, 0.169])
         """
-        t = np.asarray(t)
+        t = np.asarray(t, dtype=float)
         b_bar = self.half_power_bandwidth / np.sqrt(np.log(2))
         return np.exp(-0.5 * (2 * np.pi * b_bar * t) ** 2)
 
@@ -64,7 +64,7 @@ class GaussianPulse(abc.Pulse):
             ... )).round(3)
             array([0.005, 0.059, 0.332, 0.939, 1.329, 0.939, 0.332, 0.059, 0.005])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         b_bar = self.half_power_bandwidth / np.sqrt(np.log(2))
         spectrum = 1 / (np.sqrt(2 * np.pi) * b_bar) * np.exp(-0.5 * (f / b_bar) ** 2)
         return spectrum.astype(complex)
@@ -93,7 +93,7 @@ class GaussianPulse(abc.Pulse):
             ... ).round(3)
             array([0.386, 0.569, 0.752, 0.889, 0.939, 0.889, 0.752, 0.569, 0.386])
         """
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         b_bar = self.half_power_bandwidth / np.sqrt(np.log(2))
         return (1 / (2 * np.sqrt(np.pi) * b_bar)) * np.exp(
             -((np.pi * b_bar * tau) ** 2)
@@ -113,7 +113,7 @@ class GaussianPulse(abc.Pulse):
             ... ).round(3)
             array([0.   , 0.003, 0.11 , 0.883, 1.765, 0.883, 0.11 , 0.003, 0.   ])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         b_bar = self.half_power_bandwidth / np.sqrt(np.log(2))
         return (1 / (2 * np.pi * b_bar**2)) * np.exp(-((f / b_bar) ** 2))
 
diff --git a/src/komm/_pulses/ManchesterPulse.py b/src/komm/_pulses/ManchesterPulse.py
index 2709246..744d07f 100644
--- a/src/komm/_pulses/ManchesterPulse.py
+++ b/src/komm/_pulses/ManchesterPulse.py
@@ -46,7 +46,7 @@ class ManchesterPulse(abc.Pulse):
             ... )
             array([ 0.,  0.,  0.,  0., -1., -1.,  1.,  1.,  0.])
         """
-        t = np.asarray(t)
+        t = np.asarray(t, dtype=float)
         return -rect(2 * (t - 0.25)) + rect(2 * (t - 0.75))
 
     def spectrum(self, f: npt.ArrayLike) -> npt.NDArray[np.complexfloating]:
@@ -63,7 +63,7 @@ class ManchesterPulse(abc.Pulse):
             ... )).round(3)
             array([0.637, 0.725, 0.637, 0.373, 0.   , 0.373, 0.637, 0.725, 0.637])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         cexp = np.exp(-2j * np.pi * (f / 2 + 1 / 4))
         centered = np.sinc(f / 2) * np.sin(2 * np.pi * f / 4)
         return centered.astype(complex) * cexp
@@ -96,7 +96,7 @@ class ManchesterPulse(abc.Pulse):
             ... )
             array([ 0.  , -0.25, -0.5 ,  0.25,  1.  ,  0.25, -0.5 , -0.25,  0.  ])
         """
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         return tri(2 * tau) - 0.5 * tri(2 * (tau - 0.5)) - 0.5 * tri(2 * (tau + 0.5))
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
@@ -113,7 +113,7 @@ class ManchesterPulse(abc.Pulse):
             ... ).round(3)
             array([0.405, 0.525, 0.405, 0.139, 0.   , 0.139, 0.405, 0.525, 0.405])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         return np.sinc(f / 2) ** 2 * np.sin(2 * np.pi * f / 4) ** 2
 
     @cached_property
diff --git a/src/komm/_pulses/RaisedCosinePulse.py b/src/komm/_pulses/RaisedCosinePulse.py
index 09a27d3..3d23a1f 100644
--- a/src/komm/_pulses/RaisedCosinePulse.py
+++ b/src/komm/_pulses/RaisedCosinePulse.py
@@ -76,7 +76,7 @@ class RaisedCosinePulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         f1 = (1 - α) / 2
diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 072d6b5..2d9c78a 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -67,7 +67,7 @@ class RectangularPulse(abc.Pulse):
             array([0., 0., 0., 0., 1., 1., 0., 0., 0.])
         """
         w = self.width
-        t = np.asarray(t)
+        t = np.asarray(t, dtype=float)
         return rect((t - w / 2) / w)
 
     def spectrum(self, f: npt.ArrayLike) -> npt.NDArray[np.complexfloating]:
@@ -91,7 +91,7 @@ class RectangularPulse(abc.Pulse):
             array([0.318, 0.392, 0.45 , 0.487, 0.5  , 0.487, 0.45 , 0.392, 0.318])
         """
         w = self.width
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         cexp = np.exp(-2j * np.pi * w / 2 * f)
         centered = w * np.sinc(w * f)
         return centered.astype(complex) * cexp
@@ -136,7 +136,7 @@ class RectangularPulse(abc.Pulse):
             array([0.  , 0.  , 0.  , 0.25, 0.5 , 0.25, 0.  , 0.  , 0.  ])
         """
         w = self.width
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         return w * tri(tau / w)
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
@@ -160,7 +160,7 @@ class RectangularPulse(abc.Pulse):
             array([0.101, 0.154, 0.203, 0.237, 0.25 , 0.237, 0.203, 0.154, 0.101])
         """
         w = self.width
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         return w**2 * np.sinc(w * f) ** 2
 
     @cached_property
diff --git a/src/komm/_pulses/SincPulse.py b/src/komm/_pulses/SincPulse.py
index 1e3ca24..83e8eda 100644
--- a/src/komm/_pulses/SincPulse.py
+++ b/src/komm/_pulses/SincPulse.py
@@ -41,7 +41,7 @@ class SincPulse(abc.Pulse):
             ... ).round(3)
             array([0.   , 0.3  , 0.637, 0.9  , 1.   , 0.9  , 0.637, 0.3  , 0.   ])
         """
-        t = np.asarray(t)
+        t = np.asarray(t, dtype=float)
         return np.sinc(t)
 
     def spectrum(self, f: npt.ArrayLike) -> npt.NDArray[np.complexfloating]:
@@ -58,7 +58,7 @@ class SincPulse(abc.Pulse):
             ... ))
             array([0., 0., 1., 1., 1., 1., 0., 0., 0.])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         return rect(f).astype(complex)
 
     def energy(self) -> float:
@@ -89,7 +89,7 @@ class SincPulse(abc.Pulse):
             ... ).round(3)
             array([0.   , 0.3  , 0.637, 0.9  , 1.   , 0.9  , 0.637, 0.3  , 0.   ])
         """
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         return np.sinc(tau)
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
@@ -106,7 +106,7 @@ class SincPulse(abc.Pulse):
             ... )
             array([0., 0., 1., 1., 1., 1., 0., 0., 0.])
         """
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         return rect(f)
 
     @cached_property
diff --git a/src/komm/_pulses/util.py b/src/komm/_pulses/util.py
index 0ff92d3..1c96d0b 100644
--- a/src/komm/_pulses/util.py
+++ b/src/komm/_pulses/util.py
@@ -3,16 +3,16 @@ import numpy.typing as npt
 
 
 def rect(x: npt.ArrayLike) -> npt.NDArray[np.floating]:
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     return 1.0 * (-0.5 <= x) * (x < 0.5)
 
 
 def tri(x: npt.ArrayLike) -> npt.NDArray[np.floating]:
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     return (1.0 - np.abs(x)) * (-1.0 <= x) * (x < 1.0) + 0.0
 
 
 def raised_cosine(x: npt.ArrayLike, α: float) -> npt.NDArray[np.floating]:
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     # The two sincs may cancel exactly, so we add 0.0 to avoid -0.0.
     return np.pi / 4 * np.sinc(x) * (np.sinc(α * x + 0.5) + np.sinc(α * x - 0.5)) + 0.0
-- 
2.43.0


From 00b6ed5b8fb4a8961630199ab869d91e4320d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 39/49] fix: rate of fixed-to-variable codes whose mapping is
 not listed in order

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 9893045..8cf515d 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -435,7 +435,8 @@ class FixedToVariableCode:
         """
         k = self.source_block_size
         pmf = validate_pmf(pmf)
-        lengths = self.lengths
+        # The mapping may list its words in any order.
+        lengths = [len(y) for _, y in sorted(self.enc_mapping.items())]
         probabilities = [np.prod(ps) for ps in product(pmf, repeat=k)]
         rate = np.dot(lengths, probabilities) / k
         return float(rate)
-- 
2.43.0


From 5ebf17a62ec19dc626384fba267aa39722c1568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 40/49] fix: nearest PAM and ASK symbols of very large received
 values

---
 src/komm/_constellations/ASKConstellation.py | 4 ++--
 src/komm/_constellations/PAMConstellation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..bc28c14 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,8 +166,8 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        # Clip before casting, since large values do not fit in an integer.
+        indices = np.clip(np.round(normalized), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..0b5bba9 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,8 +152,8 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        # Clip before casting, since large values do not fit in an integer.
+        indices = np.clip(np.round(normalized + (M - 1) / 2), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
-- 
2.43.0


From ae34258e0d23dbd7fd07e5cd178cb76301f070c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 41/49] fix: relative entropy of pmfs with subnormal
 probabilities

---
 src/komm/_util/information_theory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index 39a766e..379f322 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -147,13 +147,14 @@ def relative_entropy(
         raise ValueError("inputs must have the same shape")
     mask = pmf > 0
     pmf, qmf = pmf[mask], qmf[mask]
+    # We compute log(p) - log(q) rather than log(p/q), since p/q may overflow.
     with np.errstate(divide="ignore"):
         if base == "e":
-            log_quotient = np.log(pmf / qmf)
+            log_quotient = np.log(pmf) - np.log(qmf)
         elif base == 2.0:
-            log_quotient = np.log2(pmf / qmf)
+            log_quotient = np.log2(pmf) - np.log2(qmf)
         else:
-            log_quotient = np.log(pmf / qmf) / np.log(base)
+            log_quotient = (np.log(pmf) - np.log(qmf)) / np.log(base)
     return float(np.dot(pmf, log_quotient))
 
 
-- 
2.43.0


From 81bc56bf32d7a0c1ce7aa38721703b47fce4c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 42/49] fix: Shannon codes for subnormal probabilities

---
 src/komm/_lossless_coding/ShannonCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/ShannonCode.py b/src/komm/_lossless_coding/ShannonCode.py
index 843248b..cb0961a 100644
--- a/src/komm/_lossless_coding/ShannonCode.py
+++ b/src/komm/_lossless_coding/ShannonCode.py
@@ -84,7 +84,8 @@ class ShannonCode(FixedToVariableCode):
 
 def shannon_code_lengths(pmf: Array1D[np.floating]) -> Array1D[np.integer]:
     # The lower bound of 1 handles the degenerate case p(x) = 1.
-    lengths = np.maximum(1, np.ceil(np.log2(1 / pmf)))
+    # We compute -log(p) rather than log(1/p), since 1/p may overflow.
+    lengths = np.maximum(1, np.ceil(-np.log2(pmf)))
     return lengths.astype(int)
 
 
-- 
2.43.0


From a7a9bff68904665062d06f52c5b7d1d04f2f342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 43/49] fix: refuse to realize convolutional encoders whose
 feedback has no constant term

---
 src/komm/_error_control_convolutional/ConvolutionalCode.py      | 2 ++
 .../_error_control_convolutional/HighRateConvolutionalCode.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/komm/_error_control_convolutional/ConvolutionalCode.py b/src/komm/_error_control_convolutional/ConvolutionalCode.py
index 71efdae..9ab209e 100644
--- a/src/komm/_error_control_convolutional/ConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/ConvolutionalCode.py
@@ -298,6 +298,8 @@ class ConvolutionalCode(abc.ConvolutionalCode):
             >>> D_mat
             array([[1, 1]])
         """
+        if any(q.value % 2 == 0 for q in self.feedback_polynomials):
+            raise ValueError("not realizable: feedback polynomial without constant term")
         betas = [
             np.array([p.coefficients(nu + 1) for p in ps]).T
             for nu, ps in zip(self.constraint_lengths, self.feedforward_polynomials)
diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 48c6c1d..f817d9f 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -200,6 +200,8 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
                    [0, 1, 0, 1],
                    [0, 0, 1, 1]])
         """
+        if self.h_row[-1].value % 2 == 0:
+            raise ValueError("not realizable: last polynomial without constant term")
         n, σ = self.num_output_bits, self.degree
         if σ == 0:  # Memoryless encoder
             D_mat = np.eye(n - 1, n, dtype=int)
-- 
2.43.0


From 073e5e4b218957bf30cb53ec9d996c0189b78c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:16 +0000
Subject: [PATCH 44/49] fix: exact arithmetic in invariant factors of large
 polynomial matrices

---
 src/komm/_util/matrices.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 1103757..54007eb 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -203,7 +203,9 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     """
     # See [McE98, Appendix B, p. 1128]
     BP = BinaryPolynomial
-    matrix = np.array(matrix, dtype=int)
+    matrix = np.array(matrix, dtype=object)
+    for i, j in np.ndindex(matrix.shape):
+        matrix[i, j] = int(matrix[i, j])  # arbitrary precision
     k, n = matrix.shape
     if k > n:
         raise ValueError("number of rows cannot exceed number of columns")
@@ -227,11 +229,11 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
         for j in range(1, n):
             q = BP(matrix[0, j]) // a0
             for i in range(k):
-                matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[i, 0])
+                matrix[i, j] = int(BP(matrix[i, j]) - q * BP(matrix[i, 0]))
         for i in range(1, k):
             q = BP(matrix[i, 0]) // a0
             for j in range(n):
-                matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
+                matrix[i, j] = int(BP(matrix[i, j]) - q * BP(matrix[0, j]))
         if np.any(matrix[0, 1:]) or np.any(matrix[1:, 0]):
             continue
 
-- 
2.43.0


From 70f7f923dc655e1a0597eeb0c0722cfc557ec696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:41 +0000
Subject: [PATCH 45/49] fix: root Beaulieu pulse is wrong far from the origin

The oscillation of the integrand was not resolved by the fixed number of
nodes: with rolloff 1, the waveform at t = -255.6 was 0.147 instead of 6e-6.
---
 src/komm/_pulses/BeaulieuPulse.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index 745240b..8931f25 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -254,7 +254,14 @@ class _RootBeaulieuPulse(RootPulse[BeaulieuPulse]):
         band2 = 2 * num / (b**2 + (2 * np.pi * t) ** 2)
         # Band [1/2, f2], where the square-root spectrum equals
         # sqrt(1 - e^{-2b (f2 - f)}):
-        v, w = self._quadrature
-        g = 4 * w * v * np.sqrt(1 - np.exp(-2 * b * v**2))
-        band3 = np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - v**2)) @ g
+        # The interval is split so that the oscillation of the integrand is resolved.
+        nodes, weights = self._quadrature
+        t_max = np.max(np.abs(t), initial=0, where=np.isfinite(t))
+        num_panels = 1 + int(α * t_max / 100)
+        band3 = np.zeros_like(t)
+        for i in range(num_panels):
+            v = (nodes + i * np.sqrt(α / 2)) / num_panels
+            w = weights / num_panels
+            g = 4 * w * v * np.sqrt(1 - np.exp(-2 * b * v**2))
+            band3 = band3 + np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - v**2)) @ g
         return band1 + band2 + band3
-- 
2.43.0


From 1347cbe9ed82ef9052b526da1b14ea1e0b5fa050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:06 +0000
Subject: [PATCH 46/49] fix: stopping rule of the Lloyd-Max quantizer must not
 depend on the position of the input range

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 7efba2e..2a13859 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old, atol=1e-9 * (x_max - x_min)):
+        if np.allclose(y, y_old, rtol=0.0, atol=1e-7 * (x_max - x_min)):
             break
 
     return y, λ[1:-1]
-- 
2.43.0


From c3a76529c236866f592fe9594d07b09505741a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:08 +0000
Subject: [PATCH 47/49] fix: absorbing states are those without an arrow to
 another state

---
 src/komm/_sources/MarkovChain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index b08bf4b..8af5ceb 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -410,7 +410,11 @@ class MarkovChain:
             >>> chain.absorbing_states()
             {2}
         """
-        return {i for i in range(self.num_states) if self.transition_matrix[i, i] == 1}
+        return {
+            i
+            for i in range(self.num_states)
+            if self._accessible_states_from(i) == frozenset({i})
+        }
 
     @cache
     def is_absorbing(self) -> bool:
-- 
2.43.0


From 855999ac2cbb37b41bcc98ae91974537d11cda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:42 +0000
Subject: [PATCH 48/49] fix: integer arrays from source and integer codes for
 empty messages

---
 src/komm/_integer_coding/FibonacciCode.py | 2 +-
 src/komm/_integer_coding/UnaryCode.py     | 2 +-
 src/komm/_lossless_coding/util.py         | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/komm/_integer_coding/FibonacciCode.py b/src/komm/_integer_coding/FibonacciCode.py
index 4644f29..000c76d 100644
--- a/src/komm/_integer_coding/FibonacciCode.py
+++ b/src/komm/_integer_coding/FibonacciCode.py
@@ -44,7 +44,7 @@ class FibonacciCode(abc.IntegerCode):
                 raise ValueError("input contains an incomplete codeword")
             output.append(fibonacci_decode(list(input[i : j + 2])))
             i = j + 2
-        return np.array(output)
+        return np.array(output, dtype=int)
 
 
 @cache
diff --git a/src/komm/_integer_coding/UnaryCode.py b/src/komm/_integer_coding/UnaryCode.py
index 3363e5c..c725a75 100644
--- a/src/komm/_integer_coding/UnaryCode.py
+++ b/src/komm/_integer_coding/UnaryCode.py
@@ -42,7 +42,7 @@ class UnaryCode(abc.IntegerCode):
                 raise ValueError("input contains an incomplete codeword")
             output.append(unary_decode(list(input[i : j + 1])))
             i = j + 1
-        return np.array(output)
+        return np.array(output, dtype=int)
 
 
 def unary_encode(integer: int) -> list[int]:
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c1eaae5..006c416 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -89,7 +89,7 @@ def parse_fixed_length(
         for i in range(0, len(input), block_size):
             key = tuple(map(int, input[i : i + block_size]))
             output_list.extend(dictionary[key])
-        output = np.asarray(output_list)
+        output = np.asarray(output_list, dtype=int)
     except KeyError:
         raise ValueError("input contains invalid word")
     return output
@@ -109,7 +109,7 @@ def parse_prefix_free(
             i = j + 1
 
     if i == len(input):
-        return np.asarray(output)
+        return np.asarray(output, dtype=int)
     elif not allow_incomplete:
         raise ValueError("input contains invalid word")
 
@@ -117,7 +117,7 @@ def parse_prefix_free(
     for key, value in dictionary.items():
         if is_prefix_of(remainder, key):
             output.extend(value)
-            return np.asarray(output)
+            return np.asarray(output, dtype=int)
 
     raise ValueError("input contains invalid word")
 
-- 
2.43.0


From 6494bc1cc1fd273dc8e0861d67774f22621c3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:00:01 +0000
Subject: [PATCH 49/49] fix: autocorrelation at shifts of unsigned integer
 types

---
 src/komm/_util/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index a58fd33..ddf1d7f 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -40,7 +40,7 @@ def autocorrelation(
     seq_conj = np.conj(sequence)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
-    for i, ℓ in enumerate(shifts):
+    for i, ℓ in enumerate(shifts.tolist()):
         if ℓ < 0:
             acorr[i] = np.dot(sequence[:ℓ], seq_conj[-ℓ:])
         elif ℓ > 0:
-- 
2.43.0

