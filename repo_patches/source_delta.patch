From 3243b29e66d3c5d907fe4a822510a906cf24e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 01/29] fix: SystematicBlockCode accepted an information set
 that is not a k-sublist of range(n)

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From fc37beb20c2e384a684aeff97913f99596636a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 02/29] fix: ExhaustiveSearchDecoder accepted an unknown
 input_type

---
 src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index 9c8f2a9..1881200 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -26,6 +26,8 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
     input_type: Literal["hard", "soft"] = "hard"
 
     def __post_init__(self) -> None:
+        if self.input_type not in ["hard", "soft"]:
+            raise ValueError("'input_type' must be 'hard' or 'soft'")
         self._codewords = self.code.codewords()
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer | np.floating]:
-- 
2.43.0


From 6f643975b7a07324c691e5101cf37e2f82ca3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 03/29] fix: ReedDecoder accepted an unknown input_type

---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..4713b65 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -27,6 +27,8 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
     input_type: Literal["hard", "soft"] = "hard"
 
     def __post_init__(self) -> None:
+        if self.input_type not in ["hard", "soft"]:
+            raise ValueError("'input_type' must be 'hard' or 'soft'")
         self._reed_partitions = self.code.reed_partitions()
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer | np.floating]:
-- 
2.43.0


From c833420d8aa985e1087dff13061cdc1b5bed1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 04/29] fix: SCDecoder accepted an unknown output_type

---
 src/komm/_error_control_decoders/SCDecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_decoders/SCDecoder.py b/src/komm/_error_control_decoders/SCDecoder.py
index 774bca0..f4ec850 100644
--- a/src/komm/_error_control_decoders/SCDecoder.py
+++ b/src/komm/_error_control_decoders/SCDecoder.py
@@ -36,6 +36,8 @@ class SCDecoder(abc.BlockDecoder[PolarCode]):
     output_type: Literal["hard", "soft"] = "soft"
 
     def __post_init__(self) -> None:
+        if self.output_type not in ["hard", "soft"]:
+            raise ValueError("'output_type' must be 'hard' or 'soft'")
         self._f = boxplus
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer | np.floating]:
-- 
2.43.0


From ce4c7661afb54ecde61792eacefc3c87131aa969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 05/29] fix: ViterbiStreamDecoder accepted an unknown
 input_type

---
 src/komm/_error_control_convolutional/ViterbiStreamDecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
index f6a9134..ad59599 100644
--- a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
+++ b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
@@ -28,6 +28,8 @@ class ViterbiStreamDecoder:
     input_type: Literal["hard", "soft"] = "hard"
 
     def __post_init__(self):
+        if self.input_type not in ["hard", "soft"]:
+            raise ValueError("'input_type' must be 'hard' or 'soft'")
         self._fsm = self.convolutional_code.finite_state_machine()
         num_states, traceback_length = self._fsm.num_states, self.traceback_length
         self.memory: MetricMemory = {
-- 
2.43.0


From 28ba6c9dcfec743966375b326bfdeb5eb73fd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 06/29] fix: RectangularPulse accepted a width outside (0, 1]

---
 src/komm/_pulses/RectangularPulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 3520e2f..072d6b5 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -42,6 +42,10 @@ class RectangularPulse(abc.Pulse):
 
     width: float = 1.0
 
+    def __post_init__(self) -> None:
+        if not 0 < self.width <= 1:
+            raise ValueError("'width' must satisfy 0 < width <= 1")
+
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
         For the rectangular pulse, it is given by
-- 
2.43.0


From 4073d018645ab8e4a9a928fc1506811441c453fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 07/29] fix: LloydMaxQuantizer accepted fewer than two levels

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..8e09780 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -49,6 +49,8 @@ class LloydMaxQuantizer(abc.ScalarQuantizer):
     num_levels: int
 
     def __post_init__(self) -> None:
+        if not self.num_levels > 1:
+            raise ValueError("'num_levels' must be greater than 1")
         self._levels, self._thresholds = lloyd_max_quantizer(
             self.input_pdf,
             self.num_levels,
-- 
2.43.0


From 8b3759ff5b2d7dec36d6b0d650f5fe03c6d31d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 08/29] fix: hash of a binary polynomial disagreed with the
 hash of the equal integer

---
 src/komm/_algebra/BinaryPolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..7b6a3d0 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -61,7 +61,7 @@ class BinaryPolynomial:
         return self.value
 
     def __hash__(self) -> int:
-        return self.value
+        return hash(self.value)
 
     @property
     def ambient(self):
-- 
2.43.0


From 2fde4a0e7f535dea031488308674c0d059b269bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 09/29] fix: BinarySymmetricChannel.mutual_information accepted
 an input pmf of the wrong length

---
 src/komm/_channels/BinarySymmetricChannel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..191070d 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -80,6 +80,8 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             0.2754734936803773
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("length of 'input_pmf' must be 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.crossover_probability
-- 
2.43.0


From bcc718bfbc126e7980d1bf4d3b6d1a37be57f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 10/29] fix: BinaryErasureChannel.mutual_information accepted
 an input pmf of the wrong length

---
 src/komm/_channels/BinaryErasureChannel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..2a0c476 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -80,6 +80,8 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             0.7942195631902467
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("length of 'input_pmf' must be 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         epsilon = self.erasure_probability
-- 
2.43.0


From af05b73b4cb8a8f85c5e6dd086a1c37090d78e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 11/29] fix: ZChannel.mutual_information accepted an input pmf
 of the wrong length

---
 src/komm/_channels/ZChannel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index b243619..f4e37e7 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -80,6 +80,8 @@ class ZChannel(abc.DiscreteMemorylessChannel):
             0.6099865470109874
         """
         input_pmf = validate_pmf(input_pmf)
+        if input_pmf.size != 2:
+            raise ValueError("length of 'input_pmf' must be 2")
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.decay_probability
-- 
2.43.0


From 9249ef3be739adf131bf5ed713d49ef4c0c808f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 12/29] fix: BinaryPolynomial.coefficients ignored an explicit
 width of zero

---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index 7b6a3d0..c8274c2 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From a907cd5f82d2630b002c5522ccc8f08cf1b1c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 13/29] fix: zero-terminated convolutional code of memory order
 zero could not encode or decode

---
 .../TerminatedConvolutionalCode.py                       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..b7a6944 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -243,6 +243,9 @@ class ZeroTermination(TerminationStrategy):
         h = self.num_blocks
         μ = self.convolutional_code.memory_order
         σ = self.convolutional_code.degree
+        if μ == 0:  # No tail is needed
+            k = self.convolutional_code.num_input_bits
+            return np.zeros((h * k, 0), dtype=int)
         A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
         A_pow = [np.eye(σ, dtype=int)]
         for _ in range(1, h + μ):
@@ -269,8 +272,7 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[: self.num_blocks, 0]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +285,7 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: self.num_blocks]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From 9fca5285d791033bba43a394a730102ad0fc52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 14/29] fix: boolean code matrices are converted to integers

---
 src/komm/_error_control_block/BlockCode.py           | 4 ++--
 src/komm/_error_control_block/SystematicBlockCode.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_block/BlockCode.py b/src/komm/_error_control_block/BlockCode.py
index 4edea20..e0e6606 100644
--- a/src/komm/_error_control_block/BlockCode.py
+++ b/src/komm/_error_control_block/BlockCode.py
@@ -64,13 +64,13 @@ class BlockCode(abc.BlockCode):
                 "only one of 'generator_matrix' or 'check_matrix' must be provided"
             )
         if generator_matrix is not None:
-            self._generator_matrix = np.asarray(generator_matrix)
+            self._generator_matrix = np.asarray(generator_matrix, dtype=int)
             self._check_matrix = None
             self._dimension, self._length = self._generator_matrix.shape
             self._redundancy = self._length - self._dimension
         else:  # check_matrix is not None
             self._generator_matrix = None
-            self._check_matrix = np.asarray(check_matrix)
+            self._check_matrix = np.asarray(check_matrix, dtype=int)
             self._redundancy, self._length = self._check_matrix.shape
             self._dimension = self._length - self._redundancy
 
diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index 5f92d2c..7a4844b 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -52,7 +52,7 @@ class SystematicBlockCode(abc.BlockCode):
         parity_submatrix: npt.ArrayLike,
         information_set: Literal["left", "right"] | npt.ArrayLike = "left",
     ):
-        self.parity_submatrix = np.asarray(parity_submatrix)
+        self.parity_submatrix = np.asarray(parity_submatrix, dtype=int)
         n, k, m = self.length, self.dimension, self.redundancy
         if isinstance(information_set, str):
             if information_set == "left":
-- 
2.43.0


From af611614b4c2532e05a720251db2fdec017bf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 15/29] fix: binary channels accept boolean input

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 2a0c476..5933bee 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -113,7 +113,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 2, 0, 1, 0, 2, 0])
         """
         epsilon = self.erasure_probability
-        input = np.asarray(input)
+        input = np.asarray(input, dtype=int)
         erasure_pattern = self.rng.random(input.shape) < epsilon
         output = np.copy(input)
         output[erasure_pattern] = 2
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 191070d..aecdef7 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -114,6 +114,6 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
             array([1, 1, 1, 0, 1, 0, 1, 0, 0, 0])
         """
         p = self.crossover_probability
-        input = np.array(input)
+        input = np.array(input, dtype=int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
-- 
2.43.0


From 6e385635a83b3086ad420d82d4f7294381f5c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 16/29] fix: ReedDecoder hard decoding accepts any input dtype

---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index 4713b65..6658c61 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -50,7 +50,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
-- 
2.43.0


From ddc8d7acdc49905693b0cc0b5b17d287f29de513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 17/29] fix: ExhaustiveSearchDecoder soft metric is not
 computed in the dtype of the input

---
 src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index 1881200..e9b5659 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -50,7 +50,7 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
             if self.input_type == "hard":
                 ds = r[..., np.newaxis, :] != self._codewords
             else:
-                ds = -r[..., np.newaxis, :] * (-1) ** self._codewords
+                ds = r[..., np.newaxis, :] * (-1.0) ** (self._codewords + 1)
             metrics = np.sum(ds, axis=-1)
             v_hat = self._codewords[np.argmin(metrics, axis=-1)]
             u_hat = self.code.project_word(v_hat)
-- 
2.43.0


From 5ab75f2266bc90105f079f06a7bed43e7964e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 18/29] fix: boxplus is not computed in the dtype of the input

---
 src/komm/_util/special_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..56afd07 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -155,8 +155,8 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
         >>> komm.boxplus([0, 1, 2], [1, -1, -1])
         array([ 0.        , -0.43378083, -0.73532566])
     """
-    a = np.asarray(a)
-    b = np.asarray(b)
+    a = np.asarray(a, dtype=float)
+    b = np.asarray(b, dtype=float)
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-- 
2.43.0


From e087af5bdc01fa0f60812dc3eed97264e2d336d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 19/29] fix: autocorrelations are not computed in a narrow
 dtype of the input

---
 src/komm/_util/sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..297d053 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -35,8 +35,9 @@ def autocorrelation(
         array([11., 20., 30., 20., 11.])
     """
     sequence = np.asarray(sequence)
+    sequence = sequence.astype(np.result_type(sequence, int))
     seq_conj = np.conj(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts, dtype=int)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
     for i, ℓ in enumerate(shifts):
         if ℓ < 0:
@@ -76,7 +77,8 @@ def cyclic_autocorrelation(
         array([22., 24., 30., 24., 22.])
     """
     sequence = np.asarray(sequence)
-    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
+    sequence = sequence.astype(np.result_type(sequence, int))
+    shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts, dtype=int)
     acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
     energy = np.dot(sequence, sequence.conj())
     return acorr / energy if normalized else acorr
-- 
2.43.0


From 16714d735b3670883085dd88d21e70497e4f44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 20/29] fix: Lempel-Ziv field widths are computed in exact
 integer arithmetic

---
 src/komm/_lossless_coding/LempelZiv77Code.py    | 10 ++++------
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  8 ++++++++
 5 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..4ba99be 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,9 @@
-from math import ceil, log
-
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int, int]
 
@@ -84,9 +82,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..33dd42b 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = ceil_log(i + 1, calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = ceil_log(calX, calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = ceil_log(len(tokens) + 1, calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..15c7b41 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import ceil_log, integer_to_symbols, symbols_to_integer
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = ceil_log(self.search_size, calY)
+        l_width = ceil_log(self.lookahead_size, calY)
+        x_width = ceil_log(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..6639e78 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, ceil_log, integer_to_symbols, symbols_to_integer
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = ceil_log(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = ceil_log(calX, calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = ceil_log(len(dictionary) + 1, calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..d94fde1 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -7,6 +7,14 @@ import numpy.typing as npt
 Word = tuple[int, ...]
 
 
+def ceil_log(value: int, base: int) -> int:
+    # Smallest k such that base**k >= value.
+    k, power = 0, 1
+    while power < value:
+        k, power = k + 1, power * base
+    return k
+
+
 def is_prefix_of(w1: Word, w2: Word) -> bool:
     return len(w1) <= len(w2) and w2[: len(w1)] == w1
 
-- 
2.43.0


From 803ecf575f9d9776fd1080b183ee883c904e0c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 21/29] fix: bits_to_int of a bit array with rows of more than
 63 bits raised OverflowError

---
 src/komm/_util/bit_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 06b78f3..dc76c8b 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -1,4 +1,3 @@
-from functools import partial
 from typing import Literal, cast
 
 import numpy as np
@@ -42,7 +41,11 @@ def bits_to_int(
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
         return int.from_bytes(packed, byteorder="little")
-    return np.apply_along_axis(partial(bits_to_int, bit_order=bit_order), -1, input)
+    input = np.asarray(input)
+    rows = [input[i] for i in np.ndindex(input.shape[:-1])]
+    output = [bits_to_int(row, bit_order=bit_order) for row in rows]
+    dtype = int if input.shape[-1] < 64 else object
+    return np.array(output, dtype=dtype).reshape(input.shape[:-1])
 
 
 def int_to_bits(
-- 
2.43.0


From 51167bf7e8ebab00435dc0fb66565bc942e2e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 22/29] fix: weight distributions of long repetition and single
 parity-check codes raised OverflowError

---
 src/komm/_error_control_block/RepetitionCode.py        | 3 ++-
 src/komm/_error_control_block/SingleParityCheckCode.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_block/RepetitionCode.py b/src/komm/_error_control_block/RepetitionCode.py
index 5ed22e6..c67dd03 100644
--- a/src/komm/_error_control_block/RepetitionCode.py
+++ b/src/komm/_error_control_block/RepetitionCode.py
@@ -65,7 +65,8 @@ class RepetitionCode(BlockCode):
     @cache
     def coset_leader_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        coset_leader_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if n < 63 else object  # coefficients are less than 2**n
+        coset_leader_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range((n + 1) // 2):
             coset_leader_weight_distribution[w] = comb(n, w)
         if n % 2 == 0:
diff --git a/src/komm/_error_control_block/SingleParityCheckCode.py b/src/komm/_error_control_block/SingleParityCheckCode.py
index b42f51c..2f3618e 100644
--- a/src/komm/_error_control_block/SingleParityCheckCode.py
+++ b/src/komm/_error_control_block/SingleParityCheckCode.py
@@ -65,7 +65,8 @@ class SingleParityCheckCode(BlockCode):
     @cache
     def codeword_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        codeword_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if n < 63 else object  # coefficients are less than 2**n
+        codeword_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range(0, n + 1, 2):
             codeword_weight_distribution[w] = comb(n, w)
         return codeword_weight_distribution
-- 
2.43.0


From 48df246b9e67eedb6d243c1ee2acf2e511b9f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 23/29] fix: return integer arrays when decoding or encoding an
 empty stream

np.asarray of an empty list is an array of floats.
---
 src/komm/_integer_coding/FibonacciCode.py | 2 +-
 src/komm/_integer_coding/UnaryCode.py     | 2 +-
 src/komm/_lossless_coding/util.py         | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/komm/_integer_coding/FibonacciCode.py b/src/komm/_integer_coding/FibonacciCode.py
index 4644f29..000c76d 100644
--- a/src/komm/_integer_coding/FibonacciCode.py
+++ b/src/komm/_integer_coding/FibonacciCode.py
@@ -44,7 +44,7 @@ class FibonacciCode(abc.IntegerCode):
                 raise ValueError("input contains an incomplete codeword")
             output.append(fibonacci_decode(list(input[i : j + 2])))
             i = j + 2
-        return np.array(output)
+        return np.array(output, dtype=int)
 
 
 @cache
diff --git a/src/komm/_integer_coding/UnaryCode.py b/src/komm/_integer_coding/UnaryCode.py
index 3363e5c..c725a75 100644
--- a/src/komm/_integer_coding/UnaryCode.py
+++ b/src/komm/_integer_coding/UnaryCode.py
@@ -42,7 +42,7 @@ class UnaryCode(abc.IntegerCode):
                 raise ValueError("input contains an incomplete codeword")
             output.append(unary_decode(list(input[i : j + 1])))
             i = j + 1
-        return np.array(output)
+        return np.array(output, dtype=int)
 
 
 def unary_encode(integer: int) -> list[int]:
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index d94fde1..6fed196 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -97,7 +97,7 @@ def parse_fixed_length(
         for i in range(0, len(input), block_size):
             key = tuple(map(int, input[i : i + block_size]))
             output_list.extend(dictionary[key])
-        output = np.asarray(output_list)
+        output = np.asarray(output_list, dtype=int)
     except KeyError:
         raise ValueError("input contains invalid word")
     return output
@@ -117,7 +117,7 @@ def parse_prefix_free(
             i = j + 1
 
     if i == len(input):
-        return np.asarray(output)
+        return np.asarray(output, dtype=int)
     elif not allow_incomplete:
         raise ValueError("input contains invalid word")
 
@@ -125,7 +125,7 @@ def parse_prefix_free(
     for key, value in dictionary.items():
         if is_prefix_of(remainder, key):
             output.extend(value)
-            return np.asarray(output)
+            return np.asarray(output, dtype=int)
 
     raise ValueError("input contains invalid word")
 
-- 
2.43.0


From c50cf3541dc27770bc532b47e6172bbda4df4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 24/29] fix: clip to the valid range before converting to
 indices in PAM and ASK

A received value beyond the range of a 64-bit integer was converted to an
arbitrary index.
---
 src/komm/_constellations/ASKConstellation.py | 3 +--
 src/komm/_constellations/PAMConstellation.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..36e1baa 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,8 +166,7 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.clip(np.round(normalized), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..ec167e8 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,8 +152,7 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
+        indices = np.clip(np.round(normalized + (M - 1) / 2), 0, M - 1).astype(int)
         return indices
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
-- 
2.43.0


From 7a79cfdbef3b989872c2377f5983ef1c471c49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 25/29] fix: natural and reflected labelings accepted
 out-of-range indices and non-binary bits

The closed forms bypassed the validation done by the base class, so that e.g.
NaturalLabeling(2).indices_to_bits([100]) returned the bits of another index.
---
 src/komm/_labelings/NaturalLabeling.py   |  4 +--
 src/komm/_labelings/ReflectedLabeling.py |  4 +--
 src/komm/_labelings/base.py              | 33 +++++++++++++++---------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/komm/_labelings/NaturalLabeling.py b/src/komm/_labelings/NaturalLabeling.py
index 6971a38..adb3f1c 100644
--- a/src/komm/_labelings/NaturalLabeling.py
+++ b/src/komm/_labelings/NaturalLabeling.py
@@ -82,7 +82,7 @@ class NaturalLabeling(abc.Labeling):
                    [1, 1, 1, 1]])
         """
         m = self._num_bits
-        indices = np.asarray(indices, dtype=int)
+        indices = self._validate_indices(indices)
         bits = int_to_bits(indices, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -97,7 +97,7 @@ class NaturalLabeling(abc.Labeling):
                    [3, 3]])
         """
         m = self._num_bits
-        bits = np.asarray(bits, dtype=int)
+        bits = self._validate_bits(bits)
         indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = cast(npt.NDArray[np.integer], indices)
         return indices.reshape(*bits.shape[:-1], -1)
diff --git a/src/komm/_labelings/ReflectedLabeling.py b/src/komm/_labelings/ReflectedLabeling.py
index 744337e..d99c0d4 100644
--- a/src/komm/_labelings/ReflectedLabeling.py
+++ b/src/komm/_labelings/ReflectedLabeling.py
@@ -81,7 +81,7 @@ class ReflectedLabeling(abc.Labeling):
                    [1, 0, 1, 0]])
         """
         m = self._num_bits
-        indices = np.asarray(indices, dtype=int)
+        indices = self._validate_indices(indices)
         bits = int_to_bits(indices ^ indices >> 1, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -96,7 +96,7 @@ class ReflectedLabeling(abc.Labeling):
                    [3, 3]])
         """
         m = self._num_bits
-        bits = np.asarray(bits, dtype=int)
+        bits = self._validate_bits(bits)
         nat_indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = np.zeros_like(nat_indices)
         for shift in range(m):
diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 8013741..2f6fd72 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -42,6 +42,25 @@ class Labeling(ABC):
         """
         return {tuple(map(int, row)): i for i, row in enumerate(self.matrix)}
 
+    def _validate_indices(self, indices: npt.ArrayLike) -> npt.NDArray[np.integer]:
+        M = self.cardinality
+        indices = np.asarray(indices, dtype=int)
+        if not (np.all(indices >= 0) and np.all(indices < M)):
+            raise ValueError(f"elements of 'index' must be in [0:{M})")
+        return indices
+
+    def _validate_bits(self, bits: npt.ArrayLike) -> npt.NDArray[np.integer]:
+        m = self.num_bits
+        bits = np.asarray(bits, dtype=int)
+        if bits.shape[-1] % m != 0:
+            raise ValueError(
+                "last dimension of 'bits' must be a multiple of the number of"
+                f" bits per index {m} (got {bits.shape[-1]})"
+            )
+        if not np.all(np.isin(bits, [0, 1])):
+            raise ValueError("elements of 'bits' must be either 0 or 1")
+        return bits
+
     @abstractmethod
     def indices_to_bits(self, indices: npt.ArrayLike) -> npt.NDArray[np.integer]:
         r"""
@@ -53,10 +72,7 @@ class Labeling(ABC):
         Returns:
             bits: The binary representations of the given indices. Has the same shape as `indices`, but with the last dimension expanded by a factor of $m$.
         """
-        M = self.cardinality
-        indices = np.asarray(indices, dtype=int)
-        if not (np.all(indices >= 0) and np.all(indices < M)):
-            raise ValueError(f"elements of 'index' must be in [0:{M})")
+        indices = self._validate_indices(indices)
         bits = self.matrix[indices].reshape(*indices.shape[:-1], -1)
         return bits
 
@@ -72,14 +88,7 @@ class Labeling(ABC):
             indices: The indices corresponding to the given bits. Has the same shape as `bits`, but with the last dimension contracted by a factor of $m$.
         """
         m = self.num_bits
-        bits = np.asarray(bits, dtype=int)
-        if bits.shape[-1] % m != 0:
-            raise ValueError(
-                "last dimension of 'bits' must be a multiple of the number of"
-                f" bits per index {m} (got {bits.shape[-1]})"
-            )
-        if not np.all(np.isin(bits, [0, 1])):
-            raise ValueError("elements of 'bits' must be either 0 or 1")
+        bits = self._validate_bits(bits)
         indices = np.apply_along_axis(
             func1d=lambda row: self.inverse_mapping[tuple(row)],
             axis=-1,
-- 
2.43.0


From f431e5a5aa3f9f598d5c2cd590017bd394a6a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 26/29] fix: repr of a Zadoff-Chu sequence was not a valid
 constructor call

---
 src/komm/_sequences_complex/ZadoffChuSequence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_sequences_complex/ZadoffChuSequence.py b/src/komm/_sequences_complex/ZadoffChuSequence.py
index 070f7ba..378ffe3 100644
--- a/src/komm/_sequences_complex/ZadoffChuSequence.py
+++ b/src/komm/_sequences_complex/ZadoffChuSequence.py
@@ -49,4 +49,9 @@ class ZadoffChuSequence(ComplexSequence):
             raise ValueError("'length' must be an odd integer")
         if not 1 <= root_index < length:
             raise ValueError("'root_index' must be in [1 : length)")
+        self.root_index = root_index
         super().__init__(sequence=zadoff_chu_sequence(length, root_index))
+
+    def __repr__(self) -> str:
+        args = f"length={self.length}, root_index={self.root_index}"
+        return f"{self.__class__.__name__}({args})"
-- 
2.43.0


From af83d447005b81f3bd0d782e481a39f7155d9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:11 +0000
Subject: [PATCH 27/29] fix: reject a NaN logarithm base

---
 src/komm/_util/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_util/validators.py b/src/komm/_util/validators.py
index 27b0c27..df210b3 100644
--- a/src/komm/_util/validators.py
+++ b/src/komm/_util/validators.py
@@ -10,7 +10,7 @@ def validate_log_base(value: float | str) -> float | Literal["e"]:
     if isinstance(value, str):
         if value != "e":
             raise ValueError("log base must be 'e' or a positive real other than 1")
-    elif value <= 0.0 or value == 1.0:
+    elif not value > 0.0 or value == 1.0:
         raise ValueError("log base must be 'e' or a positive real other than 1")
     return value
 
-- 
2.43.0


From ed24278748b6b86b0b48e44d2b907f209306951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:40 +0000
Subject: [PATCH 28/29] fix: CyclicCode rejects both a generator and a check
 polynomial

---
 src/komm/_error_control_block/CyclicCode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..d0af976 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -75,6 +75,11 @@ class CyclicCode(abc.BlockCode):
                 raise ValueError("'check_polynomial' must be a factor of X^n + 1")
             self.generator_polynomial = quotient
             self._constructed_from = "check_polynomial"
+        else:
+            raise ValueError(
+                "only one of 'generator_polynomial' or 'check_polynomial' must be"
+                " provided"
+            )
         self.systematic = systematic
 
     @cached_property
-- 
2.43.0


From b682f98af5e3508486d2308da8a5137cea1634a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:22 +0000
Subject: [PATCH 29/29] fix: MarkovChain orders transient and absorbing states
 by index, not by set iteration

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0

