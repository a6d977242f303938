From 5df9df3a0e37d1430608923970c767bdef3d18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 01/38] fix: nearest valid header must not stop at a message
 longer than max_len

---
 protocol_meta/msg_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..9a1243e 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -58,7 +58,7 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
         if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
             min_dist = candidate_dist
             chosen_msg_id = msg_id
-        if candidate_dist == 0:
+        if min_dist == 0:
             break
 
     dist += min_dist
-- 
2.43.0


From ca21dbec3f19c6acc922806842df8929f26c7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 02/38] fix: adheres_to_structure answers False for short
 buffers and unknown message ids

---
 inference/buffer_segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..e74fdf7 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -63,8 +63,8 @@ class BufferStructure:
         :param buffer: candidate buffer
         """
         for idx, msg_id in self.structure.items():
-            hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
-            if hdr.msg_id != msg_id:
+            hdr = buffer[idx:idx + meta.header_len]
+            if len(hdr) != meta.header_len or hdr[5] != msg_id:  # too short, or a different message
                 return False
         return True
 
-- 
2.43.0


From 7d1b3d82c7a6980cd4f01d5e54f5dd2017240031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 03/38] fix: get_msg_fields returns a (fields, description)
 tuple when no message is found

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e74fdf7..60ca2cb 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From b71b743fd136ba3f1a8cf07fef07d38f3ded3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 04/38] fix: bit models stay two-column when every bit seen so
 far has the same value

---
 decoders/classifiying_decoder.py     |  2 +-
 decoders/combined_decoder.py         |  2 +-
 decoders/combined_unified_decoder.py |  2 +-
 decoders/entropy_bitwise_decoder.py  |  8 ++++----
 inference/clustering.py              |  2 +-
 utils/information_theory.py          | 12 ++++++++----
 6 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..30e6a19 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -154,7 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
+        dist = prob(self.models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..13613e9 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -111,7 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..3c878b3 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -121,7 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..319b522 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -97,7 +97,7 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, [0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +207,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, [0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +372,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            self.a_distribution = prob(self.model_a_data, [0, 1])
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +424,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            self.b_distribution = prob(self.model_b_data, [0, 1])
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..608fd05 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -63,7 +63,7 @@ class BufferClassifier:
         self.samples += 1
         if self.samples < self.min_data_size:
             sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            self.__add_cluster(prob(sample, [0, 1]))
             return -1
         if not self.init:
             self.merge_clusters()
diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..aae3503 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -6,10 +6,12 @@ from utils.custom_exceptions import UnsupportedDtype
 import numpy.typing as npt
 
 
-def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_], list[Any]]:
+def prob_with_alphabet(data: npt.NDArray[Any], alphabet: Optional[list[Any]] = None) -> \
+        tuple[npt.NDArray[np.float_], list[Any]]:
     """Estimate the probability distribution given samples. Doesn't work with floating point values.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: for 2D data, the known alphabet. If None it is inferred from the values observed in data.
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
@@ -18,7 +20,8 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
     if data.ndim == 2:
-        alphabet: list[Any] = np.unique(data).tolist()
+        if alphabet is None:
+            alphabet = np.unique(data).tolist()
         alphabet_size = len(alphabet)
         pr: npt.NDArray[np.float_] = np.zeros((data.shape[0], alphabet_size))
         num_samples = data.shape[1]
@@ -39,13 +42,14 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
         raise ValueError("only scalar and vector RV's currently supported (dim=1,2)")
 
 
-def prob(data: npt.NDArray[Any]) -> npt.NDArray[np.float_]:
+def prob(data: npt.NDArray[Any], alphabet: Optional[list[Any]] = None) -> npt.NDArray[np.float_]:
     """A wrapper around prob_with_alphabet which doesn't return the alphabet.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: for 2D data, the known alphabet. If None it is inferred from the values observed in data.
     :return: a 2D array of probabilities. Rows are RV dimension, and columns are alphabet size.
     """
-    pr, alphabet = prob_with_alphabet(data)
+    pr, alphabet = prob_with_alphabet(data, alphabet)
     return pr
 
 
-- 
2.43.0


From 60883e46e05678d9b47669299be7df882976fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 05/38] fix: a model whose only structural bit is bit 0 is not
 an empty model

---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 30e6a19..c4a17f4 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -174,7 +174,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -228,7 +228,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 13613e9..b52a514 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 3c878b3..2b8679a 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 319b522..6a6d8a9 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -456,7 +456,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From 365a3c8199e5647cfd359b3f823797ba433dea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 06/38] fix: confidence scheme 2 of the weighted entropy
 decoder was unreachable

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 6a6d8a9..2366c37 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -477,7 +477,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From d1eba3e3c524b59ba95e349b70c07bc5cdad2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 07/38] fix: clip model llr by the largest channel llr
 magnitude, not the largest signed value

---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index c4a17f4..cd58dbf 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 2366c37..89fd1a6 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -113,7 +113,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -490,7 +490,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From cb78b780a7dc472f03a0bfc951a90d19ce0f0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 08/38] fix: flipping decoder reads model values by model
 index, not codeword index

---
 decoders/entropy_bitwise_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 89fd1a6..003f250 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -222,7 +222,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         # index of structural (low entropy) elements among codeword
         self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
-        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
+        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[
+            self.entropy < self.entropy_threshold]
         prediction = np.array(observation, dtype=np.int_)
         prediction[self.structural_elements] = self.structural_values
         return prediction
-- 
2.43.0


From b9dabb817fab5f05a7e2235a2f6dc1d94784442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 09/38] fix: DUDE decoder no longer modifies the caller's llr
 array

---
 decoders/classifying_DUDE_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..64b13c2 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = channel_llr.copy()  # the received word belongs to the caller
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-- 
2.43.0


From 55ed739bff76b448302403714e4ba28556ac4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:45 +0000
Subject: [PATCH 10/38] fix: cluster hard bits are the majority values

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 608fd05..f136dfd 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From f78f47599824f397bfdea8792dfaed3d6ad52780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 11/38] fix: non-finite samples of corrupted float fields no
 longer break the field model

---
 inference/statistical_models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..40ea5a1 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -72,8 +72,9 @@ class FieldModel:
         return self._std
 
     def _update(self) -> None:
-        if self.samples:
-            self._mean, self._std = norm.fit(self.samples)
+        samples = [sample for sample in self.samples if np.isfinite(sample)]  # a corrupted float may be nan or inf
+        if samples:
+            self._mean, self._std = norm.fit(samples)
             self._up2date = True
 
     def pdf(self, x: int) -> float:
@@ -92,6 +93,8 @@ class FieldModel:
             self._update()
         if self._std <= 0:
             return (1, 0) if value == self._mean else (0, 0)
+        if np.isnan(value):  # never a valid value
+            return 0, self._std
         normalized_distance = abs(self._mean - value) / self._std  # as number of standard deviations
         return 1 - erf(normalized_distance / np.sqrt(2)), self._std  # the probability that the value is not an outlier
 
-- 
2.43.0


From db52238d414ea6d4fe427624dd4e8130636bd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 12/38] fix: OnlineDude with k=0 keeps an empty context

---
 inference/dude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..71fafb6 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -46,7 +46,7 @@ class OnlineDude:
         self.contexts[self._last_context][observation] += 1
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
-- 
2.43.0


From ac02896826b7e7788a25d5e6eb882b3b23334a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 13/38] fix: Markov source conditions on the preceding states

---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From ccb887a4248d6a31a672cd4ffbd647955d846c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 14/38] fix: stats fallback for absent classes compared numpy
 bool by identity

---
 utils/performance_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..b03650b 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -14,7 +14,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
@@ -27,7 +27,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             if denominator[label] > 0:  # if there are some correct predictions for this class
                 _f1[label] = 2 * (_precision[label] * _recall[label]) / denominator[label]
             else:  # if there are no correct predictions for this class
-                _f1[label] = 1 if no_true_positives[label] is True else 0  # if there are no true positives, then 1, else 0
+                _f1[label] = 1 if no_true_positives[label] else 0  # if there are no true positives, then 1, else 0
     _accuracy = np.sum(np.diag(cm)) / np.sum(cm)
     return cm, _recall, _precision, _f1, _accuracy
 
-- 
2.43.0


From 5e821b82a56a5884e42530cab0323b945420d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 15/38] fix: ber counts differing bits for unsigned and boolean
 arrays

---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index b03650b..b359e94 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(ground_truth != predicted) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From 83119f598f44ca656b41c2d3dc26e143bdafd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 16/38] fix: Hellinger distance of equal distributions is 0,
 not nan, under rounding

---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index aae3503..908dfe7 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -103,9 +103,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk), axis=1), 0))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk)), 0))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From c189c0ce949d8520756e4c80f2acefa672c17cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 17/38] fix: pack info bits into bytes before segmenting them

---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index b52a514..10f7ba1 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -185,14 +185,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -288,7 +288,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 2b8679a..0b5a78e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -215,14 +215,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -318,7 +318,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From e36cf37546b1d2d2be9760decaa884bb53794cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 18/38] fix: MAVLink decoder does not learn into the last
 cluster while its classifier trains

---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..b5d23da 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:  # label is negative during training phase of classifier
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From 121672dd95683af716ca30fecf58df07d8e2c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 19/38] fix: label a buffer once, not once per segmentation
 iteration

---
 decoders/mavlink_decoder.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index b5d23da..b66c773 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
-- 
2.43.0


From e328e84f698259644a62b2c2c28d7fea4591fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 20/38] fix: forcing analysis before a structure is known no
 longer raises

---
 decoders/combined_decoder.py         | 2 ++
 decoders/combined_unified_decoder.py | 2 ++
 decoders/mavlink_decoder.py          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 10f7ba1..bd469a2 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -222,6 +222,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing was forced
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 0b5a78e..1fc451e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -252,6 +252,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing was forced
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index b66c773..e6773b1 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -249,6 +249,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing was forced
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From ee9274ebdbdb9cff62193d0962961c41cbaef9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 21/38] fix: classifier analysis counts damaged fields once,
 not once per bit error

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index bd469a2..9a9b742 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -210,9 +210,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 1fc451e..0a3ad6f 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -240,9 +240,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index e6773b1..247caeb 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -237,9 +237,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From 69a897d97249f9671fa32eda0dd77023095eb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 22/38] fix: MAVLink model predictions tolerate fields the
 model has not seen yet

---
 decoders/combined_decoder.py         | 7 +++++--
 decoders/combined_unified_decoder.py | 7 +++++--
 decoders/mavlink_decoder.py          | 7 +++++--
 inference/statistical_models.py      | 3 ++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 9a9b742..40ef186 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -148,8 +148,11 @@ class CombinedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields the model doesn't know yet have no prediction
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 0a3ad6f..bfbda7e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -158,8 +158,11 @@ class CombinedUnifiedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields the model doesn't know yet have no prediction
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 247caeb..24b5971 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -175,8 +175,11 @@ class MavlinkRectifyingDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields the model doesn't know yet have no prediction
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 40ea5a1..ecd862a 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -376,7 +376,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models:  # bits of fields the model doesn't know are zero
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From 156d77ac0262d9a27f1a7be9d354850e194c9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:28 +0000
Subject: [PATCH 23/38] fix: combined decoder learns only the model bits, so a
 model shorter than the codeword works

---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 40ef186..b3312cc 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -300,7 +300,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[:self.model_length], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[:self.model_length], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From e0cc0fc1a9debc74e56d3ec3a5c74f3630a927e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 24/38] fix: num2bits of a char field no longer raises

---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index ecd862a..d35b782 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -14,7 +14,7 @@ import struct
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     # cast first
     if field_type == "char":
-        num = ord(num)
+        num = bytes([ord(num)])  # the struct format of a char takes a bytes object
     elif "uint" in field_type:
         num = int(round(num)) if num >= 0 else 0
     elif "int" in field_type:
-- 
2.43.0


From c93d111035dd0c1fef18ab7e85e83501d3389c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:48 +0000
Subject: [PATCH 25/38] fix: a predefined model shorter than the model bits no
 longer raises

---
 decoders/entropy_bitwise_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 003f250..d965da0 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -42,6 +42,7 @@ class EntropyBitwiseDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
+            self.model_bits_idx = self.model_bits_idx[:self.model_length]  # bits the model doesn't describe are not model bits
             self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
@@ -151,6 +152,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
+            self.model_bits_idx = self.model_bits_idx[:self.model_length]  # bits the model doesn't describe are not model bits
             self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
-- 
2.43.0


From d96d76e852958d0d839fa81d218a67ac5ebf1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:58 +0000
Subject: [PATCH 26/38] fix: confidence scheme 4 works before both models have
 data

---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index d965da0..cd9ce49 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -275,13 +275,13 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         self.estimator = estimator
         self.bit_flip = bit_flip
         self.corrected_dist = corrected_dist
+        self.a_normalized_variance = 1.0  # of an untrained model, as a portion of the variance of a uniform distribution
+        self.b_normalized_variance = 1.0
         if estimator == "Bayes":
             self.a_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From 6512730834bd79e12c753e5808738e159b8192e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 27/38] fix: bit forcing of the classifying decoder uses the
 buffer's own cluster model, not cluster 0

---
 decoders/classifiying_decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index cd58dbf..0fffb61 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -192,7 +192,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -224,10 +224,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From 10f4438f7910350cf8269ddaf6d10adf08aacb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:48 +0000
Subject: [PATCH 28/38] fix: F1 of a class that never occurs no longer depends
 on the other classes

---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index b359e94..d155b4c 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -19,7 +19,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
     denominator = _precision + _recall
-    if denominator.all() > 0:  # if there are some correct predictions for all classes
+    if (denominator > 0).all():  # if there are some correct predictions for all classes
         _f1 = 2 * (_precision * _recall) / denominator
     else:  # some classes have no correct predictions
         _f1 = np.zeros(cm.shape[0])
-- 
2.43.0


From 4792edd06ce7e78bad68ab806e1ebbd90b229036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:02 +0000
Subject: [PATCH 29/38] fix: analyse rectification before the model learns from
 the buffer, so debug works on a label's first success

---
 decoders/mavlink_decoder.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 24b5971..9b73692 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -118,18 +118,18 @@ class MavlinkRectifyingDecoder(Decoder):
             bad_bits: NDArray[np.int_]
             decoder_input, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \
                 segmented_bits = self.model_prediction(decoder_input, label)
+            if self.debug:  # before the model learns from this buffer
+                classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
+                                                                  label)
+                forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)
+            else:
+                classifier_performance = {}
+                forcing_performance = {}
             estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity, \
                 label = self.decode_and_update_model(decoder_input, label, channel_bits)
             all_iteration += iterations
             if decode_success:
                 break
-        if self.debug:
-            classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
-                                                              label)
-            forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)
-        else:
-            classifier_performance = {}
-            forcing_performance = {}
 
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
-- 
2.43.0


From ce78ada5040662221833fbe56a30cff912bc9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:21 +0000
Subject: [PATCH 30/38] fix: combined decoders keep their own copy of the bits
 they learn from

---
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index b3312cc..982e070 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -103,7 +103,7 @@ class CombinedDecoder(Decoder):
             print(self.model_length)
             print(len(bits))
             raise IncorrectBufferLength()
-        arr = bits[np.newaxis]
+        arr = np.array(bits)[np.newaxis]  # the model keeps its own copy, bits may be a view of the returned estimate
 
         self.entropy_models_data[cluster_id] = arr.T if self.entropy_models_data[cluster_id].size == 0 else \
             np.append(self.entropy_models_data[cluster_id], arr.T, axis=1)
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index bfbda7e..84e4428 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -113,7 +113,7 @@ class CombinedUnifiedDecoder(Decoder):
             print(self.model_length)
             print(len(bits))
             raise IncorrectBufferLength()
-        arr = bits[np.newaxis]
+        arr = np.array(bits)[np.newaxis]  # the model keeps its own copy, bits may be a view of the returned estimate
 
         self.entropy_models_data[cluster_id] = arr.T if self.entropy_models_data[cluster_id].size == 0 else \
             np.append(self.entropy_models_data[cluster_id], arr.T, axis=1)
-- 
2.43.0


From 52bcca04d81123b7bd3cccf5d75b9eef6bfbf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 31/38] fix: relabel maps each predicted label to a different
 true label

Only the chosen predicted label was taken out of the counts, so a true label
split over two clusters was assigned to both of them and another true label to none.
---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..080a82d 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -33,6 +33,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
         reduced_prediction_counts[:, predicted_label] = -1
+        reduced_prediction_counts[true_label, :] = -1
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
     labels_map[remaining_predicted_label] = remaining_true_label
-- 
2.43.0


From b57e6b02cc0614931b091cf713c8b0caeb21019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 32/38] fix: relabel takes any number of predictions when the
 true labels come in turns

---
 runs/clsutering_analysis/functions.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 080a82d..087432c 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -9,16 +9,13 @@ def relabel(predicted_labels, n_classes, real_labels=None):
     :param real_labels: array of real labels. If None, then the real labels are assumed to be in consecutive order.
     :return:
     """
-    if real_labels is None:
-        predictions = np.zeros((n_classes, len(predicted_labels)//n_classes))
-    else:
-        predictions = -np.ones((n_classes, len(predicted_labels)))
+    predictions = -np.ones((n_classes, len(predicted_labels)))
     for real_label in range(n_classes):
         if real_labels is None:
-            predictions[real_label] = predicted_labels[real_label::n_classes]
+            p = predicted_labels[real_label::n_classes]
         else:
             p = predicted_labels[real_labels == real_label]
-            predictions[real_label, :len(p)] = p
+        predictions[real_label, :len(p)] = p
     # now find which predicted cluster has the most samples of each real label
     # and assign that cluster to that real label
     prediction_counts = np.zeros((n_classes, n_classes))
-- 
2.43.0


From 1f949eac317a7cc001a92d816273167ee2c23dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 33/38] fix: signature check remembers the timestamp of every
 accepted frame and of no forged one

---
 mavlink_utils/HC_dialect.py      | 4 +++-
 mavlink_utils/minimal_dialect.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mavlink_utils/HC_dialect.py b/mavlink_utils/HC_dialect.py
index ce18dc0..605507e 100644
--- a/mavlink_utils/HC_dialect.py
+++ b/mavlink_utils/HC_dialect.py
@@ -8796,7 +8796,6 @@ class MAVLink(object):
                 if timestamp + 6000*1000 < self.signing.timestamp:
                     # print('bad new stream ', timestamp/(100.0*1000*60*60*24*365), self.signing.timestamp/(100.0*1000*60*60*24*365))
                     return False
-                self.signing.stream_timestamps[stream_key] = timestamp
                 # print('new stream')
 
             h = hashlib.new('sha256')
@@ -8813,6 +8812,9 @@ class MAVLink(object):
                 # print('sig mismatch')
                 return False
 
+            # the signature is good: older timestamps on this stream are replays from now on
+            self.signing.stream_timestamps[stream_key] = timestamp
+
             # the timestamp we next send with is the max of the received timestamp and
             # our current timestamp
             self.signing.timestamp = max(self.signing.timestamp, timestamp)
diff --git a/mavlink_utils/minimal_dialect.py b/mavlink_utils/minimal_dialect.py
index 2efaac9..ab9b21f 100644
--- a/mavlink_utils/minimal_dialect.py
+++ b/mavlink_utils/minimal_dialect.py
@@ -2524,7 +2524,6 @@ class MAVLink(object):
                 if timestamp + 6000*1000 < self.signing.timestamp:
                     # print('bad new stream ', timestamp/(100.0*1000*60*60*24*365), self.signing.timestamp/(100.0*1000*60*60*24*365))
                     return False
-                self.signing.stream_timestamps[stream_key] = timestamp
                 # print('new stream')
 
             h = hashlib.new('sha256')
@@ -2541,6 +2540,9 @@ class MAVLink(object):
                 # print('sig mismatch')
                 return False
 
+            # the signature is good: older timestamps on this stream are replays from now on
+            self.signing.stream_timestamps[stream_key] = timestamp
+
             # the timestamp we next send with is the max of the received timestamp and
             # our current timestamp
             self.signing.timestamp = max(self.signing.timestamp, timestamp)
-- 
2.43.0


From a129dfb6e7c633e9055ee756e7408b1edb1c50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 34/38] fix: payload of a decoded MAVLink 2 message excludes
 the header

---
 mavlink_utils/HC_dialect.py      | 2 +-
 mavlink_utils/minimal_dialect.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mavlink_utils/HC_dialect.py b/mavlink_utils/HC_dialect.py
index 605507e..08c0d1b 100644
--- a/mavlink_utils/HC_dialect.py
+++ b/mavlink_utils/HC_dialect.py
@@ -8951,7 +8951,7 @@ class MAVLink(object):
                 if m._signed:
                     m._link_id = msgbuf[-13]
                 m._msgbuf = msgbuf
-                m._payload = msgbuf[6:-(2+signature_len)]
+                m._payload = msgbuf[headerlen:-(2+signature_len)]
                 m._crc = crc
                 m._header = MAVLink_header(msgId, incompat_flags, compat_flags, mlen, seq, srcSystem, srcComponent)
                 return m
diff --git a/mavlink_utils/minimal_dialect.py b/mavlink_utils/minimal_dialect.py
index ab9b21f..71a5bf2 100644
--- a/mavlink_utils/minimal_dialect.py
+++ b/mavlink_utils/minimal_dialect.py
@@ -2679,7 +2679,7 @@ class MAVLink(object):
                 if m._signed:
                     m._link_id = msgbuf[-13]
                 m._msgbuf = msgbuf
-                m._payload = msgbuf[6:-(2+signature_len)]
+                m._payload = msgbuf[headerlen:-(2+signature_len)]
                 m._crc = crc
                 m._header = MAVLink_header(msgId, incompat_flags, compat_flags, mlen, seq, srcSystem, srcComponent)
                 return m
-- 
2.43.0


From a9bb306b47fa525c29b9cde8c12ffcdd9d908bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 35/38] fix: minimal dialect checks signatures on Python 3.9
 and later

---
 mavlink_utils/minimal_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mavlink_utils/minimal_dialect.py b/mavlink_utils/minimal_dialect.py
index 71a5bf2..62ce501 100644
--- a/mavlink_utils/minimal_dialect.py
+++ b/mavlink_utils/minimal_dialect.py
@@ -2505,7 +2505,7 @@ class MAVLink(object):
         def check_signature(self, msgbuf, srcSystem, srcComponent):
             '''check signature on incoming message'''
             if isinstance(msgbuf, array.array):
-                msgbuf = msgbuf.tostring()
+                msgbuf = msgbuf.tobytes()
             timestamp_buf = msgbuf[-12:-6]
             link_id = msgbuf[-13]
             (tlow, thigh) = self.mav_sign_unpacker.unpack(timestamp_buf)
-- 
2.43.0


From 88522b9f3a14d83fb23b977cbfe7579c70ed564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:10 +0000
Subject: [PATCH 36/38] fix: an erased channel word stays erased instead of
 becoming nan in the classifying decoder

---
 decoders/classifiying_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 0fffb61..fb296df 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -204,7 +204,8 @@ class ClassifyingEntropyDecoder(Decoder):
                     samples = channel_sample + model_llr*max_sample/max(np.abs(model_llr))
                 else:
                     samples = channel_sample + model_llr
-                samples *= max_sample/max(np.abs(samples))
+                if max(np.abs(samples)) > 0:  # nothing to rescale when nothing is left, e.g. in an erased word
+                    samples *= max_sample/max(np.abs(samples))
                 return samples, priors
 
             ## Methods 1&2 are shit. Don't USE!!! Use only method 0 & 3 until fixed.
-- 
2.43.0


From 639402ba1c579e7494cbc480239eb3f6841b62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:47 +0000
Subject: [PATCH 37/38] fix: statistics of large 64 bit field values are exact
 for constant fields and stay within the samples

---
 inference/statistical_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d35b782..e421282 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -74,7 +74,10 @@ class FieldModel:
     def _update(self) -> None:
         samples = [sample for sample in self.samples if np.isfinite(sample)]  # a corrupted float may be nan or inf
         if samples:
-            self._mean, self._std = norm.fit(samples)
+            mean, std = norm.fit(samples)
+            low, high = min(samples), max(samples)
+            self._mean = min(max(float(mean), low), high)  # of large 64 bit values, rounding may move it outside the samples
+            self._std = std if low < high else 0.
             self._up2date = True
 
     def pdf(self, x: int) -> float:
-- 
2.43.0


From 87478f80467fbd0acfb0af0ca8da497f330e4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:01 +0000
Subject: [PATCH 38/38] fix: decoders keep their own copy of the buffer
 structures they are given

---
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/mavlink_decoder.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 982e070..660888d 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -129,7 +129,7 @@ class CombinedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = [None if structure is None else dict(structure) for structure in buffer_structures]
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 84e4428..bccdde3 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -139,7 +139,7 @@ class CombinedUnifiedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = [None if structure is None else dict(structure) for structure in buffer_structures]
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 9b73692..78be4db 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -156,7 +156,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = [None if structure is None else dict(structure) for structure in buffer_structures]
 
     def model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
-- 
2.43.0

