From 732ebbacbd8450a5e545ede84ed61ff67cac84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 1/9] fix: allow editing and inverting sequences built from an
 array

UnitarySequence accepts a numpy array of entries but kept it as an array, so
appending, removing and inverse() then failed with AttributeError.
---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..2b14c2c 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From 011fb67bc56cd47f95fb6948714ba9c451c89c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 2/9] fix: invert each entry exactly once in
 UnitarySequence.inverse()

An entry object occurring twice in a sequence was inverted in place twice, so
the inverse sequence contained the original gate and disagreed with its product.
---
 stoqcompiler/unitary/unitary_sequence.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 2b14c2c..4f4f6b8 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -256,11 +256,10 @@ class UnitarySequence:
         :rtype: UnitarySequence.
         '''
         inverse_sequence = UnitarySequence(
-            self.get_dimension(), self.get_sequence_entries())
-        inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+            self.get_dimension(), [
+                UnitarySequenceEntry(
+                    entry.unitary.inverse(), entry.get_apply_to())
+                for entry in reversed(self.sequence_entries)])
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From aad0caacd71ea515da1b950a4b91fbdebba96be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 3/9] fix: list qubits as plain integers in display output

Randomly placed gates kept numpy integers, which numpy 2 displays as
'H[np.int64(0)]'.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..e4a82f4 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -26,7 +26,7 @@ class UnitarySequenceEntry:
         '''
         Creates a UnitarySequenceEntry object.
         '''
-        apply_to = list(apply_to)
+        apply_to = [int(qubit) for qubit in apply_to]
         assert len(apply_to) == len(set(apply_to))
         assert 2**len(apply_to) == unitary.get_dimension()
         assert np.min(apply_to) >= 0
-- 
2.43.0


From dd0c8e7d3bfdf7a053a6b30205b8557673fc65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 4/9] fix: display inverted gates of a sequence as inverse

The full unitary of an entry dropped the inverse flag, so the display output of
an inverted sequence was that of the original gates.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index e4a82f4..1af7147 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From 2f3dfa9772f639a9645250659a9fc772c96ccad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 5/9] fix: compile with an array of unitary primitives

Compiler accepts a numpy array of primitives, but compile() then failed on the
truth value of the array.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..2a7c4c0 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0


From 49f8acd960b6aafe0e603e66a4e67bb056bfa872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 6/9] fix: draw gates with probabilities when a primitive has
 no allowed qubits

Primitives whose allowed_apply_to list is empty were removed from the choices but
their probabilities were not, so drawing failed with ValueError.
---
 stoqcompiler/compiler/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2a7c4c0..21bf899 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,16 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        is_allowed = [
+            (u.get_allowed_apply_to() is None
+                or len(u.get_allowed_apply_to()) > 0)
+            for u in unitary_primitives]
+        if probabilities is not None and not np.all(is_allowed):
+            assert len(probabilities) == len(unitary_primitives)
+            probabilities = np.array(probabilities)[is_allowed]
+            probabilities = probabilities / np.sum(probabilities)
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for i, u in enumerate(unitary_primitives) if is_allowed[i]]
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From 9c3e988d1dca52ce303492cfe6fd59c66b31e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 7/9] fix: start every compilation with a fresh annealing
 schedule

beta was only initialised in the constructor, so a second compilation with the
same Compiler continued with the final beta of the previous one.
---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 21bf899..6692470 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -166,6 +166,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
@@ -262,6 +263,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
-- 
2.43.0


From c91c68582c212580862faea7326f479653dcd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 8/9] fix: tolerate rounding in close_to with a threshold

With a threshold of 1.0 a unitary was often not close to itself, because the
distance is only zero up to rounding; compilation with threshold 1.0 could then
run on forever although it had found the target.
---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..6957d40 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -298,7 +298,8 @@ class Unitary:
         distance = self.distance_from(u)
         if threshold is not None:
             max_distance = 1.0 - threshold
-            return distance <= max_distance
+            return (distance <= max_distance
+                    or np.isclose(distance, max_distance, rtol=0.0))
 
         return np.isclose(distance, 0.0)
 
-- 
2.43.0


From 31dbf6f03f274db2efcba81b5a152d788f73786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 9/9] fix: accept the documented threshold None in RAV
 generation

The docstrings define None as 1.0, but the range assertion failed on it with
TypeError.
---
 stoqcompiler/verification/verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..4191e11 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +146,7 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0

