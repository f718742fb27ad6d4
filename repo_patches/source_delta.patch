From 62f7a477652bc1009783c704ef952a29a39db2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 01/60] fix: SubConstantModN with constant 0 produced a
 constant outside [0, N)

---
 projectq/libs/math/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..497a00b 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -158,7 +158,8 @@ def SubConstantModN(a, N):  # pylint: disable=invalid-name
       * c >= 0
       * The value stored in the quantum register must be lower than N
     """
-    return AddConstantModN(N - a, N)
+    # N - 0 would not satisfy the pre-condition of AddConstantModN
+    return AddConstantModN(N - a if a != 0 else 0, N)
 
 
 class MultiplyByConstantModN(BasicMathGate):
-- 
2.43.0


From 32849c88a34d5d6b3223e816a59b18765f789aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 02/60] fix: QubitOperator equality ignored the terms, so the
 optimizer cancelled different operators

---
 projectq/ops/_qubit_operator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..569f1ff 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -581,6 +581,10 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if other is a QubitOperator with the same terms and coefficients."""
+        return isinstance(other, self.__class__) and self.terms == other.terms
+
     def __hash__(self):
         """Compute the hash of the object."""
         return hash(str(self))
-- 
2.43.0


From fa904950222a9a5a8324bc70bc7e1771de2be25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 03/60] fix: QPE and QAA equality ignored their unitary,
 algorithm and oracle

---
 projectq/ops/_qaagate.py | 8 ++++++++
 projectq/ops/_qpegate.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..ecd7151 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,11 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if other amplifies the same algorithm with the same oracle."""
+        return isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..ce54634 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if other estimates the phase of the same unitary."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 7f674fc1416f4192c78ebcff77869f52ea5ef104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 04/60] fix: QubitOperator.get_merged multiplied the operators
 in the wrong order

---
 projectq/ops/_qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 569f1ff..e6176f6 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,7 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            return other * self  # other is applied after self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From 4484d9889d7b147c466f7fabf219da918966e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 05/60] fix: copying, inverting, merging and comparing commands
 ignored the control state

---
 projectq/ops/_command.py                       | 16 ++++++++++++++--
 projectq/setups/decompositions/controlstate.py |  7 ++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..411ecb9 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -116,6 +116,9 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
+        # control_state refers to the control qubits in the order given: reorder it like the control qubits
+        order = sorted(range(len(controls)), key=lambda i: controls[i].id)
+        self._control_state = ''.join(self._control_state[i] for i in order)
 
     @property
     def qubits(self):
@@ -135,6 +138,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +156,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +178,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -325,7 +336,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             other (Command): Command object to compare this to
 
         Returns: True if Command objects are equal (same gate, applied to same
-        qubits; ordered modulo interchangeability; and same tags)
+        qubits; ordered modulo interchangeability; same control state and same tags)
         """
         if (
             isinstance(other, self.__class__)
@@ -333,6 +344,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..2a32282 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -22,7 +22,7 @@ from copy import deepcopy
 
 from projectq.cengines import DecompositionRule
 from projectq.meta import Compute, Uncompute, has_negative_control
-from projectq.ops import BasicGate, X
+from projectq.ops import BasicGate, CtrlAll, X
 
 
 def _decompose_controlstate(cmd):
@@ -33,9 +33,10 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
-    cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd = deepcopy(cmd)  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd.control_state = CtrlAll.One
+    orig_engine.receive([new_cmd])
     Uncompute(orig_engine)
 
 
-- 
2.43.0


From 0ea3653c3bc7562fc3db1ba9145d108a22c05d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 06/60] fix: canonical_ctrl_state accepted negative integers
 and returned a malformed pattern

---
 projectq/meta/_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..0d51737 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -60,6 +60,8 @@ def canonical_ctrl_state(ctrl_state, num_qubits):
         return '0' * num_qubits
 
     if isinstance(ctrl_state, int):
+        if ctrl_state < 0:
+            raise ValueError(f'Control state specified as {ctrl_state} is negative')
         # If the user inputs an integer, convert it to binary bit string
         converted_str = f'{ctrl_state:b}'.zfill(num_qubits)[::-1]
         if len(converted_str) != num_qubits:
-- 
2.43.0


From b583167e281f239dc41bad2dc7db09310b345f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 07/60] fix: AutoReplacer added inverse rules to the shared
 rule set, doubling it with every undecomposed gate

---
 projectq/cengines/_replacer/_replacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..a71526d 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -162,7 +162,7 @@ class AutoReplacer(BasicEngine):
                     if level < len(gate_mro):
                         class_name = gate_mro[level].__name__
                         try:
-                            potential_decomps = rules[class_name]
+                            potential_decomps = list(rules[class_name])
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From 50d48f3329c26191bdbabf6d90875e6711fed371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 08/60] fix: decompositions of one-qubit unitaries lost
 precision in acos and failed for nearly diagonal matrices

---
 projectq/setups/decompositions/arb1qubit2rzandry.py      | 2 +-
 projectq/setups/decompositions/carb1qubit2cnotrzandry.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..1dc90e9 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -183,7 +183,7 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        tmp = math.atan2(abs(matrix[1][0]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..1e711cc 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -137,7 +137,7 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    tmp = math.atan2(abs(matrix[1][1]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From 3278776b46b8d9999f836696a1cf1a26db68d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 09/60] fix: LocalOptimizer dropped multi-qubit identity gates
 from one qubit's pipeline only

---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 864e3158ef0280e40e7c5134c3d8e2a10440e971 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 10/60] fix: phase estimation and amplitude amplification
 ignored their control qubits

---
 .../decompositions/amplitudeamplification.py  | 31 +++++++-------
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..5f7da7f 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,27 +98,28 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas
+        get_inverse(QFT) | qpe_ancillas
 
 
 #: Decomposition rules
-- 
2.43.0


From af6c607db0cdc3f39ac4491a141a45ae0cbbeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 11/60] fix: phase estimation fed the inverse Fourier transform
 its register in the wrong order

---
 projectq/setups/decompositions/phaseestimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 5f7da7f..47f0a4b 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -118,8 +118,9 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
                     with Control(eng, ancilla):
                         unitary | system_qubits
 
-        # Inverse QFT on the ancillas
-        get_inverse(QFT) | qpe_ancillas
+        # Inverse QFT on the ancillas. Ancilla i carries the phase of U^(2**i) while the (swap-less) QFT leaves the
+        # fastest phase on the first qubit, hence the reversed order: the first ancilla holds the most significant bit.
+        get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From 4f8380903539f42853b06fd48c0eec2ca2d3529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:41 +0000
Subject: [PATCH 12/60] fix: restricted gate sets accepted negatively
 controlled gates as the positively controlled ones

---
 projectq/setups/_utils.py            | 4 ++++
 projectq/setups/restrictedgateset.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..1b6ebaf 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -139,6 +140,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
+        if has_negative_control(cmd):
+            # The controlled gates of the gate set act if all their control qubits are 1
+            return False
         if isinstance(cmd.gate, allowed_gate_classes):
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..ce55c0d 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -160,6 +161,9 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
             return True
         if isinstance(cmd.gate, allowed_gate_classes):
             return True
+        if has_negative_control(cmd):
+            # The controlled gates of the gate set act if all their control qubits are 1
+            return False
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
         if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
-- 
2.43.0


From 8dbc960ca04f1e10b63d9df7e2635bf3d774991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 13/60] fix: AddConstantModN circuit overflowed when the
 modulus needs the highest bit of the register

---
 projectq/libs/math/_constantmath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..12e0128 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,10 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    # The sign of x + constant - N needs to fit into the register
+    headroom = eng.allocate_qureg(1 if N > 1 << (len(quint) - 1) else 0)
+    quint = list(quint) + list(headroom)
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From 9dde6f10a6fd08cfa17c2ae9db10b3e4632857e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 14/60] fix: grid and linear setups let controlled one-qubit
 gates pass as members of the gate set

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 1b6ebaf..df8adb9 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -105,12 +105,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_classes2 = []  # 2-qubit gates
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -120,13 +121,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -143,7 +145,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if has_negative_control(cmd):
             # The controlled gates of the gate set act if all their control qubits are 1
             return False
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From aabe740fd6293912fc68cf7a99bd2b1732e08d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 15/60] fix: simulators returned an impossible measurement
 outcome if the random number was exactly 0

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 projectq/backends/_sim/_pysim.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..5a87c2f 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -154,7 +154,7 @@ public:
 
         // pick entry at random with probability |entry|^2
         std::size_t pick = 0;
-        while (P < rnd && pick < vec_.size())
+        while (P <= rnd && pick < vec_.size())
             P += std::norm(vec_[pick++]);
 
         pick--;
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..0f3e756 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -76,7 +76,7 @@ class Simulator:
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
+        while val <= random_outcome and i_picked < len(self._state):
             val += _np.abs(self._state[i_picked]) ** 2
             i_picked += 1
 
-- 
2.43.0


From c966744a64130e43515c7d202dda113cfc62e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 16/60] fix: C++ simulator's get_amplitude ignored unknown
 qubits after the known ones

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 5a87c2f..05c23b5 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -378,7 +378,7 @@ public:
             chk |= 1UL << map_[ids[i]];
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
-        if (chk + 1 != vec_.size())
+        if (!check_ids(ids) || chk + 1 != vec_.size())
             throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         return vec_[index];
     }
-- 
2.43.0


From 6bcb90cec7b94367d408d88a288166122ae467d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 17/60] fix: C++ simulator accepted wave functions of the wrong
 size, writing beyond the state vector

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 05c23b5..01e328a 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -32,6 +32,7 @@
 #include <tuple>
 #include <random>
 #include <functional>
+#include <stdexcept>
 
 
 class Simulator{
@@ -440,7 +441,8 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
-- 
2.43.0


From b31788d0baef097234e54cbd712c27488354eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 18/60] fix: Python simulator corrupted its state when a qubit
 ID was allocated twice

---
 projectq/backends/_sim/_pysim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 0f3e756..d1cf562 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -108,7 +108,12 @@ class Simulator:
 
         Args:
             qubit_id (int): ID of the qubit which is being allocated.
+
+        Raises:
+            RuntimeError: If the ID is already in use.
         """
+        if qubit_id in self._map:
+            raise RuntimeError("AllocateQubit: ID already exists. Qubit IDs should be unique.")
         self._map[qubit_id] = self._num_qubits
         self._num_qubits += 1
         self._state.resize(1 << self._num_qubits, refcheck=_USE_REFCHECK)
-- 
2.43.0


From 2da3143897d30dff07d7f4303a64f12213c12c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 19/60] fix: subtracting a QubitOperator from itself in place
 no longer fails

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index e6176f6..124842d 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -501,7 +501,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -530,7 +530,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From 40959e596751289a03e9590fbfc5cb522c7fd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 20/60] fix: the comparator circuit restores both of its inputs

---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..8a98495 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -218,11 +218,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From 48b6f38d5329fa3aaebfd5620fa138dd066aa3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 21/60] fix: the comparator gate is its own inverse

---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 497a00b..5fd2bb7 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -395,7 +395,7 @@ class ComparatorQuantumGate(BasicMathGate):
 
     def get_inverse(self):
         """Return the inverse of this gate."""
-        return AddQuantum
+        return self
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From 10b150af03e91023e077d98347c48213e2709ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 22/60] fix: quantum multiplication uses every bit of its first
 factor and its inverse undoes it

---
 projectq/libs/math/_quantummath.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 8a98495..46d67c9 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -496,18 +496,11 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-
-    for j in range(2, n_a):
+    for j in range(1, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -536,20 +529,14 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in range(n_a - 1, 0, -1):
         with Control(eng, quint_b[j]):
             SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
+
     for i in range(0, n_a):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-- 
2.43.0


From 2fcd2cc1baa2b5f93ba74ac9b391ae563e89de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 23/60] fix: carry and comparison of one-qubit numbers

---
 projectq/libs/math/_quantummath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 46d67c9..6793208 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From e71b12967f9cb718132f1fc17893f4e789bdbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 24/60] fix: quantum division is correct for divisors with the
 highest bit set

---
 projectq/libs/math/_quantummath.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 6793208..27e065f 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -327,6 +327,9 @@ def quantum_division(eng, dividend, remainder, divisor):
     j = len(remainder)
     n_dividend = len(dividend)
 
+    # The highest qubit of the remainder holds the sign of the difference
+    headroom = eng.allocate_qubit()
+
     while j != 0:
         combined_reg = []
 
@@ -335,8 +338,7 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
-        SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
+        SubtractQuantum | (divisor[0:n_dividend] + list(headroom), combined_reg + [remainder[n_dividend - 1]])
         with Control(eng, remainder[n_dividend - 1]):
             AddQuantum | (divisor[0:n_dividend], combined_reg)
         X | remainder[n_dividend - 1]
@@ -347,6 +349,7 @@ def quantum_division(eng, dividend, remainder, divisor):
         del dividend[n_dividend]
 
         j -= 1
+    del headroom
 
 
 def inverse_quantum_division(eng, remainder, quotient, divisor):
@@ -369,19 +372,21 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
     j = 0
     n_quotient = len(quotient)
 
+    # The highest qubit of the remainder held the sign of the difference
+    headroom = eng.allocate_qubit()
+
     while j != n_quotient:
         X | quotient[0]
         with Control(eng, quotient[0]):
             SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
-
-        AddQuantum | (divisor, remainder)
+        AddQuantum | (divisor + list(headroom), remainder + [quotient[0]])
 
         remainder.insert(n_quotient, quotient[0])
         quotient.insert(n_quotient, remainder[0])
         del remainder[0]
         del quotient[0]
         j += 1
+    del headroom
 
 
 def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: disable=invalid-name
-- 
2.43.0


From 3f8a176094cab69add6f1c6e36465a4877e4b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 25/60] fix: modular inverses are exact for wide numbers
 (integer instead of float division)

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 12e0128..433a049 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -124,7 +124,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From 8b3fcafe1a1733d89ee3eadac8b6993ea0320119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 26/60] fix: classical simulator honours the control state of
 negatively controlled gates

---
 projectq/backends/_sim/_classical_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..a74b0a9 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,8 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        required = self._mask(qb for qb, state in zip(cmd.control_qubits, cmd.control_state) if state == '1')
+        meets_controls = self._state & controls_mask == required
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
-- 
2.43.0


From cf3f0c6403e74609513f1f515200488b5ba28c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 27/60] fix: math emulation of the Python simulator no longer
 overwrites amplitudes with those of invalid contents

---
 projectq/backends/_sim/_pysim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index d1cf562..014c033 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -222,7 +222,7 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                newstate[new_i] += state
             else:
                 newstate[i] = state
 
-- 
2.43.0


From fcff661b625b3c33f1c2d98f78abe31ef11717e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 28/60] fix: emulated inverse of quantum addition only undoes
 the carry if there was one

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 5fd2bb7..a15f3d2 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -286,8 +286,8 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
-                # Flip the last bit of the carry register
+            if len(a) == 3 and a[1] < a[0]:
+                # The addition carried: flip the last bit of the carry register
                 a[2] ^= 1
 
             a[1] -= a[0]
-- 
2.43.0


From e12abb3a41d8528e1039013db8845c59ad37b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 29/60] fix: unitary simulator applies multi-qubit matrices in
 the order of the targets given

---
 projectq/backends/_unitary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..6644564 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -42,6 +42,8 @@ def _qidmask(target_ids, control_ids, n_qubits):
     perms = np.array([x[::-1] for x in itertools.product("01", repeat=n_qubits)]).astype(int)
     all_ids = np.array(range(n_qubits))
     irel_ids = np.delete(all_ids, control_ids + target_ids)
+    # row/column of the gate matrix for each basis state: the first target qubit is the least significant one
+    target_values = perms[:, target_ids] @ (1 << np.arange(len(target_ids)))
 
     if len(control_ids) > 0:
         cmask = np.where(np.all(perms[:, control_ids] == [1] * len(control_ids), axis=1))
@@ -54,10 +56,11 @@ def _qidmask(target_ids, control_ids, n_qubits):
             irel_mask = np.where(np.all(perms[:, irel_ids] == irel_perms[i], axis=1))
             common = np.intersect1d(irel_mask, cmask)
             if len(common) > 0:
-                mask_list.append(common)
+                mask_list.append(common[np.argsort(target_values[common])])
     else:
         irel_mask = np.array(range(perms.shape[0]))
-        mask_list.append(np.intersect1d(irel_mask, cmask))
+        common = np.intersect1d(irel_mask, cmask)
+        mask_list.append(common[np.argsort(target_values[common])])
     return mask_list
 
 
-- 
2.43.0


From e490880be7b51e726e56af052cffbd9e7157d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:56 +0000
Subject: [PATCH 30/60] fix: simulators execute negatively controlled
 operations as such when no engine converts them

---
 projectq/backends/_sim/_simulator.py | 13 ++++++++++++-
 projectq/backends/_unitary.py        |  7 ++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..d9b24f1 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -419,6 +419,11 @@ class Simulator(BasicEngine):
                 " engine to your list of compiler engines."
             )
 
+    def _flip(self, qubit_ids):
+        """Apply a NOT gate to each of the qubits."""
+        for qubit_id in qubit_ids:
+            self._simulator.apply_controlled_gate([[0, 1], [1, 0]], [qubit_id], [])
+
     def receive(self, command_list):
         """
         Receive a list of commands.
@@ -431,7 +436,13 @@ class Simulator(BasicEngine):
         """
         for cmd in command_list:
             if not cmd.gate == FlushGate():
-                self._handle(cmd)
+                # The kernels only know positive controls: flip the other control qubits for the time being
+                flipped = [qb.id for qb, state in zip(cmd.control_qubits, cmd.control_state) if state == '0']
+                self._flip(flipped)
+                try:
+                    self._handle(cmd)
+                finally:
+                    self._flip(flipped)
             else:
                 self._simulator.run()  # flush gate --> run all saved gates
             if not self.is_last_engine:
diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 6644564..ba205a0 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -28,14 +28,14 @@ from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, Meas
 from projectq.types import WeakQubitRef
 
 
-def _qidmask(target_ids, control_ids, n_qubits):
+def _qidmask(target_ids, control_ids, control_state, n_qubits):
     """
     Calculate index masks.
 
     Args:
         target_ids (list): list of target qubit indices
         control_ids (list): list of control qubit indices
-        control_state (list): list of states for the control qubits (0 or 1)
+        control_state (str): states required of the control qubits (0 or 1)
         n_qubits (int): number of qubits
     """
     mask_list = []
@@ -46,7 +46,7 @@ def _qidmask(target_ids, control_ids, n_qubits):
     target_values = perms[:, target_ids] @ (1 << np.arange(len(target_ids)))
 
     if len(control_ids) > 0:
-        cmask = np.where(np.all(perms[:, control_ids] == [1] * len(control_ids), axis=1))
+        cmask = np.where(np.all(perms[:, control_ids] == [int(state) for state in control_state], axis=1))
     else:
         cmask = np.array(range(perms.shape[0]))
 
@@ -241,6 +241,7 @@ class UnitarySimulator(BasicEngine):
             mask_list = _qidmask(
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
+                cmd.control_state,
                 self._num_qubits,
             )
             for mask in mask_list:
-- 
2.43.0


From 1cda915eeafd21514ca91166b0c81770c99b1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 31/60] fix: unitary simulator keeps the state across flushes,
 measurements, allocations and releases

---
 projectq/backends/_unitary.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index ba205a0..5d4a51c 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -99,7 +99,7 @@ class UnitarySimulator(BasicEngine):
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._state = np.array([1], dtype=complex)
         self._history = []
 
     @property
@@ -174,9 +174,17 @@ class UnitarySimulator(BasicEngine):
 
     def _flush(self):
         """Flush the simulator state."""
-        if not self._is_flushed:
-            self._is_flushed = True
-            self._state = self._unitary @ self._state
+        self._is_flushed = True
+
+    def _start_new_unitary(self):
+        """Move the current unitary to the history and continue with the identity on the remaining qubits."""
+        warnings.warn(
+            "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+            "previous unitary can be accessed in history"
+        )
+        self._history.append(self._unitary)
+        self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+        self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -189,13 +197,19 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            if not self._is_valid:
+                self._start_new_unitary()
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.concatenate([self._state, np.zeros_like(self._state)])
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
+            # A qubit that is released is never looked at again: measure it to get the state of the other qubits
+            qubit_id = cmd.qubits[0][0].id
+            outcome = self.measure_qubits([qubit_id])[0]
+            pos = self._qubit_map.pop(qubit_id)
+            self._state = np.array([amp for i, amp in enumerate(self._state) if (i >> pos) & 1 == outcome])
             self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
             self._num_qubits -= 1
             self._is_valid = False
@@ -226,16 +240,7 @@ class UnitarySimulator(BasicEngine):
             self._flush()
         else:
             if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
+                self._start_new_unitary()
 
             self._is_flushed = False
             mask_list = _qidmask(
@@ -248,6 +253,7 @@ class UnitarySimulator(BasicEngine):
                 cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
                 self._unitary = cache @ self._unitary
+                self._state = cache @ self._state
 
     def measure_qubits(self, ids):
         """
@@ -262,7 +268,7 @@ class UnitarySimulator(BasicEngine):
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
+        while val <= random_outcome and i_picked < len(self._state):
             val += np.abs(self._state[i_picked]) ** 2
             i_picked += 1
 
-- 
2.43.0


From 99d17e2f056306ad706b8d33688d20f83022daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 32/60] fix: flipping a CNOT controlled on |0> keeps its
 polarity

---
 projectq/cengines/_swapandcnotflipper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..1c70c9b 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,8 +18,8 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
-from projectq.ops import CNOT, NOT, All, H, Swap
+from projectq.meta import get_control_count, has_negative_control
+from projectq.ops import CNOT, NOT, All, H, Swap, X
 
 from ._basics import BasicEngine, ForwarderEngine
 from ._cmdmodifier import CommandModifier
@@ -106,10 +106,16 @@ class SwapAndCNOTFlipper(BasicEngine):
         target[0].engine = forwarder_eng
         control[0].engine = forwarder_eng
         if flip:
+            # the flipped CNOT triggers on |1>: turn a control on |0> into a control on |1>
+            negative_control = has_negative_control(cmd)
+            if negative_control:
+                X | control
             # flip the CNOT using Hadamard gates:
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if negative_control:
+                X | control
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From 1b4f7c7d5464f0b501ad8691f90302daffc8e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 33/60] fix: bounded mapper does not place new qubits on those
 still alive after a flush

---
 projectq/backends/_ionq/_ionq_mapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..66c5969 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,11 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # Skip the places of the qubits which are still alive from before the last flush
+            places_in_use = set(current_mapping.values())
+            while self._qubit_idx in places_in_use:
+                self._qubit_idx += 1
+
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From 28d545c15add0b99716ee3480543c180057d7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 34/60] fix: TimeEvolution is hashable, so that ResourceCounter
 can count it

---
 projectq/ops/_time_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..38a8303 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -202,3 +202,7 @@ class TimeEvolution(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 3c121e82eb5a8141fdaa404adb90cb57fe302c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 35/60] fix: ibm back-end declines controlled and other
 operations it cannot submit, instead of submitting something else

---
 projectq/backends/_ibm/_ibm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..e871d52 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -141,6 +141,11 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self.main_engine.mapper is None:
             raise RuntimeError('No mapper is present in the compiler engine list!')
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(
+                'Command not authorized. You should run the circuit with the appropriate ibm setup.'
+            )
+
         if self._clear:
             self._probabilities = {}
             self._clear = False
-- 
2.43.0


From 4626615a082eae2ca8ce3afde0bed288a18aec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 36/60] fix: aqt back-end declines controlled and other
 operations it cannot submit, instead of submitting something else

---
 projectq/backends/_aqt/_aqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..d144ef4 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -122,6 +122,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Args:
             cmd: Command to store
         """
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         if self._clear:
             self._probabilities = {}
             self._clear = False
-- 
2.43.0


From e67ccd6b2ba8e461dc0b7aa38fe3d0ef21a775f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 37/60] fix: ionq back-end declines controlled and other
 operations it cannot submit, instead of submitting something else

---
 projectq/backends/_ionq/_ionq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..d0c7813 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -172,6 +172,9 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._probabilities = {}
             self._clear = False
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         # No-op/Meta gates.
         # NOTE: self.main_engine.mapper takes care qubit allocation/mapping.
         gate = cmd.gate
-- 
2.43.0


From 1e68c74933c6db5553644894700457dce0e8e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 38/60] fix: awsbraket back-end declines controlled and other
 operations it cannot submit, instead of submitting something else

---
 projectq/backends/_awsbraket/_awsbraket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..9671d59 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -43,6 +43,7 @@ from projectq.ops import (
 )
 from projectq.types import WeakQubitRef
 
+from .._exceptions import InvalidCommandError
 from ._awsbraket_boto3_client import retrieve, send
 
 # TODO: Add MatrixGate to cover the unitary operation in the SV1 simulator
@@ -252,6 +253,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         """
         gate = cmd.gate
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         # Do not clear the self._clear flag for those gates
         if gate in (Deallocate, Barrier):
             return
-- 
2.43.0


From 9c08741151d062d96d388931c7a8b7676b16620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 39/60] fix: IBM back-end submitted the previous circuit again
 on a flush without new operations

---
 projectq/backends/_ibm/_ibm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index e871d52..e8d8280 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -268,6 +268,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # nothing was received since the last run
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
-- 
2.43.0


From c74c00efea70a9a22f334f87efb9cb69113379b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 40/60] fix: AQT back-end submitted the previous circuit again
 on a flush without new operations

---
 projectq/backends/_aqt/_aqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index d144ef4..92bee2c 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -232,6 +232,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
         Send the circuit via the AQT API using the provided user token / ask for the user token.
         """
+        # nothing was received since the last run
+        if self._clear:
+            return
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-- 
2.43.0


From 089f2735111564a2ea9df74c1fa09076dd37f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 41/60] fix: AQT back-end keeps the requested number of runs
 when an answer has another number of samples

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 92bee2c..ac5fa59 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -271,14 +271,14 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            num_runs = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 p_sum += probability
                 star = ""
                 if p_sum >= random_outcome and measured == "":
-- 
2.43.0


From 34b80ea9244fa86040690cbc65afb755796678c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 42/60] fix: IonQ back-end always returned the last state of
 the answer as the measured one

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index d0c7813..2bf4c63 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -335,7 +335,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            if measured == "" and (p_sum >= random_outcome or idx == len(states) - 1):
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
-- 
2.43.0


From ee616462c86aac49ca45ad1ef1f37776ec5423d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 43/60] fix: IonQ get_probability raised KeyError for states of
 probability 0 missing in the answer

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 2bf4c63..e0ee89f 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -252,7 +252,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             raise ValueError('Desired state and register must be the same length!')
 
         probs = self.get_probabilities(qureg)
-        return probs[state]
+        return probs.get(state, 0.0)
 
     def get_probabilities(self, qureg):
         """
-- 
2.43.0


From 7239e220a6592332190497641f6442ae17eebd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 44/60] fix: IonQ back-end compared mapped qubits with logical
 ids when looking for gates on measured qubits

---
 projectq/backends/_ionq/_ionq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index e0ee89f..3d641af 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_locations = set()
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = set()
             self._probabilities = {}
             self._clear = False
 
@@ -190,6 +192,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_locations.add(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -207,12 +210,12 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         #   in this operation.
         targets = [qb.id for qureg in cmd.qubits for qb in qureg]
         controls = [qb.id for qb in cmd.control_qubits]
-        if len(self._measured_ids) > 0:
+        if len(self._measured_locations) > 0:
             # Check any qubits we are trying to operate on.
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & self._measured_locations
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From 3c33cf51df60abaf3d44fb50d055210b2b6c0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 45/60] fix: IonQ back-end submitted too small a register when
 qubits were released before the flush

---
 projectq/backends/_ionq/_ionq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 3d641af..4c5b3aa 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -295,9 +295,13 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._retrieve_execution is None:
             qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
+            # Qubits released before the flush are not part of the mapping any more, but the circuit may use them
+            used = set(qubit_mapping.values())
+            for gate_dict in self._circuit:
+                used.update(gate_dict['targets'] + gate_dict.get('controls', []))
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(used) + 1,
                 'shots': self._num_runs,
                 'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
                 'meas_qubit_ids': measured_ids,
-- 
2.43.0


From 9895384db0e5be4b0a4ad7051267057d97993689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 46/60] fix: Azure back-end kept the measured qubits of earlier
 jobs

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..a6326f0 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -143,6 +143,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._probabilities = {}
             self._clear = False
             self._circuit = None
+            self._measured_ids = []
 
         gate = cmd.gate
 
-- 
2.43.0


From 1ec2fb8d3e0d125d7300071d555b4ddcf9f50e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 47/60] fix: Azure back-end read outcomes by logical id and as
 characters, so that measured zeros became ones

---
 projectq/backends/_azure/_azure_quantum.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index a6326f0..836636f 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -353,15 +353,20 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
             histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            # the k-th character is the outcome of location k: keep those of the measured qubits
+            locations = [self.main_engine.mapper.current_mapping[qid] for qid in self._measured_ids]
+            self._probabilities = {}
+            for k, v in histogram.items():
+                state = ''.join(k[location] for location in locations)
+                self._probabilities[state] = self._probabilities.get(state, 0) + v / self._num_runs
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 81a31b15741527639b52cff9e77236ed407fce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 48/60] fix: Azure back-end submitted too small a register when
 qubits were released before the flush

---
 projectq/backends/_azure/_azure_quantum.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 836636f..51b00cd 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -116,6 +116,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._used_locations = set()
         self._probabilities = {}
         self._clear = True
 
@@ -144,8 +145,10 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._clear = False
             self._circuit = None
             self._measured_ids = []
+            self._used_locations = set()
 
         gate = cmd.gate
+        self._used_locations.update(qubit.id for qureg in cmd.all_qubits for qubit in qureg)
 
         # No-op/Meta gates
         if isinstance(gate, (AllocateQubitGate, DeallocateQubitGate)):
@@ -280,10 +283,14 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             probability_dict[mapped_state] = probability_dict.get(mapped_state, 0) + probability
         return probability_dict
 
+    @property
+    def _num_locations(self):
+        # Qubits released before the flush are not part of the mapping any more, but the circuit may use them
+        return max(self._used_locations | set(self.main_engine.mapper.current_mapping.values())) + 1
+
     @property
     def _input_data(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = self._num_locations
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -305,7 +312,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
+        num_qubits = self._num_locations
         meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
-- 
2.43.0


From fc539d217d1754916a87d02e0256ee3d629db7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 49/60] fix: LaTeX header defined the styles {operator},
 {none}, {measure} and {xstyle} instead of those the picture uses

---
 projectq/backends/_circuits/_to_latex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..9fc8ffc 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
-- 
2.43.0


From efa0fbf03a35f8186323ca916468bedcd6d67406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 50/60] fix: LaTeX boxes had a middle node with a literal
 {self._op(...)} as its name

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 9fc8ffc..cd6737b 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From ddeabd943e5d04e1eda39293a3a3c5b7dfd21181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 51/60] fix: the circled 1/2 of a square-root Swap took the
 name of a qubit node, its lines led to an undefined node

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index cd6737b..49904d3 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{{\\dagger}}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
-- 
2.43.0


From cfadac68b78aac14ffedb5fbf8200e4bd884f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 52/60] fix: LaTeX drawer drew gates of other lines in parallel
 with draw_gates_in_parallel=False

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 49904d3..f462262 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -314,7 +314,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 while not circuit[_line][gate_idx] == cmds[i]:
                     gate_idx += 1
 
-                tikz_code.append(self.to_tikz(_line, circuit, gate_idx))
+                tikz_code.append(self.to_tikz(_line, circuit, gate_idx, draw_gates_in_parallel))
 
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
-- 
2.43.0


From 4dd075cc1bce341cc06a7013fc5c2f179f19586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 53/60] fix: CircuitDrawer.get_latex(ordered=True) ignored
 set_qubit_locations in the drawing order

---
 projectq/backends/_circuits/_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..3dc3203 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -278,7 +278,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [self._map[line] for line in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From 3eccd69163c6f3f993fe7e9e1a1756def7549259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 54/60] fix: circuit drawers dropped the earlier gates of a
 line when its qubit id was allocated again

---
 projectq/backends/_circuits/_drawer.py            | 2 +-
 projectq/backends/_circuits/_drawer_matplotlib.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 3dc3203..0bf410b 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -212,7 +212,7 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            self._qubit_lines.setdefault(qubit_id, [])
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..272ef2d 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -104,7 +104,7 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            self._qubit_lines.setdefault(qb_id, [])
             return
 
         if cmd.gate == Deallocate:
-- 
2.43.0


From 317446302a5109b3fac01e84ca6c462a05ab4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:47 +0000
Subject: [PATCH 55/60] fix: circuit drawers reported measurements of mapped
 qubits under the mapped id

---
 projectq/backends/_circuits/_drawer.py            | 10 +++++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 0bf410b..12b8df0 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,6 +233,13 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 272ef2d..7536720 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,13 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 90db2bb9be58cdb4de686826a88360d6601d6126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:47 +0000
Subject: [PATCH 56/60] fix: matplotlib drawer showed the inverse of a
 parametrised gate as the gate itself

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7536720..5fe1fb6 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -31,7 +31,7 @@ def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
     if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+        (gate_name, param_str, suffix) = re.search(r'(.+)\((.*)\)(.*)', gate_name).groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
@@ -43,7 +43,7 @@ def _format_gate_str(cmd):
                 else:
                     params_str_list.append(f"{param[:5]}...")
 
-        gate_name += f"({','.join(params_str_list)})"
+        gate_name += f"({','.join(params_str_list)}){suffix}"
     return gate_name
 
 
-- 
2.43.0


From f9d90f9d216513828ed4bc451f46f05d491c6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 57/60] fix: LaTeX boxes joined lines which were not started
 yet to an undefined node

---
 projectq/backends/_circuits/_to_latex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index f462262..40f76bb 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -319,6 +319,12 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
 
+            if len(lines) > 1 and gate not in (Swap, SqrtSwap, get_inverse(SqrtSwap)):
+                # a box also covers the lines between its targets, which have to be started first
+                for _line in range(min(lines), max(lines)):
+                    if self.op_count[_line] == 0:
+                        tikz_code.append(self.to_tikz(_line, circuit, 1, draw_gates_in_parallel))
+
             all_lines = lines + ctrl_lines
             pos = max(self.pos[ll] for ll in range(min(all_lines), max(all_lines) + 1))
             for _line in range(min(all_lines), max(all_lines) + 1):
-- 
2.43.0


From 09711b966756a7db989c1788dcfe5d84ecd0c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:03 +0000
Subject: [PATCH 58/60] fix: histogram passed registers within a list
 unflattened to back-ends with get_probabilities

---
 projectq/libs/hist/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/hist/_histogram.py b/projectq/libs/hist/_histogram.py
index d2bf255..11c1460 100644
--- a/projectq/libs/hist/_histogram.py
+++ b/projectq/libs/hist/_histogram.py
@@ -51,7 +51,7 @@ def histogram(backend, qureg):
         print("Consider calling histogram() with a sublist of the qubits.")
 
     if hasattr(backend, 'get_probabilities'):
-        probabilities = backend.get_probabilities(qureg)
+        probabilities = backend.get_probabilities(qubit_list)
     elif isinstance(backend, Simulator):
         outcome = [0] * len(qubit_list)
         n_outcomes = 1 << len(qubit_list)
-- 
2.43.0


From f2c8897e8959719e1080f920fc52c5a8cb41fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:16 +0000
Subject: [PATCH 59/60] fix: simulators accepted a list naming a qubit twice as
 an ordering of all qubits

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 9 ++++++++-
 projectq/backends/_sim/_pysim.py                 | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 01e328a..6add739 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -379,7 +379,7 @@ public:
             chk |= 1UL << map_[ids[i]];
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
-        if (!check_ids(ids) || chk + 1 != vec_.size())
+        if (!check_ids(ids) || chk + 1 != vec_.size() || ids.size() != map_.size())
             throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         return vec_[index];
     }
@@ -447,6 +447,13 @@ public:
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
 
+        // check that no qubit is listed twice
+        Map new_map;
+        for (unsigned i = 0; i < ordering.size(); ++i)
+            new_map[ordering[i]] = i;
+        if (new_map.size() != ordering.size())
+            throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Each qubit must be listed exactly once."));
+
         // set mapping and wavefunction
         for (unsigned i = 0; i < ordering.size(); ++i)
             map_[ordering[i]] = i;
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 014c033..fc7309c 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -309,7 +309,7 @@ class Simulator:
         Raises:
             RuntimeError if the second argument is not a permutation of all allocated qubits.
         """
-        if not set(ids) == set(self._map):
+        if not set(ids) == set(self._map) or len(ids) != len(self._map):
             raise RuntimeError(
                 "The second argument to get_amplitude() must be a permutation of all allocated qubits. "
                 "Please make sure you have called eng.flush()."
@@ -457,6 +457,12 @@ class Simulator:
                 "allocated previously (call eng.flush())."
             )
 
+        # each qubit must be listed exactly once
+        if len(set(ordering)) != len(ordering):
+            raise RuntimeError(
+                "set_wavefunction(): Invalid mapping provided. Each qubit must be listed exactly once."
+            )
+
         self._state = _np.array(wavefunction, dtype=_np.complex128)
         self._map = {ordering[i]: i for i in range(len(ordering))}
 
-- 
2.43.0


From d5d5f26c40adacf619e9aada5abfb4eb464a5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:16 +0000
Subject: [PATCH 60/60] fix: simulators combined contradicting values for a
 qubit named twice in probability and collapse requests

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 8 ++++++++
 projectq/backends/_sim/_pysim.py                 | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 6add739..7305340 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -357,6 +357,10 @@ public:
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
         std::size_t mask = 0, bit_str = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
+            std::size_t bit = 1UL << map_[ids[i]];
+            // a qubit listed twice cannot have two different values
+            if ((mask & bit) && ((bit_str & bit) != 0) != bit_string[i])
+                return 0.;
             mask |= 1UL << map_[ids[i]];
             bit_str |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
@@ -470,6 +474,10 @@ public:
             throw(std::runtime_error("collapse_wavefunction(): Unknown qubit id(s) provided. Try calling eng.flush() before invoking this function."));
         std::size_t mask = 0, val = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
+            std::size_t bit = 1UL << map_[ids[i]];
+            // a qubit listed twice cannot have two different values
+            if ((mask & bit) && ((val & bit) != 0) != values[i])
+                throw(std::runtime_error("collapse_wavefunction(): Invalid collapse! Probability is ~0."));
             mask |= (1UL << map_[ids[i]]);
             val |= ((values[i]?1UL:0UL) << map_[ids[i]]);
         }
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index fc7309c..5f1726d 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -285,6 +285,9 @@ class Simulator:
         mask = 0
         bit_str = 0
         for i, qubit_id in enumerate(ids):
+            # a qubit listed twice cannot have two different values
+            if bool(bit_string[i]) != bool(bit_string[ids.index(qubit_id)]):
+                return 0.0
             mask |= 1 << self._map[qubit_id]
             bit_str |= bit_string[i] << self._map[qubit_id]
         probability = 0.0
@@ -488,6 +491,9 @@ class Simulator:
         mask = 0
         val = 0
         for i, qubit_id in enumerate(ids):
+            # a qubit listed twice cannot have two different values
+            if bool(values[i]) != bool(values[ids.index(qubit_id)]):
+                raise RuntimeError("collapse_wavefunction(): Invalid collapse! Probability is ~0.")
             pos = self._map[qubit_id]
             mask |= 1 << pos
             val |= int(values[i]) << pos
-- 
2.43.0

