From 9e735ebad86c4e0226990c2e8e36795ceb12c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 01/63] fix: commands keep their control state when copied,
 inverted, merged, compared or reordered

Command.__deepcopy__, get_inverse and get_merged dropped the control state,
__eq__ and get_merged ignored it, and sorting the control qubits did not carry
their control values along.  The negative-control decomposition only worked
because of the dropped state: it assigned a misspelt attribute.
---
 projectq/ops/_command.py                      | 24 ++++++++++++++++---
 .../setups/decompositions/controlstate.py     |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..9552553 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -113,10 +113,15 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.gate = gate
         self.tags = list(tags)
         self.qubits = qubits  # property
+        self._control_state = ''
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
 
+        # NB: the control state is given in the order of `controls`, whereas the control qubits are stored sorted
+        order = sorted(range(len(controls)), key=lambda idx: controls[idx].id)
+        self._control_state = ''.join(self._control_state[idx] for idx in order)
+
     @property
     def qubits(self):
         """Qubits stored in a Command object."""
@@ -135,6 +140,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +158,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +180,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -228,8 +241,12 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Args:
             control_qubits (Qureg): quantum register
         """
-        self._control_qubits = [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
-        self._control_qubits = sorted(self._control_qubits, key=lambda x: x.id)
+        qubits = [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
+        order = sorted(range(len(qubits)), key=lambda idx: qubits[idx].id)
+        self._control_qubits = [qubits[idx] for idx in order]
+        if len(self._control_state) == len(order):
+            # Each control qubit keeps its own control value
+            self._control_state = ''.join(self._control_state[idx] for idx in order)
 
     @property
     def control_state(self):
@@ -333,6 +350,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d9c8686 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,7 +33,7 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From 3f8613446a42f41823ee44b91300329d1f01f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 02/63] fix: merging Pauli strings multiplies them in the order
 they are applied

---
 projectq/ops/_qubit_operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..b853b12 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,8 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            # self is applied first, hence its operator stands on the right
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From 8fec7a7b42d99a3d5995a83ad9f083c53caeaf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 03/63] fix: the inverse of the comparator gate is the
 comparator, not an addition

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..cbe5203 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -393,8 +393,8 @@ class ComparatorQuantumGate(BasicMathGate):
         return hash(str(self))
 
     def get_inverse(self):
-        """Return the inverse of this gate."""
-        return AddQuantum
+        """Return the inverse of this gate (the comparator is its own inverse)."""
+        return ComparatorQuantumGate()
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From be4ddca774081f7767bc216360005bdbacc33eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 04/63] fix: equal state preparation gates have equal hashes

---
 projectq/ops/_state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_state_prep.py b/projectq/ops/_state_prep.py
index a2f3564..a88eaa0 100644
--- a/projectq/ops/_state_prep.py
+++ b/projectq/ops/_state_prep.py
@@ -53,4 +53,4 @@ class StatePreparation(BasicGate):
 
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(f"StatePreparation({str(self.final_state)})")
+        return hash(("StatePreparation", tuple(self.final_state)))
-- 
2.43.0


From 81dd3ff3e172972f46d873a31da90c79b74bf722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 05/63] fix: Pauli sums, QAA, QPE and plain math gates are only
 equal if they implement the same operation

They inherited the class comparison of BasicGate, so that e.g. X0 X1 compared
equal to Z0 Z1 and the optimizer cancelled them against each other.
---
 projectq/ops/_basics.py         | 16 ++++++++++++++++
 projectq/ops/_qaagate.py        | 10 ++++++++++
 projectq/ops/_qpegate.py        | 10 ++++++++++
 projectq/ops/_qubit_operator.py | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..d2210d6 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -601,8 +601,24 @@ class BasicMathGate(BasicGate):
         def math_function(arg):
             return list(math_fun(*arg))
 
+        self._math_fun = math_fun
         self._math_function = math_function
 
+    def __eq__(self, other):
+        """
+        Equal operator.
+
+        Plain BasicMathGate objects are only equal if they implement the same function. (Derived classes implement one
+        function per class, unless they define their own equal operator.)
+        """
+        if type(self) is BasicMathGate or type(other) is BasicMathGate:  # pylint: disable=unidiomatic-typecheck
+            return type(self) is type(other) and self._math_fun == other._math_fun
+        return super().__eq__(other)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return "MATH"
diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..1feef13 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -77,6 +77,16 @@ class QAA(BasicGate):
         self.algorithm = algorithm
         self.oracle = oracle
 
+    def __eq__(self, other):
+        """Return True if same class, same algorithm and same oracle."""
+        if isinstance(other, self.__class__):
+            return self.algorithm == other.algorithm and self.oracle == other.oracle
+        return False
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..803674e 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -29,6 +29,16 @@ class QPE(BasicGate):
         super().__init__()
         self.unitary = unitary
 
+    def __eq__(self, other):
+        """Return True if same class and same unitary."""
+        if isinstance(other, self.__class__):
+            return self.unitary == other.unitary
+        return False
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index b853b12..f06121e 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -582,6 +582,17 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if other is a QubitOperator with the same terms and coefficients."""
+        if isinstance(other, self.__class__):
+            return self.terms == other.terms
+        return False
+
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(str(self))
+        # NB: independent of the order of the terms and of the numeric type of the coefficients
+        normalized = QubitOperator()
+        for term in sorted(self.terms):
+            coeff = complex(self.terms[term]) + 0.0
+            normalized.terms[term] = coeff.real if coeff.imag == 0 else coeff
+        return hash(str(normalized))
-- 
2.43.0


From ffd4b3f3b2b9c4eeff0f0b91e4115a1a9063d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 06/63] fix: merging time evolutions with zero or missing
 coefficients reports NotMergeable

It divided by the coefficient and raised ZeroDivisionError or TypeError, which
the optimizer does not expect.
---
 projectq/ops/_time_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..899e02e 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -113,12 +113,16 @@ class TimeEvolution(BasicGate):
         if isinstance(other, TimeEvolution) and set(self.hamiltonian.terms) == set(other.hamiltonian.terms):
             factor = None
             for term in self.hamiltonian.terms:
+                if not self.hamiltonian.terms[term] or not other.hamiltonian.terms[term]:
+                    raise NotMergeable("Cannot merge these two gates.")
                 if factor is None:
                     factor = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                 else:
                     tmp = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                     if not abs(factor - tmp) <= (rel_tol * max(abs(factor), abs(tmp))):
                         raise NotMergeable("Cannot merge these two gates.")
+            if factor is None:
+                raise NotMergeable("Cannot merge these two gates.")
             # Terms are proportional to each other
             new_time = self.time + other.time / factor
             return TimeEvolution(time=new_time, hamiltonian=self.hamiltonian)
-- 
2.43.0


From 7a330e047811cd6ab839123dcefec9ce8d949a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 07/63] fix: time evolution gates can be hashed, and hence be
 counted by the resource counter

---
 projectq/ops/_time_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 899e02e..337c099 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -203,6 +203,10 @@ class TimeEvolution(BasicGate):
         """Not implemented as this object is a floating point type."""
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From b11dddc1e2bd009af8f2204953917262a0354ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 08/63] fix: inverse of arithmetic gates: carry flips back only
 on overflow, subtracting zero modulo N stays in range

---
 projectq/libs/math/_gates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index cbe5203..d8fbcdf 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -158,7 +158,7 @@ def SubConstantModN(a, N):  # pylint: disable=invalid-name
       * c >= 0
       * The value stored in the quantum register must be lower than N
     """
-    return AddConstantModN(N - a, N)
+    return AddConstantModN(N - a if a else 0, N)
 
 
 class MultiplyByConstantModN(BasicMathGate):
@@ -285,8 +285,8 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
-                # Flip the last bit of the carry register
+            if len(a) == 3 and a[1] < a[0]:
+                # The addition being undone had overflown: flip the last bit of the carry register back
                 a[2] ^= 1
 
             a[1] -= a[0]
-- 
2.43.0


From 3a8e4ea2d14372a794aa04683178bbf0436c2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 09/63] fix: uniformly controlled rotations of different size
 are not mergeable

---
 projectq/ops/_uniformly_controlled_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_uniformly_controlled_rotation.py b/projectq/ops/_uniformly_controlled_rotation.py
index 46cf023..eb4b6f6 100644
--- a/projectq/ops/_uniformly_controlled_rotation.py
+++ b/projectq/ops/_uniformly_controlled_rotation.py
@@ -61,7 +61,7 @@ class UniformlyControlledRy(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
@@ -123,7 +123,7 @@ class UniformlyControlledRz(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
-- 
2.43.0


From 3b166cd3b729ae01cc68adc9f54b45b853a1553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 10/63] fix: loops executed zero times also report qubits left
 alive when loop tags are supported

---
 projectq/meta/_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..b5ae346 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -147,13 +147,13 @@ class LoopEngine(BasicEngine):
             # Loop tag is supported, send everything with a LoopTag
             # Don't check is_meta_tag_supported anymore
             self._next_engines_support_loop_tag = True
-            if self._tag.num == 0:
-                return
             for cmd in command_list:
                 if cmd.gate == Allocate:
                     self._allocated_qubit_ids.add(cmd.qubits[0][0].id)
                 elif cmd.gate == Deallocate:
                     self._deallocated_qubit_ids.add(cmd.qubits[0][0].id)
+                if self._tag.num == 0:
+                    continue
                 cmd.tags.append(self._tag)
                 self.send([cmd])
         else:
-- 
2.43.0


From 1823b89c27ecbe15b528a86f619bc6aaeddf23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 11/63] fix: identity gates are removed from the lists of all
 their qubits

---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From c333ad23f2ee6f8b820c1ce9272f0b1fd965670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 12/63] fix: looking up inverse decompositions must not modify
 the decomposition rule set

---
 projectq/cengines/_replacer/_replacer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..4b197f7 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -176,7 +176,10 @@ class AutoReplacer(BasicEngine):
                     if level < len(inverse_mro):
                         inv_class_name = inverse_mro[level].__name__
                         try:
-                            potential_decomps += [d.get_inverse_decomposition() for d in rules[inv_class_name]]
+                            # NB: potential_decomps may be a list of the rule set, which must not be modified
+                            potential_decomps = potential_decomps + [
+                                d.get_inverse_decomposition() for d in rules[inv_class_name]
+                            ]
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From 76d65b291c13c38a1d9b7a47c7a0848c08fba8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 13/63] fix: the control state decomposition must not duplicate
 the tags of the command

---
 projectq/setups/decompositions/controlstate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index d9c8686..af9e6ea 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -32,8 +32,10 @@ def _decompose_controlstate(cmd):
             if state == '0':
                 X | ctrl
 
-    # Resend the command with the `control_state` cleared
+    # Resend the command with the `control_state` cleared. The tags are removed since they are added back to all
+    # commands of a decomposition by the AutoReplacer.
     cmd.control_state = '1' * len(cmd.control_state)
+    cmd.tags = []
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From ad991d0e9459cf228d9e2498962889c528b2e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 14/63] fix: circuit drawers register measurement results under
 the logical qubit id

---
 projectq/backends/_circuits/_drawer.py            | 7 ++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..720909e 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,6 +233,10 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check there was a mapper and redirect result
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..5f18680 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,10 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check there was a mapper and redirect result
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 4e0a57e9bb409ffde049ec828ccdec2dffa60cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 15/63] fix: flipping a CNOT keeps its negative control

---
 projectq/cengines/_swapandcnotflipper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..134132f 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,7 +18,7 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
+from projectq.meta import get_control_count, has_negative_control
 from projectq.ops import CNOT, NOT, All, H, Swap
 
 from ._basics import BasicEngine, ForwarderEngine
@@ -105,6 +105,10 @@ class SwapAndCNOTFlipper(BasicEngine):
         forwarder_eng = ForwarderEngine(cmd_mod_eng)
         target[0].engine = forwarder_eng
         control[0].engine = forwarder_eng
+        # a negative control is turned into a positive one for the flipped CNOT
+        negative = has_negative_control(cmd)
+        if negative:
+            NOT | control
         if flip:
             # flip the CNOT using Hadamard gates:
             All(H) | (control + target)
@@ -112,6 +116,8 @@ class SwapAndCNOTFlipper(BasicEngine):
             All(H) | (control + target)
         else:
             CNOT | (control, target)
+        if negative:
+            NOT | control
 
     def receive(self, command_list):
         """
-- 
2.43.0


From 478f40af356efaf9a48ba8f1c1b87b3c69ab7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 16/63] fix: the bounded mapper does not assign a hardware
 qubit which is still in use

---
 projectq/backends/_ionq/_ionq_mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..c113ddc 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,10 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # Skip the hardware qubits still in use by qubits allocated before the last flush
+            while self._qubit_idx in current_mapping.values():
+                self._qubit_idx += 1
+
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From 9af3a2e12151306564a1981e737f4399a0c6d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 17/63] fix: parameters of one-qubit matrices are found
 accurately close to diagonal and antidiagonal matrices

---
 projectq/setups/decompositions/arb1qubit2rzandry.py      | 3 ++-
 projectq/setups/decompositions/carb1qubit2cnotrzandry.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..eb99560 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -183,7 +183,8 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        # NB: atan2 is also accurate if c/2 is close to a multiple of pi/2 (unlike acos)
+        tmp = math.atan2(abs(matrix[1][0]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..8d0d8c7 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -137,7 +137,8 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    # NB: atan2 is also accurate if c/2 is close to a multiple of pi/2 (unlike acos)
+    tmp = math.atan2(abs(matrix[1][1]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From 0bbe9a008943166ac877394ca60985393389c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 18/63] fix: state preparation is accurate for small amplitudes

---
 projectq/setups/decompositions/stateprep2cnot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index 80e399a..6ed9dc1 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -74,11 +74,9 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                 for block in range(2 ** (len(qureg) - qubit_idx - 1)):
                     a0 = abs_of_blocks[2 * block]  # pylint: disable=invalid-name
                     a1 = abs_of_blocks[2 * block + 1]  # pylint: disable=invalid-name
-                    if a0 == 0 and a1 == 0:
-                        angles.append(0)
-                    else:
-                        angles.append(-2.0 * math.acos(a0 / math.sqrt(a0**2 + a1**2)))
-                    abs_of_next_blocks.append(math.sqrt(a0**2 + a1**2))
+                    # NB: unlike acos(a0 / sqrt(a0**2 + a1**2)), this is also accurate for very small amplitudes
+                    angles.append(-2.0 * math.atan2(a1, a0))
+                    abs_of_next_blocks.append(math.hypot(a0, a1))
                 UniformlyControlledRy(angles) | (
                     qureg[(qubit_idx + 1) :],  # noqa: E203
                     qubit,
-- 
2.43.0


From 77021593cec4ab5eba917e463667cb1f0aae8395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 19/63] fix: commuting terms of a time evolution are recognized
 independently of the units of time

---
 projectq/setups/decompositions/time_evolution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..6e4cacb 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -30,11 +30,12 @@ def _recognize_time_evolution_commuting_terms(cmd):
     hamiltonian = cmd.gate.hamiltonian
     if len(hamiltonian.terms) == 1:
         return False
+    time = cmd.gate.time  # NB: small coefficients are only negligible if the evolution time is not large
     id_op = QubitOperator((), 0.0)
     for term in hamiltonian.terms:
-        test_op = QubitOperator(term, hamiltonian.terms[term])
+        test_op = QubitOperator(term, time * hamiltonian.terms[term])
         for other in hamiltonian.terms:
-            other_op = QubitOperator(other, hamiltonian.terms[other])
+            other_op = QubitOperator(other, time * hamiltonian.terms[other])
             commutator = test_op * other_op - other_op * test_op
             if not commutator.isclose(id_op, rel_tol=1e-9, abs_tol=1e-9):
                 return False
-- 
2.43.0


From 319cc5963a5cf9f7fae2510b538909e1858b0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 20/63] fix: the decompositions of phase estimation and
 amplitude amplification respect control qubits

---
 .../decompositions/amplitudeamplification.py  | 31 +++++++-------
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..5f7da7f 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,27 +98,28 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas
+        get_inverse(QFT) | qpe_ancillas
 
 
 #: Decomposition rules
-- 
2.43.0


From aff605a90bb7e882feaaa769b56176310978a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 21/63] fix: phase estimation applies the inverse Fourier
 transform in the right qubit order

---
 projectq/setups/decompositions/phaseestimation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 5f7da7f..cc6acfb 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -119,7 +119,8 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
                         unitary | system_qubits
 
         # Inverse QFT on the ancillas
-        get_inverse(QFT) | qpe_ancillas
+        # NB: QFT does not include the final swaps; as ancilla i holds the power 2**i, the ancillas have to be reversed
+        get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From 9f46a64082be8456e05767a29ac874808819ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 22/63] fix: the Python simulator evolves under Hamiltonians
 without terms and refuses to allocate a qubit twice

---
 projectq/backends/_sim/_pysim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..e5fcc20 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -108,7 +108,12 @@ class Simulator:
 
         Args:
             qubit_id (int): ID of the qubit which is being allocated.
+
+        Raises:
+            RuntimeError: If there already is a qubit with this ID.
         """
+        if qubit_id in self._map:
+            raise RuntimeError("AllocateQubit: ID already exists. Qubit IDs should be unique.")
         self._map[qubit_id] = self._num_qubits
         self._num_qubits += 1
         self._state.resize(1 << self._num_qubits, refcheck=_USE_REFCHECK)
@@ -344,7 +349,7 @@ class Simulator:
             while nrm_change > 1.0e-12:
                 coeff = (-time * 1j) / float(scale * (j + 1))
                 current_state = _np.copy(self._state)
-                update = 0j
+                update = _np.zeros_like(self._state)
                 for term, tcoeff in terms_dict:
                     self._apply_term(term, ids)
                     self._state *= tcoeff
-- 
2.43.0


From 5028506ac3d2b2c1f32d0d1713a7cc5477fb4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 23/63] fix: measurements never pick a basis state with
 probability zero

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 13 +++++++++----
 projectq/backends/_sim/_pysim.py                 | 13 ++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..bd47523 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -153,11 +153,16 @@ public:
         calc_type rnd = rng_();
 
         // pick entry at random with probability |entry|^2
+        // (entries which are zero are never picked, also if the norm is off due to rounding errors)
         std::size_t pick = 0;
-        while (P < rnd && pick < vec_.size())
-            P += std::norm(vec_[pick++]);
-
-        pick--;
+        for (std::size_t i = 0; i < vec_.size(); ++i){
+            calc_type p = std::norm(vec_[i]);
+            if (p > 0.)
+                pick = i;
+            P += p;
+            if (P > rnd)
+                break;
+        }
         // determine result vector (boolean values for each qubit)
         // and create mask to detect bad entries (i.e., entries that don't agree with measurement)
         res = std::vector<bool>(ids.size());
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index e5fcc20..e6b1261 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -76,11 +76,14 @@ class Simulator:
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += _np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        # Only basis states with nonzero probability can be picked (also if the norm is off due to rounding errors)
+        for i, _state in enumerate(self._state):
+            probability = _np.abs(_state) ** 2
+            if probability > 0.0:
+                i_picked = i
+            val += probability
+            if val > random_outcome:
+                break
 
         pos = [self._map[ID] for ID in ids]
         res = [False] * len(pos)
-- 
2.43.0


From 13d03b1c86897cdb28d657528354be9c1f04e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 24/63] fix: amplitude and wavefunction requests naming a qubit
 twice, or of the wrong size, are refused

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 10 +++++++---
 projectq/backends/_sim/_pysim.py                 |  4 ++--
 projectq/backends/_sim/_simulator.py             |  4 ++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index bd47523..86d2fbc 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -27,6 +27,8 @@
 #include "intrin/alignedallocator.hpp"
 #include "fusion.hpp"
 #include <map>
+#include <set>
+#include <stdexcept>
 #include <cassert>
 #include <algorithm>
 #include <tuple>
@@ -383,7 +385,7 @@ public:
             chk |= 1UL << map_[ids[i]];
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
-        if (chk + 1 != vec_.size())
+        if (chk + 1 != vec_.size() || ids.size() != map_.size())
             throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         return vec_[index];
     }
@@ -445,9 +447,11 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
-        if (map_.size() != ordering.size() || !check_ids(ordering))
+        if (map_.size() != ordering.size() || !check_ids(ordering)
+                || std::set<unsigned>(ordering.begin(), ordering.end()).size() != ordering.size())
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
 
         // set mapping and wavefunction
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index e6b1261..a479ada 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -312,7 +312,7 @@ class Simulator:
         Raises:
             RuntimeError if the second argument is not a permutation of all allocated qubits.
         """
-        if not set(ids) == set(self._map):
+        if len(ids) != len(self._map) or not set(ids) == set(self._map):
             raise RuntimeError(
                 "The second argument to get_amplitude() must be a permutation of all allocated qubits. "
                 "Please make sure you have called eng.flush()."
@@ -454,7 +454,7 @@ class Simulator:
             raise ValueError('The wavefunction must contain 2^n elements!')
 
         # all qubits must have been allocated before
-        if not all(qubit_id in self._map for qubit_id in ordering) or len(self._map) != len(ordering):
+        if set(ordering) != set(self._map) or len(self._map) != len(ordering):
             raise RuntimeError(
                 "set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been "
                 "allocated previously (call eng.flush())."
diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..525bbf1 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -219,6 +219,8 @@ class Simulator(BasicEngine):
         """
         qureg = self._convert_logical_to_mapped_qureg(qureg)
         bit_string = [bool(int(b)) for b in bit_string]
+        if len(bit_string) < len(qureg):
+            raise ValueError('The bit string must specify the value of every qubit!')
         return self._simulator.get_probability(bit_string, [qb.id for qb in qureg])
 
     def get_amplitude(self, bit_string, qureg):
@@ -245,6 +247,8 @@ class Simulator(BasicEngine):
         """
         qureg = self._convert_logical_to_mapped_qureg(qureg)
         bit_string = [bool(int(b)) for b in bit_string]
+        if len(bit_string) < len(qureg):
+            raise ValueError('The bit string must specify the value of every qubit!')
         return self._simulator.get_amplitude(bit_string, [qb.id for qb in qureg])
 
     def set_wavefunction(self, wavefunction, qureg):
-- 
2.43.0


From ec210ee2904ea3e80d055308a28d69633761142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 25/63] fix: expectation values of operators with complex
 coefficients with the compiled simulator

---
 projectq/backends/_sim/_simulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index 525bbf1..142c081 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -163,8 +163,14 @@ class Simulator(BasicEngine):
         for term, _ in qubit_operator.terms.items():
             if not term == () and term[-1][0] >= num_qubits:
                 raise Exception("qubit_operator acts on more qubits than contained in the qureg.")
-        operator = [(list(term), coeff) for (term, coeff) in qubit_operator.terms.items()]
-        return self._simulator.get_expectation_value(operator, [qb.id for qb in qureg])
+        ids = [qb.id for qb in qureg]
+        # The coefficients may be complex (e.g. for a product of operators) but the backends deal with real ones
+        real = [(list(term), coeff.real) for (term, coeff) in qubit_operator.terms.items()]
+        imag = [(list(term), coeff.imag) for (term, coeff) in qubit_operator.terms.items() if coeff.imag != 0]
+        value = self._simulator.get_expectation_value(real, ids)
+        if imag:
+            value = value + 1j * self._simulator.get_expectation_value(imag, ids)
+        return value
 
     def apply_qubit_operator(self, qubit_operator, qureg):
         """
-- 
2.43.0


From 737e06d9957d2dda96481b93b048d37e3eec1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 26/63] fix: arithmetic with large or negative constants does
 not overflow in the compiled simulator

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 16 +++++++++-------
 projectq/backends/_sim/_cppsim.cpp               |  8 +++++++-
 projectq/backends/_sim/_simulator.py             | 13 ++++++++-----
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 86d2fbc..7b4bddb 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -17,6 +17,7 @@
 
 #include <vector>
 #include <complex>
+#include <cstdint>
 
 #if defined(NOINTRIN) || !defined(INTRIN)
 #include "nointrin/kernels.hpp"
@@ -275,25 +276,26 @@ public:
         std::swap(tmpBuff1_, newvec);
     }
 
-    // faster version without calling python
+    // faster versions without calling python: constants and moduli must be nonnegative and less than 2^31, so that
+    // no intermediate result overflows
     template<class QuReg>
-    inline void emulate_math_addConstant(int a, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_addConstant(std::int64_t a, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a](std::vector<int> &res){for(auto& x: res) x = x + a;}, quregs, ctrl, true);
+      emulate_math([a](std::vector<int> &res){for(auto& x: res) x = static_cast<int>(x + a);}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
-    inline void emulate_math_addConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_addConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = static_cast<int>((x + a) % N);}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
-    inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_multiplyByConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = static_cast<int>((x * a) % N);}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
diff --git a/projectq/backends/_sim/_cppsim.cpp b/projectq/backends/_sim/_cppsim.cpp
index 2402812..7647ad8 100755
--- a/projectq/backends/_sim/_cppsim.cpp
+++ b/projectq/backends/_sim/_cppsim.cpp
@@ -17,6 +17,7 @@
 #include <pybind11/pytypes.h>
 #include <vector>
 #include <complex>
+#include <cstdint>
 #include <iostream>
 #if defined(_OPENMP)
 #include <omp.h>
@@ -34,7 +35,12 @@ template <class QR>
 void emulate_math_wrapper(Simulator &sim, py::function const& pyfunc, QR const& qr, std::vector<unsigned> const& ctrls){
     auto f = [&](std::vector<int>& x) {
         pybind11::gil_scoped_acquire acquire;
-        x = pyfunc(x).cast<std::vector<int>>();
+        // results may exceed the registers (and the range of an int): only the lowest bits matter
+        auto const res = pyfunc(x).cast<std::vector<py::int_>>();
+        py::int_ const mask(0xFFFFFFFFu);
+        x.clear();
+        for (auto const& value : res)
+            x.push_back(static_cast<int>(py::int_(value & mask).cast<std::uint32_t>()));
     };
     pybind11::gil_scoped_release release;
     sim.emulate_math(f, qr, ctrls);
diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index 142c081..ca9c683 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -386,18 +386,21 @@ class Simulator(BasicEngine):
                 self._simulator.emulate_math(math_fun, qubitids, [qb.id for qb in cmd.control_qubits])
             else:
                 # individual code for different standard gates to make it faster!
+                # (these use machine integers: moduli must be small and constants are reduced beforehand)
                 if isinstance(cmd.gate, AddConstant):
-                    self._simulator.emulate_math_addConstant(cmd.gate.a, qubitids, [qb.id for qb in cmd.control_qubits])
-                elif isinstance(cmd.gate, AddConstantModN):
+                    self._simulator.emulate_math_addConstant(
+                        cmd.gate.a % 2 ** len(cmd.qubits[0]), qubitids, [qb.id for qb in cmd.control_qubits]
+                    )
+                elif isinstance(cmd.gate, AddConstantModN) and cmd.gate.N < 2**31:
                     self._simulator.emulate_math_addConstantModN(
-                        cmd.gate.a,
+                        cmd.gate.a % cmd.gate.N,
                         cmd.gate.N,
                         qubitids,
                         [qb.id for qb in cmd.control_qubits],
                     )
-                elif isinstance(cmd.gate, MultiplyByConstantModN):
+                elif isinstance(cmd.gate, MultiplyByConstantModN) and cmd.gate.N < 2**31:
                     self._simulator.emulate_math_multiplyByConstantModN(
-                        cmd.gate.a,
+                        cmd.gate.a % cmd.gate.N,
                         cmd.gate.N,
                         qubitids,
                         [qb.id for qb in cmd.control_qubits],
-- 
2.43.0


From 1863318845532bb72f6e4f685a924d60814c2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 27/63] fix: honour negative controls in the ClassicalSimulator

---
 projectq/backends/_sim/_classical_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..5c174c4 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,9 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        # A negative control (control state '0') requires its qubit to be in state 0
+        controls_on = self._mask([qb for qb, on in zip(cmd.control_qubits, cmd.control_state) if on == '1'])
+        meets_controls = self._state & controls_mask == controls_on
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
-- 
2.43.0


From 27b1eedf7cd06bd503d6875a01bc29e719282b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 28/63] fix: the unitary simulator applies gates to their
 target qubits in the given order

---
 projectq/backends/_unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..0130740 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -58,7 +58,8 @@ def _qidmask(target_ids, control_ids, n_qubits):
     else:
         irel_mask = np.array(range(perms.shape[0]))
         mask_list.append(np.intersect1d(irel_mask, cmask))
-    return mask_list
+    # Order the basis states like the rows of the gate matrix (the first target qubit is the least significant one)
+    return [mask[np.lexsort(perms[mask][:, target_ids].T)] for mask in mask_list]
 
 
 class UnitarySimulator(BasicEngine):
-- 
2.43.0


From ef26c7c1f4c655cabe0cc74a273f4f626b444ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 29/63] fix: the unitary simulator keeps track of the state
 over flushes, measurements and deallocations

---
 projectq/backends/_unitary.py | 75 +++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 0130740..2578032 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -97,7 +97,8 @@ class UnitarySimulator(BasicEngine):
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._start = np.array([1], dtype=complex)  # state before the current unitary
+        self._state = np.array([1], dtype=complex)  # state after the last flush
         self._history = []
 
     @property
@@ -174,7 +175,30 @@ class UnitarySimulator(BasicEngine):
         """Flush the simulator state."""
         if not self._is_flushed:
             self._is_flushed = True
-            self._state = self._unitary @ self._state
+            self._state = self._unitary @ self._start
+
+    def _reset(self):
+        """Store the current unitary in the history and start a new one, acting on the live qubits only."""
+        self._flush()
+
+        warnings.warn(
+            "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+            "previous unitary can be accessed in history"
+        )
+        self._history.append(self._unitary)
+
+        live = sorted(self._qubit_map.values())
+        removed = [pos for pos in range(self._num_qubits) if pos not in live]
+        if removed:
+            outcome = self._measure_positions(removed)
+            for pos, value in sorted(zip(removed, outcome), reverse=True):
+                self._state = self._state.reshape((-1, 2, 2**pos))[:, int(value), :].reshape(-1)
+            self._qubit_map = {key: live.index(pos) for key, pos in self._qubit_map.items()}
+            self._num_qubits = len(live)
+
+        self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+        self._start = self._state.copy()
+        self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -187,15 +211,17 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            if len(self._qubit_map) != self._num_qubits:
+                self._reset()
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._start = np.concatenate((self._start, np.zeros_like(self._start)))
+            self._state = np.concatenate((self._state, np.zeros_like(self._state)))
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
-            self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
-            self._num_qubits -= 1
+            # The qubit is removed from the state as soon as a new unitary is started
+            del self._qubit_map[cmd.qubits[0][0].id]
             self._is_valid = False
 
         elif isinstance(cmd.gate, MeasureGate):
@@ -224,16 +250,7 @@ class UnitarySimulator(BasicEngine):
             self._flush()
         else:
             if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
+                self._reset()
 
             self._is_flushed = False
             mask_list = _qidmask(
@@ -253,19 +270,33 @@ class UnitarySimulator(BasicEngine):
         Args:
             ids (list<int>): List of qubit IDs to measure.
 
+        Returns:
+            List of measurement results (containing either True or False).
+        """
+        return self._measure_positions([self._qubit_map[ID] for ID in ids])
+
+    def _measure_positions(self, pos):
+        """
+        Measure the qubits at the given positions and return a list of measurement outcomes (True/False).
+
+        Args:
+            pos (list<int>): List of positions of the qubits to measure.
+
         Returns:
             List of measurement results (containing either True or False).
         """
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        # Only basis states with nonzero probability can be picked (also if the norm is off due to rounding errors)
+        for i, _state in enumerate(self._state):
+            probability = np.abs(_state) ** 2
+            if probability > 0.0:
+                i_picked = i
+            val += probability
+            if val > random_outcome:
+                break
 
-        pos = [self._qubit_map[ID] for ID in ids]
         res = [False] * len(pos)
 
         mask = 0
-- 
2.43.0


From 3c11a0e3f868ed1df4c7e305911e4e05516810cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 30/63] fix: the unitary simulator can be flushed before a
 qubit is allocated

---
 projectq/backends/_unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 2578032..727bf50 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -93,7 +93,7 @@ class UnitarySimulator(BasicEngine):
         """Initialize a UnitarySimulator object."""
         super().__init__()
         self._qubit_map = {}
-        self._unitary = [1]
+        self._unitary = np.identity(1, dtype=complex)
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-- 
2.43.0


From dd92541bf8ff53b2448088673e02e9f9da58b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 31/63] fix: adding or subtracting a QubitOperator to itself in
 place

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index f06121e..89acdfe 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -502,7 +502,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -531,7 +531,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From 94c4b32331e0236bfc225726576f0d11bb071bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 32/63] fix: QubitOperator only accepts the actions X, Y and Z

---
 projectq/ops/_qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 89acdfe..fd602c0 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -145,7 +145,7 @@ class QubitOperator(BasicGate):
                     if not isinstance(local_operator, tuple) or len(local_operator) != 2:
                         raise ValueError("term specified incorrectly.")
                     qubit_num, action = local_operator
-                    if not isinstance(action, str) or action not in 'XYZ':
+                    if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                         raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                     if not (isinstance(qubit_num, int) and qubit_num >= 0):
                         raise QubitOperatorError(
-- 
2.43.0


From 4557d083bcc4827457b792f7e89b7ddb3412f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 33/63] fix: carry and comparison of one-qubit numbers

---
 projectq/libs/math/_quantummath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..fea2b68 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From 9a005a0c3b0d5536435a37a9ddba6fc7f88998f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 34/63] fix: the comparator restores its inputs

---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index fea2b68..e194488 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -219,11 +219,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From a689a1ef4004dc571567488216da55d7da5c51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 35/63] fix: the controlled quantum additions use their control
 qubit once per gate

---
 projectq/libs/math/_default_rules.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 7243fea..42fd715 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -89,11 +89,9 @@ def _replace_addquantum(cmd):
         quint_b = cmd.qubits[1]
         if len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
+            quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
         else:
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
+            quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
 
 
 def _replace_inverse_add_quantum(cmd):
-- 
2.43.0


From 3e9615da5ca4b42454a97ef207b5e7f5e75b3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 36/63] fix: quantum multiplication takes all bits of the
 factors into account

---
 projectq/libs/math/_quantummath.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index e194488..dd3d19c 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -498,18 +498,11 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-
-    for j in range(2, n_a):
+    for j in range(1, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],  # noqa: E203
+                product[(0 + j) : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -538,20 +531,13 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in range(n_a - 1, 0, -1):
         with Control(eng, quint_b[j]):
             SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],  # noqa: E203
+                product[(0 + j) : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
     for i in range(0, n_a):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-- 
2.43.0


From 813e9e0c16d6d8ea5d1ab804bcff55e6da9d640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 37/63] fix: quantum division with divisors of full size

---
 projectq/libs/math/_quantummath.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index dd3d19c..b1f6c42 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -15,7 +15,7 @@
 """Definition of some mathematical quantum operations."""
 
 from projectq.meta import Control
-from projectq.ops import CNOT, All, X
+from projectq.ops import CNOT, All, X, get_inverse
 
 from ._gates import AddQuantum, SubtractQuantum
 
@@ -335,8 +335,8 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
-        SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
+        # The highest bit of the shifted remainder; 1 after the subtraction if the result is negative
+        get_inverse(AddQuantum) | (divisor[0:n_dividend], combined_reg, [remainder[n_dividend - 1]])
         with Control(eng, remainder[n_dividend - 1]):
             AddQuantum | (divisor[0:n_dividend], combined_reg)
         X | remainder[n_dividend - 1]
@@ -373,9 +373,8 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
         X | quotient[0]
         with Control(eng, quotient[0]):
             SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
 
-        AddQuantum | (divisor, remainder)
+        AddQuantum | (divisor, remainder, [quotient[0]])
 
         remainder.insert(n_quotient, quotient[0])
         quotient.insert(n_quotient, remainder[0])
-- 
2.43.0


From 24aa79af412d2b412ab51cd3ae3f2a0637b40688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 38/63] fix: addition modulo N for N above half of the range of
 the register

---
 projectq/libs/math/_constantmath.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..6b78ef2 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,13 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    if N > 1 << (len(quint) - 1):
+        # One more qubit is required to hold the sum and recognize negative numbers. It is back in |0> in the end.
+        overflow = eng.allocate_qubit()
+        add_constant_modN(eng, constant, N, list(quint) + list(overflow))
+        del overflow
+        return
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From 437a8c8956d70e306312e472ae2511ba87ec7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 39/63] fix: modular arithmetic with a constant equal to the
 modulus is refused

---
 projectq/libs/math/_constantmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 6b78ef2..993747d 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -53,7 +53,7 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
 
     This function uses Draper addition and the construction from https://arxiv.org/abs/quant-ph/0205095.
     """
-    if constant < 0 or constant > N:
+    if constant < 0 or constant >= N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
     if N > 1 << (len(quint) - 1):
@@ -96,7 +96,7 @@ def mul_by_constant_modN(eng, constant, N, quint_in):  # pylint: disable=invalid
     (only works if a and N are relative primes, otherwise the modular inverse
     does not exist).
     """
-    if constant < 0 or constant > N:
+    if constant < 0 or constant >= N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
     if gcd(constant, N) != 1:
         raise ValueError('Pre-condition failed: gcd(constant, N) == 1')
-- 
2.43.0


From 41668785ce7277a8e7310a8a9d7d79bedd15142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 40/63] fix: modular inverses of large numbers are computed
 with integers

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 993747d..9d73493 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -127,7 +127,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From cbcf95fd52ce74a59b2c16d68688b204a146ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 41/63] fix: IBM backend refuses commands it does not declare
 available

---
 projectq/backends/_ibm/_ibm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..472547e 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -141,6 +141,11 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self.main_engine.mapper is None:
             raise RuntimeError('No mapper is present in the compiler engine list!')
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(
+                'Command not authorized. You should run the circuit with the appropriate ibm setup.'
+            )
+
         if self._clear:
             self._probabilities = {}
             self._clear = False
@@ -196,10 +201,6 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             qb_pos = cmd.qubits[0][0].id
             self.qasm += f"\nu2(0,pi/2) q[{qb_pos}];"
             self._json.append({'qubits': [qb_pos], 'name': 'u2', 'params': [0, 3.141592653589793]})
-        else:
-            raise InvalidCommandError(
-                'Command not authorized. You should run the circuit with the appropriate ibm setup.'
-            )
 
     def _logical_to_physical(self, qb_id):
         """
-- 
2.43.0


From 4db0e97f9efff2b59476618f3b609adf93a87438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 42/63] fix: IBM probabilities are fractions of the returned
 counts

---
 projectq/backends/_ibm/_ibm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 472547e..41f03c3 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -300,12 +300,13 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     verbose=self._verbose,
                 )
             counts = res['data']['counts']
+            num_shots = sum(counts.values())
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_shots
                 state = f"{int(state, 0):b}"
                 state = state.zfill(max_qubit_id)
                 # states in ibmq are right-ordered, so need to reverse state string
-- 
2.43.0


From 7a4a3acc35abe3dbad1a0d3dd1eb2d3e286c4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 43/63] fix: AQT backend refuses commands it does not declare
 available and accepts Rxx on one register

---
 projectq/backends/_aqt/_aqt.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..b9a4269 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -128,6 +128,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._circuit = []
             self._allocated_qubits = set()
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         gate = cmd.gate
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
@@ -147,21 +150,15 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._measured_ids += [logical_id]
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
-            qubits = []
-            qubits.append(cmd.qubits[0][0].id)
-            if len(cmd.qubits) == 2:
-                qubits.append(cmd.qubits[1][0].id)
+            qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
             angle = gate.angle / math.pi
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
-            instruction.append(u_name[str(gate)[0 : int(len(cmd.qubits) + 1)]])  # noqa: E203
+            instruction.append(u_name[str(gate)[0 : int(len(qubits) + 1)]])  # noqa: E203
             instruction.append(round(angle, 2))
             instruction.append(qubits)
             self._circuit.append(instruction)
             return
-        if gate == Barrier:
-            return
-        raise InvalidCommandError(f"Invalid command: {str(cmd)}")
 
     def _logical_to_physical(self, qb_id):
         """
-- 
2.43.0


From 7f7c254d2bcd21b6ae7e1a18b32be792fc93efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 44/63] fix: AQT backend submits rotation angles with full
 precision

---
 projectq/backends/_aqt/_aqt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index b9a4269..82169a1 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -20,6 +20,7 @@ import random
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Barrier, Deallocate, FlushGate, Measure, Rx, Rxx, Ry
+from projectq.ops._basics import ANGLE_PRECISION
 from projectq.types import WeakQubitRef
 
 from .._exceptions import InvalidCommandError
@@ -155,7 +156,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
             instruction.append(u_name[str(gate)[0 : int(len(qubits) + 1)]])  # noqa: E203
-            instruction.append(round(angle, 2))
+            instruction.append(round(angle, ANGLE_PRECISION))
             instruction.append(qubits)
             self._circuit.append(instruction)
             return
-- 
2.43.0


From a26681e4c2e4922c11069c24937693bcb0d52d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 45/63] fix: AQT backend keeps the requested number of runs
 after a submission

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 82169a1..bd2e880 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -263,14 +263,14 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            num_samples = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_samples
                 p_sum += probability
                 star = ""
                 if p_sum >= random_outcome and measured == "":
-- 
2.43.0


From fce97ad97f70f838a36f7c72d7f8bf8d8d2390eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 46/63] fix: IonQ backend refuses commands it does not declare
 available

---
 projectq/backends/_ionq/_ionq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..d0c7813 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -172,6 +172,9 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._probabilities = {}
             self._clear = False
 
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         # No-op/Meta gates.
         # NOTE: self.main_engine.mapper takes care qubit allocation/mapping.
         gate = cmd.gate
-- 
2.43.0


From 644755b46101409a8bd28aeeab2d57f7b30a18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 47/63] fix: IonQ backend draws the outcome instead of always
 taking the last one

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index d0c7813..2bf4c63 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -335,7 +335,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            if measured == "" and (p_sum >= random_outcome or idx == len(states) - 1):
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
-- 
2.43.0


From 017d6fb750f506324d07a225ba96c0386205e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 48/63] fix: IonQ backend detects mid-circuit measurements by
 location

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 2bf4c63..671653b 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_locations = set()
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = set()
             self._probabilities = {}
             self._clear = False
 
@@ -190,6 +192,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_locations.add(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -212,7 +215,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & self._measured_locations
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From 176e0f6214996bc2d5e5cc9a30545621d4fd8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 49/63] fix: IonQ backend submits enough qubits when locations
 are not contiguous

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 671653b..fceb9cc 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -295,9 +295,12 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._retrieve_execution is None:
             qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
+            locations = set(qubit_mapping.values())
+            for gate_dict in self._circuit:
+                locations.update(gate_dict['targets'], gate_dict.get('controls', []))
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(locations) + 1,
                 'shots': self._num_runs,
                 'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
                 'meas_qubit_ids': measured_ids,
-- 
2.43.0


From 06500090321e51687eb343fe4396a60ee3075849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 50/63] fix: AWS Braket backend refuses commands it does not
 declare available

---
 projectq/backends/_awsbraket/_awsbraket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..9a293a8 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -43,6 +43,7 @@ from projectq.ops import (
 )
 from projectq.types import WeakQubitRef
 
+from .._exceptions import InvalidCommandError
 from ._awsbraket_boto3_client import retrieve, send
 
 # TODO: Add MatrixGate to cover the unitary operation in the SV1 simulator
@@ -250,6 +251,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         Args:
             cmd: Command to store
         """
+        if not self.is_available(cmd):
+            raise InvalidCommandError(f"Invalid command: {str(cmd)}")
+
         gate = cmd.gate
 
         # Do not clear the self._clear flag for those gates
-- 
2.43.0


From 4fbeb0afb5fb924f7bc24bed5de9fe3fc1dd8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 51/63] fix: AQT backend refuses gates on qubits that have been
 measured

---
 projectq/backends/_aqt/_aqt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index bd2e880..397ae09 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -23,7 +23,7 @@ from projectq.ops import Allocate, Barrier, Deallocate, FlushGate, Measure, Rx,
 from projectq.ops._basics import ANGLE_PRECISION
 from projectq.types import WeakQubitRef
 
-from .._exceptions import InvalidCommandError
+from .._exceptions import InvalidCommandError, MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._aqt_http_client import retrieve, send
 
@@ -91,6 +91,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._mapper = []
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._measured_locations = set()
         self._retrieve_execution = retrieve_execution
 
     def is_available(self, cmd):
@@ -128,6 +129,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._clear = False
             self._circuit = []
             self._allocated_qubits = set()
+            self._measured_locations = set()
 
         if not self.is_available(cmd):
             raise InvalidCommandError(f"Invalid command: {str(cmd)}")
@@ -149,9 +151,12 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 logical_id = qb_id
                 self._mapper.append(qb_id)
             self._measured_ids += [logical_id]
+            self._measured_locations.add(qb_id)
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
             qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
+            if not self._measured_locations.isdisjoint(qubits):
+                raise MidCircuitMeasurementError(f'Mid-circuit measurement is not supported: {str(cmd)}')
             angle = gate.angle / math.pi
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
-- 
2.43.0


From 9071fbc903d9b631f3afb8cb4a1e9ef52833b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 52/63] fix: AWS Braket backend refuses gates on qubits that
 have been measured

---
 projectq/backends/_awsbraket/_awsbraket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 9a293a8..304f0d4 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -43,7 +43,7 @@ from projectq.ops import (
 )
 from projectq.types import WeakQubitRef
 
-from .._exceptions import InvalidCommandError
+from .._exceptions import InvalidCommandError, MidCircuitMeasurementError
 from ._awsbraket_boto3_client import retrieve, send
 
 # TODO: Add MatrixGate to cover the unitary operation in the SV1 simulator
@@ -104,6 +104,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         self._probabilities = {}
         self._circuit = ""
         self._measured_ids = []
+        self._measured_locations = set()
         self._allocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
@@ -270,6 +271,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             self._clear = False
             self._circuit = ""
             self._allocated_qubits = set()
+            self._measured_locations = set()
 
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
@@ -282,6 +284,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
                     logical_id = tag.logical_qubit_id
                     break
             self._measured_ids.append(logical_id if logical_id is not None else qb_id)
+            self._measured_locations.add(qb_id)
             return
 
         # All other supported gate types
@@ -293,6 +296,8 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             json_cmd['control'] = cmd.control_qubits[0].id
 
         qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
+        if not self._measured_locations.isdisjoint(qubits + [qb.id for qb in cmd.control_qubits]):
+            raise MidCircuitMeasurementError(f'Mid-circuit measurement is not supported: {str(cmd)}')
         if len(qubits) > 1:
             json_cmd['targets'] = qubits
         else:
-- 
2.43.0


From 1d982ae224f2554e1d9a1a0801cb36d941edf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 53/63] fix: Azure Quantum backend forgets the measured qubits
 of the previous circuit

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..a6326f0 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -143,6 +143,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._probabilities = {}
             self._clear = False
             self._circuit = None
+            self._measured_ids = []
 
         gate = cmd.gate
 
-- 
2.43.0


From 48d091ddfd5cdca9f218b9156a89590f46cae0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 54/63] fix: Azure Quantum results are read by location and
 registered as integers

---
 projectq/backends/_azure/_azure_quantum.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index a6326f0..bea2ef3 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -347,21 +347,28 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                     f"Failed to retrieve job from Azure Quantum with job id: '{self._retrieve_execution}'!"
                 )
 
+        num_qubits = self._metadata['num_qubits']
+        meas_map = self._metadata['meas_map']
         if self._provider_id == IONQ_PROVIDER_ID:
-            self._probabilities = {
-                _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
-            }
+            histogram = {_rearrange_result(int(k), num_qubits): v for k, v in res["histogram"].items()}
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            # NB: the left-most bit of a sample belongs to the last location
+            counts = Counter(sample[::-1] for sample in res["c"])
+            histogram = {k: v / len(res["c"]) for k, v in counts.items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
+        # Keep the bits of the measured qubits only, in order of measurement
+        self._probabilities = {}
+        for state, probability in histogram.items():
+            measured = ''.join(state[location] for location in meas_map)
+            self._probabilities[measured] = self._probabilities.get(measured, 0) + probability
+
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 24130982ad406713848654e38945518e79915bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 55/63] fix: Azure Quantum backend submits enough qubits when
 locations are not contiguous

---
 projectq/backends/_azure/_azure_quantum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index bea2ef3..88ea761 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -116,6 +116,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._locations = set()
         self._probabilities = {}
         self._clear = True
 
@@ -144,9 +145,12 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._clear = False
             self._circuit = None
             self._measured_ids = []
+            self._locations = set()
 
         gate = cmd.gate
 
+        self._locations.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+
         # No-op/Meta gates
         if isinstance(gate, (AllocateQubitGate, DeallocateQubitGate)):
             return
@@ -282,8 +286,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
     @property
     def _input_data(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = self._metadata['num_qubits']
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -305,7 +308,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
+        num_qubits = max(self._locations.union(qubit_mapping.values())) + 1
         meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
-- 
2.43.0


From a442d1106b054449a208ab3138c679abbfa17ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 56/63] fix: Azure Quantum backend refuses gates on qubits that
 have been measured

---
 projectq/backends/_azure/_azure_quantum.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 88ea761..a17e63d 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -20,9 +20,16 @@ import numpy as np
 
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag
-from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, MeasureGate
+from projectq.ops import (
+    AllocateQubitGate,
+    BarrierGate,
+    DeallocateQubitGate,
+    FlushGate,
+    MeasureGate,
+)
 from projectq.types import WeakQubitRef
 
+from .._exceptions import MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._azure_quantum_client import retrieve, send
 from ._exceptions import AzureQuantumTargetNotFoundError
@@ -116,6 +123,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._measured_locations = set()
         self._locations = set()
         self._probabilities = {}
         self._clear = True
@@ -145,6 +153,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._clear = False
             self._circuit = None
             self._measured_ids = []
+            self._measured_locations = set()
             self._locations = set()
 
         gate = cmd.gate
@@ -167,8 +176,14 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_locations.add(cmd.qubits[0][0].id)
             return
 
+        if not isinstance(gate, BarrierGate) and not self._measured_locations.isdisjoint(
+            qb.id for qureg in cmd.all_qubits for qb in qureg
+        ):
+            raise MidCircuitMeasurementError(f'Mid-circuit measurement is not supported: {str(cmd)}')
+
         if self._provider_id == IONQ_PROVIDER_ID:
             if not self._circuit:
                 self._circuit = []
-- 
2.43.0


From d369e4159cc97fcdcd5b4b2ce7e355383ed4ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 57/63] fix: Azure Quantum backend refuses ControlledGate
 objects under further controls

---
 projectq/backends/_azure/_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/backends/_azure/_utils.py b/projectq/backends/_azure/_utils.py
index 0031f84..8594ef9 100644
--- a/projectq/backends/_azure/_utils.py
+++ b/projectq/backends/_azure/_utils.py
@@ -105,6 +105,9 @@ def is_available_ionq(cmd):
         return False
 
     if isinstance(gate, ControlledGate):
+        # NB: the controls of the wrapper are the first qubits of the command
+        if get_control_count(cmd) > 0:
+            return False
         num_ctrl_qubits = gate._n  # pylint: disable=protected-access
     else:
         num_ctrl_qubits = get_control_count(cmd)
@@ -144,6 +147,9 @@ def is_available_quantinuum(cmd):
         return False
 
     if isinstance(gate, ControlledGate):
+        # NB: the controls of the wrapper are the first qubits of the command
+        if get_control_count(cmd) > 0:
+            return False
         num_ctrl_qubits = gate._n  # pylint: disable=protected-access
     else:
         num_ctrl_qubits = get_control_count(cmd)
-- 
2.43.0


From e7ee8bd7e249aed09559fbf4cf253e1641f2b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 58/63] fix: linear and grid setups allow listed gates only on
 the stated number of qubits

---
 projectq/setups/_utils.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..058a9f2 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -104,14 +104,16 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
-    allowed_gate_instances = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_instances1 = []
+    allowed_gate_classes2 = []  # 2-qubit gates
+    allowed_gate_instances2 = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
-                allowed_gate_instances.append((gate, 0))
+                allowed_gate_instances1.append((gate, 0))
     if two_qubit_gates != "any":
         for gate in two_qubit_gates:
             if inspect.isclass(gate):
@@ -119,14 +121,16 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
-                    allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
+                    allowed_gate_instances2.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
-                    allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
-    allowed_gate_instances = tuple(allowed_gate_instances)
+                    allowed_gate_instances2.append((gate, 0))
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_instances1 = tuple(allowed_gate_instances1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
+    allowed_gate_instances2 = tuple(allowed_gate_instances2)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
@@ -139,9 +143,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
             return True
-        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
+            return True
+        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances1 and len(all_qubits) == 1:
+            return True
+        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances2 and len(all_qubits) == 2:
             return True
         return False
 
-- 
2.43.0


From 4cdeb7edf027b5bbbefad000b570c505d5a6af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 59/63] fix: linear and grid setups reject list elements that
 are no gates

---
 projectq/setups/_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 058a9f2..7d7a037 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -28,6 +28,7 @@ from projectq.cengines import (
 from projectq.ops import (
     CNOT,
     QFT,
+    BasicGate,
     BasicMathGate,
     ClassicalInstructionGate,
     ControlledGate,
@@ -90,7 +91,8 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                          are instances of a class (e.g. CNOT), it allows all gates which are equal to it. If the gate
                          is a class, it allows all instances of this class.  Default is (CNOT, Swap).
     Raises:
-        TypeError: If input is for the gates is not "any" or a tuple.
+        TypeError: If input is for the gates is not "any" or a tuple. Also if element within tuple is not a class or
+                   instance of BasicGate (e.g. CRz which is a shortcut function)
 
     Returns:
         A list of suitable compiler engines.
@@ -112,8 +114,10 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
                 allowed_gate_classes1.append(gate)
-            else:
+            elif isinstance(gate, BasicGate):
                 allowed_gate_instances1.append((gate, 0))
+            else:
+                raise TypeError("unsupported one_qubit_gates argument")
     if two_qubit_gates != "any":
         for gate in two_qubit_gates:
             if inspect.isclass(gate):
@@ -122,11 +126,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
                 allowed_gate_classes2.append(gate)
-            else:
+            elif isinstance(gate, BasicGate):
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances2.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances2.append((gate, 0))
+            else:
+                raise TypeError("unsupported two_qubit_gates argument")
     allowed_gate_classes1 = tuple(allowed_gate_classes1)
     allowed_gate_instances1 = tuple(allowed_gate_instances1)
     allowed_gate_classes2 = tuple(allowed_gate_classes2)
-- 
2.43.0


From 1f75be3aab78d25c6b2a608034a95c898c53a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:02 +0000
Subject: [PATCH 60/63] fix: setups do not take a negatively controlled gate
 for the listed gate instance

---
 projectq/setups/_utils.py            | 3 +++
 projectq/setups/restrictedgateset.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 7d7a037..23c2b77 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -153,6 +154,8 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
+        if has_negative_control(cmd):
+            return False
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances1 and len(all_qubits) == 1:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances2 and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..67825d4 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -160,12 +161,15 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
             return True
         if isinstance(cmd.gate, allowed_gate_classes):
             return True
-        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
-            return True
         if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
             return True
         if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
+        if has_negative_control(cmd):
+            # Not equal to any of the gate instances, whose controls are all positive
+            return False
+        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
+            return True
         if cmd.gate in allowed_gate_instances1 and len(all_qubits) == 1:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances2 and len(all_qubits) == 2:
-- 
2.43.0


From dc8370ab03165130ee2090e94f579718858a69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 61/63] fix: restricted gate set setups do not decompose into
 gates that are neither allowed nor decomposable

---
 projectq/setups/_utils.py            | 35 +++++++++++++++++++++++++++-
 projectq/setups/restrictedgateset.py | 12 +++++-----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 23c2b77..de35c1a 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -33,9 +33,42 @@ from projectq.ops import (
     BasicMathGate,
     ClassicalInstructionGate,
     ControlledGate,
+    H,
+    Rx,
+    Rxx,
     Swap,
     get_inverse,
 )
+from projectq.setups.decompositions import cnot2rxx, h2rx, rx2rz
+
+
+def get_decomposition_rule_set(one_qubit_gates, two_qubit_gates, other_gates=()):
+    """
+    Return the decomposition rules for a restricted gate set.
+
+    Decompositions which end up in gates that are neither allowed nor decomposed any further (e.g. CNOT into Rxx if there
+    is no Rxx) are left out.
+    """
+
+    def is_listed(gate_class, gates):
+        return gates == "any" or any(gate is gate_class or isinstance(gate, gate_class) for gate in gates)
+
+    unused_rules = []
+    if not is_listed(Rxx, two_qubit_gates) and not is_listed(Rxx, other_gates):
+        unused_rules.extend(cnot2rxx.all_defined_decomposition_rules)
+    if not any(is_listed(gate_class, gates) for gate_class in (Rx, type(H)) for gates in (one_qubit_gates, other_gates)):
+        # H and Rx would be decomposed into each other
+        unused_rules.extend(h2rx.all_defined_decomposition_rules)
+        unused_rules.extend(rx2rz.all_defined_decomposition_rules)
+
+    return DecompositionRuleSet(
+        rules=[
+            rule
+            for module in (projectq.libs.math, projectq.setups.decompositions)
+            for rule in module.all_defined_decomposition_rules
+            if rule not in unused_rules
+        ]
+    )
 
 
 def one_and_two_qubit_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -106,7 +139,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
     if one_qubit_gates != "any" and not isinstance(one_qubit_gates, tuple):
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
-    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    rule_set = get_decomposition_rule_set(one_qubit_gates, two_qubit_gates)
     allowed_gate_classes1 = []  # 1-qubit gates
     allowed_gate_instances1 = []
     allowed_gate_classes2 = []  # 2-qubit gates
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 67825d4..0d069f2 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -21,12 +21,8 @@ the choice of gates).
 
 import inspect
 
-import projectq
-import projectq.libs.math
-import projectq.setups.decompositions
 from projectq.cengines import (
     AutoReplacer,
-    DecompositionRuleSet,
     InstructionFilter,
     LocalOptimizer,
     TagRemover,
@@ -34,7 +30,11 @@ from projectq.cengines import (
 from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
-from ._utils import high_level_gates, one_and_two_qubit_gates
+from ._utils import (
+    get_decomposition_rule_set,
+    high_level_gates,
+    one_and_two_qubit_gates,
+)
 
 
 def default_chooser(cmd, decomposition_list):  # pylint: disable=unused-argument
@@ -98,7 +98,7 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
     if not isinstance(other_gates, tuple):
         raise TypeError("other_gates parameter must be a tuple.")
 
-    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    rule_set = get_decomposition_rule_set(one_qubit_gates, two_qubit_gates, other_gates)
     allowed_gate_classes = []  # n-qubit gates
     allowed_gate_instances = []
     allowed_gate_classes1 = []  # 1-qubit gates
-- 
2.43.0


From 2b9ab4f56b627854e0bd180e994f33195896ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:39 +0000
Subject: [PATCH 62/63] fix: AWS Braket setups allow the CNOT of the devices

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From 6e08b8d911a66789af6eea7595d815a5d20d5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 63/63] fix: linear and grid setups decompose math gates before
 mapping

Their decompositions allocate work qubits, which the filter behind the mapper
refused with a ValueError.
---
 projectq/setups/_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index de35c1a..be8190e 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -195,6 +195,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         return False
 
+    def mapped_gates(eng, cmd):
+        if not one_and_two_qubit_gates(eng, cmd):
+            return False
+        if isinstance(cmd.gate, BasicMathGate) and cmd.gate != Swap:
+            # Decompositions of MathGates may require more qubits, hence need to be carried out before the mapping
+            return low_level_gates(eng, cmd)
+        return True
+
     return [
         AutoReplacer(rule_set),
         TagRemover(),
@@ -202,7 +210,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         LocalOptimizer(5),
         AutoReplacer(rule_set),
         TagRemover(),
-        InstructionFilter(one_and_two_qubit_gates),
+        InstructionFilter(mapped_gates),
         LocalOptimizer(5),
         mapper,
         AutoReplacer(rule_set),
-- 
2.43.0

