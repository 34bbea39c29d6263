From 4884fc3d50acecc66045fb11b1d552c30116b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 01/44] fix: drop the cached qubit and bit views when a reset
 removes the registers

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..31ccafc 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -353,6 +353,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached attributes when clearing the registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From c4c0721cc42ab3bc7d5c1661776642b2a8932293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 02/44] fix: treat zero as a set variable value when evaluating
 parameters

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 84b5babae2a60e5a6e4c0bda1e3e083a16d71897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 03/44] fix: keep evaluated parameters of parametric controlled
 operations

---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..73f868e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -620,7 +620,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From 27668dcb4c308a2d69c9ec626a105ea2a7246baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 04/44] fix: conjugate the state when forming its density
 matrix

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 31ccafc..8318dcd 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From b26de88d0fbc6ec5264cecc750454f08e3e7304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 05/44] fix: check the trace, not the Frobenius norm, of
 density matrices

---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8318dcd..7ac5346 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -270,7 +270,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._get_norm(state)
 
         self._assert_state(state)
 
@@ -288,9 +288,14 @@ class Circuit:
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._get_norm(state), 1):
             raise ValueError("State is not normalized.")
 
+    @staticmethod
+    def _get_norm(state: NDArray) -> complex:
+        """Norm of a state vector or trace of a density matrix."""
+        return np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+
     @property
     def num_qubits(self) -> int:
         """Number of qubits in the circuit."""
-- 
2.43.0


From 0f67c4e938409919b4ad2b3a975903b635040ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/44] fix: honour little-endian indexing in density matrix
 simulation

---
 dwave/gate/simulator/simulator.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..576b2ec 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -161,7 +161,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -234,13 +234,17 @@ def _simulate_circuit_density_matrix(
         if isinstance(op, ops.Measurement):
             _measure(op, state, circuit, rng)
         else:
-            # first apply the gate normally
+            # the row index of the density matrix is stored in the most significant bits,
+            # i.e., in the last virtual qubits when using little-endian indexing
             targets = [circuit.qubits.index(qb) for qb in op.qubits]
+            virtual_targets = [t + num_qubits for t in targets]
+            if little_endian:
+                targets, virtual_targets = virtual_targets, targets
+            # first apply the gate normally
             apply_instruction(
                 num_virtual_qubits, state, op, targets, little_endian, rng
             )
             # then apply conjugate transpose to corresponding virtual qubit
-            virtual_targets = [t + num_qubits for t in targets]
             apply_instruction(
                 num_virtual_qubits, state, op, virtual_targets, little_endian, rng,
                 conjugate_gate=True,
-- 
2.43.0


From 31a2187b2183be46299da958d1a623bfe072ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 07/44] fix: forget previously measured qubits when a
 measurement is simulated again

---
 dwave/gate/simulator/simulator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 576b2ec..b4d6699 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -207,6 +207,7 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From fb6a2e13441b12a3acf0902c232b006e851c37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 08/44] fix: raise the intended error for unknown operations in
 the simulator

---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index b4d6699..a220be7 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -120,7 +120,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = op.matrix
         if conjugate_gate:
-- 
2.43.0


From 3091a93fae1b838df7c13b3ed44f13b14948f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 09/44] fix: apply templates with multiple controls, conditions
 and single zero-valued bits

---
 dwave/gate/circuit.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 7ac5346..11a7826 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,10 +115,11 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
+        if isinstance(bits, Bit):
+            bits = [bits]
 
+        bit_map = {}
+        if bits:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
@@ -130,29 +131,26 @@ class Circuit:
             mapped_qubits = [qubit_map[qb] for qb in op.qubits or []]
 
             # NOTE: avoid circular imports; needed to check operation type
-            from dwave.gate.operations.base import (
-                ControlledOperation,
-                Measurement,
-                ParametricOperation,
-            )
+            from dwave.gate.operations.base import Measurement, ParametricOperation
 
             if isinstance(op, Measurement):
                 if bits:
                     mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
-                    continue
+                    mapped_op = op.__class__(qubits=mapped_qubits) | mapped_bits
                 else:
+                    mapped_op = op.__class__(qubits=mapped_qubits)
                     warnings.warn(
                         "Measurements not stored in circuit bits. "
                         "Must pass bits to circuit call."
                     )
 
-            if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+            elif isinstance(op, ParametricOperation):
+                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                mapped_op = op.__class__(qubits=mapped_qubits)
+
+            if op._cond:
+                mapped_op.conditional([bit_map.get(b, b) for b in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From 125810da89ebc1e6a08c0bf846ead6b76539c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 10/44] fix: add the passed bit also when its value is zero

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 11a7826..ed09f64 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -421,7 +421,7 @@ class Circuit:
         if self.bits and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(bit if bit is not None else Bit(str(self.num_bits)))
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From 9d73a50784b99e31455e42a03685a3276dad47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 11/44] fix: restore the previous frozen status when leaving a
 freeze block

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ed09f64..aedfdd4 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -855,10 +855,11 @@ class CircuitContext:
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._was_frozen = cls.active_context._frozen
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                cls.active_context._frozen = self._was_frozen
 
         return FrozenContext()
 
-- 
2.43.0


From 235202414f8436cc229bac0a1dac210958c0e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 12/44] fix: lock the circuit and clear exit functions also
 when an exit function raises

---
 dwave/gate/circuit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index aedfdd4..030f087 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -891,11 +891,12 @@ class CircuitContext:
         # TODO: add setting to automatically add missing qubits on exit (or raise error)
         CircuitContext._active_context = None
 
-        for exit_func in self.on_exit_functions:
-            exit_func()
-        self.on_exit_functions.clear()
-
-        self.circuit.lock()
+        try:
+            for exit_func in self.on_exit_functions:
+                exit_func()
+        finally:
+            self.on_exit_functions.clear()
+            self.circuit.lock()
 
     @mixedproperty
     def active_context(cls) -> Optional[CircuitContext]:
-- 
2.43.0


From bc469e0aa705d5a437631aceb2ac5dcec84f88c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 13/44] fix: do not defer variable resets when a template is
 called outside a context

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 030f087..e50af7b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -720,8 +720,8 @@ class ParametricCircuit(Circuit):
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
 
         return super().__call__(qubits=qubits, bits=bits)
 
-- 
2.43.0


From 0585aaa4200869721ac587d21f27a1141fe5a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 14/44] fix: use circuit-wide qubit and bit indices when
 compiling to QIR

---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From 7ddb7121a5217b7765d9b5668ce544efe1a1e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 15/44] fix: skip ignored operations when compiling to QIR

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..70e8e60 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -351,6 +351,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     block = "body"
     for op in circuit.circuit:
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
+        if type_ is InstrType.SKIP:
+            continue
+
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
-- 
2.43.0


From b46ff5c0f9c7e7018ea6112f55dd35bb5a1c2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 16/44] fix: declare external QIR functions once, with types in
 argument order

---
 dwave/gate/qir/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 70e8e60..6347b97 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -359,9 +359,10 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
-            module.add_external_function(pyqir_op, parameter_types=parameter_types)
+            if pyqir_op not in module._external_functions:
+                module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
         if type_ is InstrType.MEASUREMENT:
-- 
2.43.0


From e4201e80f288e90d59d1ba786051e66785e9b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 17/44] fix: refuse to compile conditional operations to QIR
 instead of dropping the condition

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 6347b97..c67e665 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -354,6 +354,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
         if type_ is InstrType.SKIP:
             continue
 
+        if op._cond:
+            raise NotImplementedError("Conditional operations not supported when compiling to QIR.")
+
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
-- 
2.43.0


From 26daf38539085d02f78cf33fb0fefa5c6a6db2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 18/44] fix: add missing qubits for measurements when loading
 QIR

---
 dwave/gate/qir/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..6a4f159 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -141,6 +141,9 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
+
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 28113f8591f617e6a91e2a80550b21c71a378885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 19/44] fix: write each OpenQASM gate definition only once

---
 dwave/gate/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e50af7b..1c618f5 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -640,9 +640,13 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declarations = set()
         for op in self.circuit:
             if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+                declaration = getattr(op, "_qasm_decl")
+                if declaration not in declarations:
+                    header_str += "\n" + declaration + "\n"
+                    declarations.add(declaration)
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From 424eaf9111e7e6aeb55c394e0574e41822194511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 20/44] fix: respect falsy register labels when searching and
 in OpenQASM declarations

---
 dwave/gate/circuit.py             | 4 ++--
 dwave/gate/registers/registers.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 1c618f5..78352f5 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -493,7 +493,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -549,7 +549,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..b0ce63d 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -129,7 +129,7 @@ class QuantumRegister(Register[Qubit]):
         Returns:
             str: OpenQASM string representation of the circuit.
         """
-        if label:
+        if label is not None:
             return f"qreg {str(label)}[{len(self)}]"
 
         idx_str = str(idx) if idx is not None else ""
@@ -160,7 +160,7 @@ class ClassicalRegister(Register[Bit]):
         Returns:
             str: OpenQASM string representation of the circuit.
         """
-        if label:
+        if label is not None:
             return f"creg {str(label)}[{len(self)}]"
 
         idx_str = str(idx) if idx is not None else ""
-- 
2.43.0


From df0a35eea3f32f5fa4f44860da604100c07d0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 21/44] fix: give copied and summed registers a frozen status

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index b0ce63d..73d4f93 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # default for copies, which are created without calling '__init__'
+    _frozen: bool = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From d3d6db6a25f060a77a0bd3a634f606d6466b5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 22/44] fix: compare parametric operations with other
 operations without raising

---
 dwave/gate/operations/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 73f868e..e5269ad 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -371,8 +371,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
-        return param_eq and super().__eq__(op)
+        return super().__eq__(op) and op.parameters == self.parameters
 
     @property
     def parameters(self):
-- 
2.43.0


From 01644bfb68e2d3dd870f6492120e0b712f4e9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 23/44] fix: map parameters of custom operations by variable
 instead of by occurrence

---
 dwave/gate/operations/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index e5269ad..af2fb7a 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,12 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
-
-                for i, op in enumerate(circuit_copy.circuit):
+                for op in circuit_copy.circuit:
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                idx = circuit._parameter_register.index(param)
+                                op.parameters[j] = self.parameters[idx]
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From d7ee6096c003d962abd403bc80b62ebbfb99644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 24/44] fix: build unitaries of circuits with parametric
 controlled operations

---
 dwave/gate/tools/unitary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..7dd0e27 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -102,8 +102,13 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    if hasattr(op, "parameters"):
+        target_unitary = op.target_operation(op.parameters).matrix
+    else:
+        target_unitary = op.target_operation.matrix
+
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_unitary, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From a2b4f7987f72628b284b09b7de57ac8a82a1d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 25/44] fix: do not cache unitaries of mutable circuits

---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 7dd0e27..181ed98 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From a028c95a58a5fadd7cf2b1b3299e6cb36b488a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 26/44] fix: allow reading the matrix of parametric controlled
 operations in a context

---
 dwave/gate/operations/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index af2fb7a..11f0b5d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -639,7 +639,13 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        if CircuitContext.active_context is None:
+            target_operation = cls.target_operation(self.parameters)
+        else:
+            # the target operation must not be applied to the active circuit
+            with CircuitContext.freeze:
+                target_operation = cls.target_operation(self.parameters, qubits=self.target)
+        self._target_matrix = target_operation.matrix
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
-- 
2.43.0


From 22ed11133314cecbf6cff9b6a119dfe2a39bf105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 27/44] fix: always check the number of qubits of controlled
 operations

---
 dwave/gate/operations/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 11f0b5d..39eb3b1 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -210,9 +210,11 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        # use the property since controlled operations infer it from their controls and targets
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
-- 
2.43.0


From e45597f941181d5084b39bcbbeecd31501a70cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 28/44] fix: raise for controlled operations with unsupported
 numbers of controls in the simulator

---
 dwave/gate/simulator/simulator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index a220be7..3c34f4c 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -116,6 +116,11 @@ def apply_instruction(
                 num_qubits, state, gate, target, control0, control1,
                 little_endian=little_endian,
             )
+
+        else:
+            raise ValueError(
+                f"simulator encountered unknown controlled operation: {op.name}"
+            )
     else:
         # apply single qubit gate
         if op.num_qubits != 1:
-- 
2.43.0


From b79f169284336ac4b454c38a6278da4963c14a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 29/44] fix: allow building unitaries with parametric
 controlled operations in a context

---
 dwave/gate/tools/unitary.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 181ed98..c91ea90 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -101,7 +101,14 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
     if hasattr(op, "parameters"):
-        target_unitary = op.target_operation(op.parameters).matrix
+        from dwave.gate.circuit import CircuitContext
+
+        if CircuitContext.active_context is None:
+            target_operation = op.target_operation(op.parameters)
+        else:
+            with CircuitContext.freeze:
+                target_operation = op.target_operation(op.parameters, qubits=op.target)
+        target_unitary = target_operation.matrix
     else:
         target_unitary = op.target_operation.matrix
 
-- 
2.43.0


From 09106b0a0e445d20340c67082431152bf62f6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 30/44] fix: build unitaries of circuits with multi-qubit
 operations

---
 dwave/gate/tools/unitary.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index c91ea90..420f750 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -56,6 +56,8 @@ def build_unitary(circuit) -> NDArray:
         # 'Controlled' due to circular import issue
         if hasattr(op, "control"):
             state = _apply_controlled_gate(state, op, circuit.qubits)
+        elif op.num_qubits != 1:
+            state = _apply_multi_qubit_gate(state, op, circuit.qubits)
         else:
             state = _apply_single_qubit_gate(state, op, circuit.qubits)
     return state
@@ -118,6 +120,37 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     return controlled_unitary @ state
 
 
+def _apply_multi_qubit_gate(state: NDArray, op: Operation, qubits) -> NDArray:
+    """Apply a multi-qubit operation without controls to the state.
+
+    Args:
+        state: State on which to apply the operation.
+        op: Operation to apply (must have ``op.qubits``).
+        qubits: List of qubits in the circuit.
+
+    Returns:
+        NDArray: Resulting state after application.
+    """
+    op_matrix = op.matrix
+    shifts = [len(qubits) - 1 - qubits.index(qb) for qb in op.qubits]
+
+    # basis-state offsets of the operation's own basis states, using big-endian indexing
+    offsets = [
+        sum(bit << shift for bit, shift in zip(bits, shifts))
+        for bits in itertools.product((0, 1), repeat=len(shifts))
+    ]
+
+    mat = np.zeros((2 ** len(qubits), 2 ** len(qubits)), dtype=complex)
+    for idx in range(2 ** len(qubits)):
+        if any(idx >> shift & 1 for shift in shifts):
+            continue
+        for i, row in enumerate(offsets):
+            for j, col in enumerate(offsets):
+                mat[idx + row, idx + col] = op_matrix[i, j]
+
+    return mat @ state
+
+
 #########################
 # Stand-alone functions #
 #########################
-- 
2.43.0


From 4d75c3b47259a45f1a943f49f4a978b53b3b6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 31/44] fix: refuse negative qubit indices when building
 controlled unitaries

---
 dwave/gate/tools/unitary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 420f750..6270e47 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -181,6 +181,9 @@ def build_controlled_unitary(
     if not set(control).isdisjoint(target):
         raise ValueError("Control qubits and target qubit cannot be the same.")
 
+    if min(itertools.chain.from_iterable((control, target))) < 0:
+        raise ValueError("Qubit indices cannot be negative.")
+
     max_ = max(itertools.chain.from_iterable((control, target)))
     if isinstance(num_qubits, int) and num_qubits <= max_:
         raise ValueError(
-- 
2.43.0


From 1ed798b33b5b37882fe460db43e23a0d9c43af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 32/44] fix: allow resetting QIR modules that are not compiled

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c67e665..6ff4a71 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -304,7 +304,9 @@ class BaseModule:
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
         self._remove_external_instructions()
-        self._return.erase()
+        if self._return is not None:
+            self._return.erase()
+            self._return = None
 
         if rm_instructions:
             for key in self._instructions:
-- 
2.43.0


From 845967fab1da19a891763c1cbad63d42242c32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 33/44] fix: start QIR compilation anew after a failed one

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 6ff4a71..6d6e2c9 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -145,6 +145,9 @@ class BaseModule:
                     "Module already compiled. Set 'force=True' to force recompilation."
                 )
             self.reset(rm_instructions=False)
+        elif any(pyqir.is_entry_point(f) for f in self._module.functions):
+            # remove what a failed compilation left behind
+            self.reset(rm_instructions=False)
 
         self._compile()
 
-- 
2.43.0


From 8c1139913e41d92bd7e50a2b17c9fa0004db1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 34/44] fix: return the bitcode of the compiled QIR module

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 6d6e2c9..7534025 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -253,7 +253,7 @@ class BaseModule:
         if not self._is_compiled:
             self.compile()
 
-        return self._module.bitcode
+        return self._bitcode
 
     def add_instruction(self, block: str, instruction: Instruction) -> None:
         """Add an instruction (operation) to the module.
-- 
2.43.0


From 6596444de2846f11cc2a9f6c1c7884a8f1e6fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 35/44] fix: load QIR operations with several parameters

---
 dwave/gate/qir/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 6a4f159..1df9c91 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,9 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        # parameters are passed as one sequence
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From 908c681dbb89b2374635c98e1772066990d7d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 36/44] fix: keep qubit indices when growing a circuit while
 loading QIR

---
 dwave/gate/qir/loader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 1df9c91..3de2cc7 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -120,7 +120,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         continue
 
                     for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                        # extend the last register to keep the indices of all other qubits
+                        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -143,11 +144,12 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    # extend the last registers to keep the indices of all other qubits and bits
     for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
+        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
 
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+        circuit.add_bit(creg_label=next(reversed(circuit.cregisters), None))
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From 48a82f6d5e126659ba10b5f0a42ff813e4cf903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 37/44] fix: write the parameters of custom operations in
 OpenQASM

---
 dwave/gate/operations/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 39eb3b1..5da4f92 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,10 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            if isinstance(self, ParametricOperation):
+                params = ", ".join(str(p) for p in self.parameters)
+                new_name = f"{new_name}({params})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From 75a070ad91f385dec7c18b92cae53c9de03418d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 38/44] fix: refuse conditional operations when converting
 circuits to OpenQASM

---
 dwave/gate/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 78352f5..1ec7f2b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -642,6 +642,9 @@ class Circuit:
 
         declarations = set()
         for op in self.circuit:
+            if op._cond:
+                raise NotImplementedError("Conditional operations not supported by OpenQASM compilation.")
+
             if gate_definitions and hasattr(op, "_qasm_decl"):
                 declaration = getattr(op, "_qasm_decl")
                 if declaration not in declarations:
-- 
2.43.0


From 51035681e1e6377818d1b9c2c6b55ac5a0de3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 39/44] fix: declare the controlled-rotation gate in OpenQASM

---
 dwave/gate/operations/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index beac11c..bf86116 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -699,7 +699,10 @@ class CRotation(ParametricControlledOperation):
 
     _target_operation: Type[Operation] = Rotation
 
-    _qasm_decl: str = "// gate definition not implemented"
+    _qasm_decl: str = (
+        "gate crot(beta, gamma, delta) c, a "
+        "{ crz(beta) c, a; cry(gamma) c, a; crz(delta) c, a; }"
+    )
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-Rotation operation into an OpenQASM string.
-- 
2.43.0


From 8bd21841a33526e189384f9dd1354d5665168b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 40/44] fix: comparing operations with other objects never
 raises

---
 dwave/gate/operations/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 5da4f92..c2cb33c 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -256,6 +256,9 @@ class Operation(metaclass=ABCLockedAttr):
 
     def __eq__(self, op: Operation) -> bool:
         """Returns whether two operations are considered equal."""
+        if not isinstance(op, Operation):
+            return False
+
         name_eq = op.__class__.__name__ == self.__class__.__name__
         return name_eq and op.qubits == self.qubits
 
@@ -375,6 +378,9 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
+        if not isinstance(op, ParametricOperation):
+            return False
+
         return super().__eq__(op) and op.parameters == self.parameters
 
     @property
-- 
2.43.0


From ef36c30b4bc062ba0938cd2ed4a471fe2490f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 41/44] fix: keep an operation's conditional bits when the
 caller's list changes

---
 dwave/gate/operations/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index c2cb33c..9d749c0 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -351,6 +351,8 @@ class Operation(metaclass=ABCLockedAttr):
         """Sets the ``_cond`` attribute, conditioning the operation on one or more bits."""
         if isinstance(bits, Bit):
             bits = (bits,)
+        elif isinstance(bits, list):
+            bits = tuple(bits)
 
         self._cond = bits
         return self
-- 
2.43.0


From c7ea02afb075fde0d3e26611d3ec9ebac28bec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 42/44] fix: compute the masks of the simulation kernels in 64
 bits

---
 dwave/gate/simulator/operation_generation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..11772b7 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -191,7 +191,8 @@ def generate_op_c_code(
         return qubit
 
     def shift(value, idx):
-        return f"({value} << {idx})"
+        # in 64 bits; a C integer literal is only 32 bits wide
+        return f"((uint64_t){value} << {idx})"
 
     output_sub_states: set[int] = set()
     dependent_sub_states: set[int] = set()
@@ -302,7 +303,7 @@ def generate_op_c_code(
     body = c.Block(
         [
             # number of total states
-            c.Initializer(num_states, f"1 << {num_qubits.name}"),
+            c.Initializer(num_states, shift(1, num_qubits.name)),
             # this array will hold every "position" of the qubits affected by the gate in
             # sorted order
             c.Initializer(
@@ -317,7 +318,7 @@ def generate_op_c_code(
             # initialize all of the "masks". these will be used to generate the correct
             # state index
             *[
-                c.Initializer(mask, f"(1 << {positions.name}[{i}]) - 1")
+                c.Initializer(mask, f"{shift(1, f'{positions.name}[{i}]')} - 1")
                 for i, mask in enumerate(masks)
             ],
             c.Initializer(control_mask, control_mask_init),
-- 
2.43.0


From 238275c5e5aac820d3559dc9c3bb821582b62bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:48 +0000
Subject: [PATCH 43/44] fix: extending a circuit with its own operations never
 ended

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 1ec7f2b..bcf5da9 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -204,7 +204,8 @@ class Circuit:
         Args:
             operations: Operations to append to the circuit.
         """
-        for op in operations:
+        # the operations can be the circuit's own, which grow with each one appended
+        for op in list(operations):
             self.append(op)
 
     def remove(self, op: Operation) -> None:
-- 
2.43.0


From fa9589da3fb8efae1d10369feb04c3ac0f802236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:58 +0000
Subject: [PATCH 44/44] fix: sampling a qubit outside the state read and wrote
 outside its memory

---
 dwave/gate/simulator/simulator.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 3c34f4c..2d45b82 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -200,6 +200,9 @@ def sample_qubit(
     """
     cdef int num_qubits = round(np.log2(state.shape[0]))
 
+    if not 0 <= qubit < num_qubits:
+        raise ValueError(f"Cannot sample qubit {qubit}. State has only {num_qubits} qubits.")
+
     return measurement_computational_basis(
         num_qubits,
         state,
-- 
2.43.0

