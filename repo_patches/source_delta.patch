From d3e91cc14e48b15002e8d8c5e811ea8405bf3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 01/56] fix: joining an imaginary multiplication keeps the
 adder's output shift and sign and only absorbs the second operand

---
 lib/b_asic/core_operations.py | 15 +++++++++------
 lib/b_asic/sfg.py             |  4 ++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..2431bce 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1609,47 +1609,50 @@ class ImaginaryMultiplication(AbstractOperation):
         in0 = Input()
         in1 = Input()
         out0 = Output()
-        if other.mul_j:
-            in1 = -in1
+        src1 = Negation(in1) if other.mul_j else in1
 
         if isinstance(other, Addition):
             op = Addition(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, Subtraction):
             op = Subtraction(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, AddSub):
             op = AddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, ShiftAddSub):
             op = ShiftAddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
                 shift=other.shift,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         out0 <<= op
         return SFG([in0, in1], [out0])
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..70e676a 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2680,6 +2680,10 @@ class SFG(AbstractOperation):
             for sig in op.output(0).signals:
                 dest_op = sig.destination_operation
                 if hasattr(op, "_join"):
+                    if sig.destination.index != 1:
+                        raise ValueError(
+                            "Can only join with the second input of an operation"
+                        )
                     joined_op = op._join(dest_op)
                     new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
                     new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-- 
2.43.0


From 9e13373b6a93e622e8dbbbff5a33442055bf46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 02/56] fix: combining a shift with an adder uses the adder's
 operands and keeps its parameters

---
 lib/b_asic/core_operations.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 2431bce..f54a81b 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2522,8 +2522,10 @@ class Shift(AbstractOperation):
 
         return ShiftAddSub(
             shift=self.value,
-            src0=self.input(0).connected_source,
-            src1=add_op.input(1).connected_source,
+            src0=add_op.input(0).connected_source,
+            src1=self.input(0).connected_source,
+            mul_j=add_op.mul_j,
+            shift_output=add_op.shift_output,
         )
 
     def _combine_Subtraction(self) -> "ShiftAddSub":
@@ -2545,8 +2547,10 @@ class Shift(AbstractOperation):
         return ShiftAddSub(
             is_add=False,
             shift=self.value,
-            src0=self.input(0).connected_source,
-            src1=sub_op.input(1).connected_source,
+            src0=sub_op.input(0).connected_source,
+            src1=self.input(0).connected_source,
+            mul_j=sub_op.mul_j,
+            shift_output=sub_op.shift_output,
         )
 
     def _combine_AddSub(self) -> "ShiftAddSub":
@@ -2557,17 +2561,21 @@ class Shift(AbstractOperation):
         dest_port = self.output(0).signals[0].destination
         addsub_op = dest_port.operation
 
-        if not isinstance(addsub_op, ShiftAddSub):
-            raise TypeError("Output of Shift must connect to a ShiftAddSub operation")
+        if not isinstance(addsub_op, (AddSub, ShiftAddSub)):
+            raise TypeError(
+                "Output of Shift must connect to an AddSub or ShiftAddSub operation"
+            )
 
         if not dest_port.index == 1:
             raise ValueError(
-                "Shift can only be combined with the second input of ShiftAddSub"
+                "Shift can only be combined with the second input of AddSub"
             )
 
         return ShiftAddSub(
             is_add=addsub_op.is_add,
-            shift=self.value + addsub_op.shift,
-            src0=self.input(0).connected_source,
-            src1=addsub_op.input(1).connected_source,
+            shift=self.value + (addsub_op.param("shift") or 0),
+            src0=addsub_op.input(0).connected_source,
+            src1=self.input(0).connected_source,
+            mul_j=addsub_op.mul_j,
+            shift_output=addsub_op.shift_output,
         )
-- 
2.43.0


From d3fd0291743003307e325f7590ae7c3dc8823cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 03/56] fix: adders multiplying the second operand by j are not
 swappable

---
 lib/b_asic/core_operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index f54a81b..6b89b99 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -245,7 +245,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -343,6 +342,10 @@ class Addition(AbstractOperation):
                 res = res / (2**self.shift_output)
         return self._cast_to_data_type(res, data_type)
 
+    @property
+    def is_swappable(self) -> bool:
+        return not self.mul_j
+
     def _rewrite_AddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
@@ -766,7 +769,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1014,7 +1017,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From 8522b8534357be0704dd4d4254164553b3ef5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 04/56] fix: rewriting a constant multiplication keeps the
 leading digit, its sign and refuses zero

---
 lib/b_asic/core_operations.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 6b89b99..f76976f 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1765,8 +1765,12 @@ class ConstantMultiplication(AbstractOperation):
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
+        if not any(csd[0]):
+            raise ValueError("Cannot rewrite a multiplication with zero")
         if len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
@@ -1812,16 +1816,18 @@ class ConstantMultiplication(AbstractOperation):
         out0 = Output()
         prev_op = in0
 
-        if self.value < 0:
-            prev_op = Negation(prev_op)
-
         bits = len(csd[0])
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
+        if not any(csd[0]):
+            raise ValueError("Cannot rewrite a multiplication with zero")
         if len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
+            first_nonzero = True
             for i, digit in enumerate(csd[0]):
                 if digit not in (-1, 0, 1):
                     raise ValueError("CSD representation can only contain -1, 0, and 1")
@@ -1829,13 +1835,14 @@ class ConstantMultiplication(AbstractOperation):
                     continue
 
                 exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
+                shift = in0 if exp == 0 else Shift(-exp, in0)
+                if first_nonzero:
+                    # First non-zero digit initializes prev_op
+                    first_nonzero = False
+                    prev_op = shift if digit == 1 else Negation(shift)
+                elif digit == 1:
                     prev_op = Addition(prev_op, shift)
-                elif digit == -1:
+                else:
                     prev_op = Subtraction(prev_op, shift)
         out0 <<= prev_op
 
-- 
2.43.0


From 3a56ef97d5966868bf08b3e135757e2125a67edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 05/56] fix: only rewrite a shift of the second adder operand
 as ShiftAddSub and keep the adder's parameters

---
 lib/b_asic/sfg.py | 50 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 70e676a..773b792 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2614,40 +2614,54 @@ class SFG(AbstractOperation):
             raise ValueError("SFG to ShiftAddSub rewrite requires exactly 2 operations")
 
         # check that one operation is a shift and one is an addsub-like operation
-        if not (
-            isinstance(ops[0], Shift)
-            and isinstance(ops[1], (Addition, Subtraction, AddSub))
-        ) or (
-            isinstance(ops[1], Shift)
-            and isinstance(ops[0], (Addition, Subtraction, AddSub))
+        if isinstance(ops[0], Shift):
+            shift_op, add_op = ops
+        else:
+            add_op, shift_op = ops
+        if not isinstance(shift_op, Shift) or not isinstance(
+            add_op, (Addition, Subtraction, AddSub)
         ):
             raise ValueError(
                 "SFG to ShiftAddSub rewrite requires one Shift and one of (Addition, Subtraction, AddSub)"
             )
 
+        # check that only the second operand of the addsub-like operation is shifted
+        if (
+            add_op.input(0).connected_source.operation is shift_op
+            or add_op.input(1).connected_source.operation is not shift_op
+            or any(
+                output.input(0).connected_source.operation is not add_op
+                for output in self.output_operations
+            )
+        ):
+            raise ValueError(
+                "SFG to ShiftAddSub rewrite requires the Shift to only feed the second input of the addition or subtraction"
+            )
+
         # determine the modes of the ShiftAddSub operation
-        for op in ops:
-            if isinstance(op, Addition):
-                is_add = True
-            elif isinstance(op, Subtraction):
-                is_add = False
-            elif isinstance(op, AddSub):
-                is_add = op.is_add
-            else:
-                shift = op.value
+        if isinstance(add_op, AddSub):
+            is_add = add_op.is_add
+        else:
+            is_add = isinstance(add_op, Addition)
 
         # Construct and return the new SFG
         in0 = Input()
         in1 = Input()
-        op = ShiftAddSub(in0, in1, is_add=is_add, shift=shift)
+        op = ShiftAddSub(
+            in0,
+            in1,
+            is_add=is_add,
+            shift=shift_op.value,
+            mul_j=add_op.mul_j,
+            shift_output=add_op.shift_output,
+        )
         outs = []
         for out in self.outputs:
             out = Output()
             out <<= op
             outs.append(out)
 
-        op_after_in0 = self.find_by_id("in0").output(0).signals[0].destination_operation
-        if isinstance(op_after_in0, Shift):
+        if shift_op.input(0).connected_source.operation is self.input_operations[0]:
             sfg = SFG([in1, in0], outs)
         else:
             sfg = SFG([in0, in1], outs)
-- 
2.43.0


From 6869fec1e07cdf5a1c6bf502137e59b3fcfa73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 06/56] fix: connect external signals of SFGs with unused
 inputs and of SFGs without inputs or used outputs

---
 lib/b_asic/sfg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 773b792..9aaee1e 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -442,15 +442,19 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if len(self.input_signals) == 0:
-            return False
-        if len(self.output_signals) == 0:
+        if len(self.input_signals) == 0 and len(self.output_signals) == 0:
             return False
 
         # For each input_signal, connect it to the corresponding operation
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
         ):
+            if not input_operation.output(0).signals:
+                # Unused input
+                for signal in input_port.signals:
+                    signal.remove_source()
+                input_port.clear()
+                continue
             destination = input_operation.output(0).signals[0].destination
             if destination is None:
                 raise ValueError("Missing destination in signal.")
-- 
2.43.0


From ade2df5e2293162daf3a189d6c3a13ec3dc16956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/56] fix: split and to_sfg handle operations that cannot be
 evaluated on operations

---
 lib/b_asic/operation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index 08db846..c1d2d78 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -821,7 +821,10 @@ class AbstractOperation(Operation, AbstractGraphComponent):
         # Import here to avoid circular imports.
         from b_asic.special_operations import Input  # noqa: PLC0415
 
-        result = self.evaluate(*([Input()] * self.input_count))
+        try:
+            result = self.evaluate(*(Input() for _ in range(self.input_count)))
+        except TypeError:
+            return [self]
         if isinstance(result, collections.abc.Sequence) and all(
             isinstance(e, Operation) for e in result
         ):
@@ -848,7 +851,7 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                 operation_copy.input(i).connect(input_)
                 inputs.append(input_)
 
-            outputs = [Output(operation_copy)]
+            outputs = [Output(output) for output in operation_copy.outputs]
 
         return SFG(inputs=inputs, outputs=outputs)
 
-- 
2.43.0


From b9e61fdf7c92ce2aa3de76544d1d84af7a767754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 08/56] fix: butterflies with twiddle factors can be copied
 into an SFG

---
 lib/b_asic/fft_operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index f0851ae..e68e2b0 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -147,7 +147,7 @@ class R2DIFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -244,7 +244,7 @@ class R2DITButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -346,8 +346,8 @@ class R2TFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w0: complex,
-        w1: complex,
+        w0: complex = 1,
+        w1: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
-- 
2.43.0


From f9b0c6f2b526bfa2e74e6d6c24830811dccec649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 09/56] fix: inputs required by the outputs of the
 reflection-free adaptor

---
 lib/b_asic/wdf_operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/wdf_operations.py b/lib/b_asic/wdf_operations.py
index 63dfda7..60aa7af 100644
--- a/lib/b_asic/wdf_operations.py
+++ b/lib/b_asic/wdf_operations.py
@@ -396,4 +396,8 @@ class ReflectionFreeSeriesThreeportAdaptor(AbstractOperation):
         Get the input indices of all inputs in this operation whose values are
         required in order to evaluate the output at the given output index.
         """
-        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}
+        if output_index < 0 or output_index >= self.output_count:
+            raise IndexError(
+                f"Output index out of range (expected 0-{self.output_count - 1}, got {output_index})"
+            )
+        return (0, 2) if output_index == 1 else (0, 1, 2)
-- 
2.43.0


From fb3f1804b5804b61d03185d494acaa68579dcf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 10/56] fix: constants and negations follow the number
 representation and modes of the data type

---
 lib/b_asic/core_operations.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index f76976f..fc9b14b 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,6 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.data_type import NumRepresentation
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -63,9 +62,7 @@ class Constant(AbstractOperation):
         return TypeName("c")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is not None:
-            return apy.fx(self.param("value"), data_type.wl[0], data_type.wl[1])
-        return self.param("value")
+        return self._cast_to_data_type(self.param("value"), data_type)
 
     @property
     def value(self) -> Num:
@@ -182,12 +179,7 @@ class Negation(AbstractOperation):
         return f"-{inputs[0]}"
 
     def evaluate(self, a, data_type=None) -> Num:
-        if data_type is not None:
-            if data_type.num_repr == NumRepresentation.FLOATING_POINT:
-                return apy.fp(-a, data_type.wl[0], data_type.wl[1])
-            elif data_type.num_repr == NumRepresentation.FIXED_POINT:
-                return apy.fx(-a, data_type.wl[0], data_type.wl[1])
-        return -a
+        return self._cast_to_data_type(-a, data_type)
 
 
 class Addition(AbstractOperation):
-- 
2.43.0


From fef6d86f32cb92312f799c4ffff9c0ddf2742511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 11/56] fix: refused connections of signals and operations
 leave all connections as they were

---
 lib/b_asic/operation.py | 23 +++++++++++++++--------
 lib/b_asic/signal.py    | 12 +++++++++++-
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index c1d2d78..d6a5603 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -483,7 +483,8 @@ class AbstractOperation(Operation, AbstractGraphComponent):
         self._input_ports = [InputPort(self, i) for i in range(input_count)]
         self._output_ports = [OutputPort(self, i) for i in range(output_count)]
 
-        # Connect given input sources, if any.
+        # Check given input sources, if any.
+        sources = []
         if input_sources is not None:
             source_count = len(input_sources)
             if source_count != input_count:
@@ -491,13 +492,10 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                     "Wrong number of input sources supplied to Operation"
                     f" (expected {input_count}, got {source_count})"
                 )
-            for i, src in enumerate(input_sources):
-                if src is not None:
-                    if isinstance(src, Signal):
-                        # Already existing signal
-                        src.set_destination(self._input_ports[i])
-                    else:
-                        self._input_ports[i].connect(src.source)
+            sources = [
+                src if src is None or isinstance(src, Signal) else src.source
+                for src in input_sources
+            ]
 
         # Set specific latency_offsets
         if latency_offsets is not None:
@@ -516,6 +514,15 @@ class AbstractOperation(Operation, AbstractGraphComponent):
 
         self._execution_time = execution_time
 
+        # Connect last, so that an error above leaves the sources as they were.
+        for i, src in enumerate(sources):
+            if src is not None:
+                if isinstance(src, Signal):
+                    # Already existing signal
+                    src.set_destination(self._input_ports[i])
+                else:
+                    self._input_ports[i].connect(src)
+
     @overload
     @abstractmethod
     def evaluate(
diff --git a/lib/b_asic/signal.py b/lib/b_asic/signal.py
index b0da421..3bcb5ec 100644
--- a/lib/b_asic/signal.py
+++ b/lib/b_asic/signal.py
@@ -56,7 +56,11 @@ class Signal(AbstractGraphComponent):
         if source is not None:
             self.set_source(source)
         if destination is not None:
-            self.set_destination(destination)
+            try:
+                self.set_destination(destination)
+            except Exception:
+                self.remove_source()
+                raise
         self.set_param("bits", bits)
 
     @classmethod
@@ -119,6 +123,8 @@ class Signal(AbstractGraphComponent):
             new_source = source
 
         if new_source is not self._source:
+            if new_source is None:
+                raise ValueError("Cannot connect to a signal without source.")
             self.remove_source()
             self._source = new_source
             if self not in new_source.signals:
@@ -153,6 +159,10 @@ class Signal(AbstractGraphComponent):
             new_destination = destination
 
         if new_destination is not self._destination:
+            if new_destination is None:
+                raise ValueError("Cannot connect to a signal without destination.")
+            if self not in new_destination.signals and new_destination.signal_count:
+                raise ValueError("Cannot connect to already connected input port.")
             self.remove_destination()
             self._destination = new_destination
             if self not in new_destination.signals:
-- 
2.43.0


From 999a291e0eb81804a9f808fcaa8757528a056392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 12/56] fix: moving an operation keeps the delays of its
 signals also when it wraps around the period

---
 lib/b_asic/schedule.py | 89 +++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 62 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..ee2ddab 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -918,73 +918,38 @@ class Schedule:
                 f" between {-backward_slack} and {forward_slack}."
             )
 
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
         old_start = self._start_times[graph_id]
         tmp_start = old_start + time
         new_start = tmp_start % self._schedule_time
 
-        # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
-
-        # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+        # An output with delays is placed at the end of the previous period
+        if new_start == 0 and isinstance(op, Output):
+            lap = self._laps[op.input(0).signals[0].graph_id]
+            if lap + tmp_start // self._schedule_time != 0:
+                new_start = self._schedule_time
+
+        # Number of whole periods that the operation moves
+        periods = (tmp_start - new_start) // self._schedule_time
+
+        for signal in op.input_signals:
+            self._laps[signal.graph_id] += periods
+
+        for output_port in op.outputs:
+            # A value available after the end of the period has an implicit lap
+            latency_offset = cast(int, output_port.latency_offset)
+            lap_change = (
+                int(old_start + latency_offset > self._schedule_time)
+                - int(new_start + latency_offset > self._schedule_time)
+                - periods
+            )
+            for signal in output_port.signals:
+                laps = self._laps[signal.graph_id] + lap_change
+                # A don't care value may come from any period
+                self._laps[signal.graph_id] = (
+                    max(laps, 0) if isinstance(op, DontCare) else laps
+                )
 
-        # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
-        if (
-            new_start == 0
-            and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
-        ):
-            new_start = self._schedule_time
-            self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
-                    self._laps[signal.graph_id] -= 1
         # Set new start time
         self._start_times[graph_id] = new_start
         return self
-- 
2.43.0


From 2acaa17b07f8d34df7138e10322cf679f65b8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 13/56] fix: FromFile accepts a file with a single sample

---
 lib/b_asic/signal_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index f1c92e5..2637ac1 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -200,7 +200,7 @@ class FromFile(SignalGenerator):
 
     def __init__(self, path: str) -> None:
         self._path = path
-        data: list[Num] = np.loadtxt(path, dtype=complex).tolist()
+        data: list[Num] = np.loadtxt(path, dtype=complex, ndmin=1).tolist()
         self._data = data
         self._len = len(data)
 
-- 
2.43.0


From 6295221ea9257746cb85a2c3c0688fe956cc2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 14/56] fix: copies of ReciprocalSquareRoot keep real_valued

---
 lib/b_asic/core_operations.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index fc9b14b..01b1570 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2192,7 +2192,7 @@ class ReciprocalSquareRoot(AbstractOperation):
             latency_offsets=latency_offsets,
             execution_time=execution_time,
         )
-        self._real_valued = real_valued
+        self.set_param("real_valued", real_valued)
 
     @classmethod
     def type_name(cls) -> TypeName:
@@ -2202,10 +2202,20 @@ class ReciprocalSquareRoot(AbstractOperation):
         if isinstance(a, numbers.Real):
             res = float("inf") if a == 0 else float(a) ** (-0.5)
         else:
-            operand = complex(a).real if self._real_valued else complex(a)
+            operand = complex(a).real if self.real_valued else complex(a)
             res = float("inf") if operand == 0 else operand ** (-0.5)
         return self._cast_to_data_type(res, data_type)
 
+    @property
+    def real_valued(self) -> bool | None:
+        """Get if the operand is considered real-valued."""
+        return self.param("real_valued")
+
+    @real_valued.setter
+    def real_valued(self, real_valued: bool | None) -> None:
+        """Set if the operand is considered real-valued."""
+        self.set_param("real_valued", real_valued)
+
 
 class RightShift(AbstractOperation):
     r"""
-- 
2.43.0


From 7dbc5ca5b9082a4a0ce8f851a036d2495bc952d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 15/56] fix: saving to Python keeps false parameters, quotes in
 names, nested graphs, identifiers and schedules

---
 lib/b_asic/save_load_structure.py | 99 ++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 60a0d08..a55aa8e 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -7,7 +7,9 @@ stored as files.
 
 from datetime import datetime
 from inspect import signature
+from keyword import iskeyword
 from pathlib import Path
+from textwrap import indent
 from typing import cast
 
 from b_asic.graph_component import GraphComponent
@@ -42,7 +44,7 @@ def sfg_to_python(
         '\n"""\n'
         + f"B-ASIC automatically generated {_type} file.\n"
         + "Name: "
-        + f"{sfg.name}"
+        + sfg.name.replace("\\", "\\\\").replace('"', '\\"')
         + "\n"
         + "Last saved: "
         + f"{datetime.now()}"
@@ -51,27 +53,26 @@ def sfg_to_python(
     )
 
     result += "\nfrom b_asic import SFG, Signal, Input, Output"
-    for op_type in {type(op) for op in sfg.operations}:
-        result += f", {op_type.__name__}"
+    result += "".join(
+        f", {name}"
+        for name in sorted({type(op).__name__ for op in sfg.operations})
+        if name not in ("SFG", "Input", "Output")
+    )
     if schedule:
         result += ", Schedule"
 
     def kwarg_unpacker(comp: GraphComponent, params=None) -> str:
         if params is None:
-            params_filtered = {
+            params = {
                 attr: getattr(comp, attr)
                 for attr in signature(comp.__init__).parameters
                 if attr != "latency" and hasattr(comp, attr)
             }
             params = {
-                attr: (
-                    getattr(comp, attr)
-                    if not isinstance(getattr(comp, attr), str)
-                    else f'"{getattr(comp, attr)}"'
-                )
-                for attr in params_filtered
+                attr: repr(value) if isinstance(value, str) else value
+                for attr, value in params.items()
+                if value is not None
             }
-            params = {k: v for k, v in params.items() if v}
             if params.get("latency_offsets") is not None:
                 params["latency_offsets"] = {
                     k: v for k, v in params["latency_offsets"].items() if v is not None
@@ -81,30 +82,50 @@ def sfg_to_python(
 
         return ", ".join([f"{param}={value}" for param, value in params.items()])
 
+    def keep_id(comp: GraphComponent) -> str:
+        return f"{comp.graph_id}.graph_id = {str(comp.graph_id)!r}\n"
+
     # No need to redefined I/Os
     io_ops = [*sfg.input_operations, *sfg.output_operations]
 
     result += "\n# Inputs:\n"
     for input_op in sfg.input_operations:
         result += f"{input_op.graph_id} = Input({kwarg_unpacker(input_op)})\n"
+        result += keep_id(input_op)
 
     result += "\n# Outputs:\n"
     for output_op in sfg.output_operations:
         result += f"{output_op.graph_id} = Output({kwarg_unpacker(output_op)})\n"
+        result += keep_id(output_op)
 
     result += "\n# Operations:\n"
     for operation in sfg.split():
         if operation in io_ops:
             continue
         if isinstance(operation, SFG):
-            counter += 1
-            result = sfg_to_python(operation, counter) + result
-            continue
-
-        result += (
-            f"{operation.graph_id} ="
-            f" {operation.__class__.__name__}({kwarg_unpacker(operation)})\n"
-        )
+            # A function keeps the names of the nested SFG to itself
+            result += (
+                f"def _{operation.graph_id}():\n"
+                + indent(sfg_to_python(operation), "    ")
+                + "    return prop['name']\n"
+                + f"{operation.graph_id} = _{operation.graph_id}()\n"
+            )
+            offsets = {
+                k: v for k, v in operation.latency_offsets.items() if v is not None
+            }
+            if offsets:
+                result += f"{operation.graph_id}.set_latency_offsets({offsets})\n"
+            if operation.execution_time is not None:
+                result += (
+                    f"{operation.graph_id}.execution_time ="
+                    f" {operation.execution_time}\n"
+                )
+        else:
+            result += (
+                f"{operation.graph_id} ="
+                f" {operation.__class__.__name__}({kwarg_unpacker(operation)})\n"
+            )
+        result += keep_id(operation)
 
     result += "\n# Signals:\n"
     # Keep track of already existing connections to avoid adding duplicates
@@ -115,7 +136,7 @@ def sfg_to_python(
                 destination = cast(InputPort, signal.destination)
                 dest_op = destination.operation
                 connection = (
-                    f"Signal(source={operation.graph_id}."
+                    f"{signal.graph_id} = Signal(source={operation.graph_id}."
                     f"output({operation.outputs.index(signal.source)}),"
                     f" destination={dest_op.graph_id}."
                     f"input({dest_op.inputs.index(destination)}))\n"
@@ -123,16 +144,15 @@ def sfg_to_python(
                 if connection in connections:
                     continue
 
-                result += connection
+                result += connection + keep_id(signal)
                 connections.append(connection)
 
     inputs = "[" + ", ".join(op.graph_id for op in sfg.input_operations) + "]"
     outputs = "[" + ", ".join(op.graph_id for op in sfg.output_operations) + "]"
-    sfg_name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
-    sfg_name_var = sfg_name.replace(" ", "_").replace("-", "_")
+    sfg_name_var = _variable_name(sfg, counter)
     result += "\n# Signal flow graph:\n"
     result += (
-        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name='{sfg_name}')\n"
+        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name={str(sfg.name)!r})\n"
     )
     result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{sfg_name_var}" + "}\n"
 
@@ -142,6 +162,21 @@ def sfg_to_python(
     return result
 
 
+def _variable_name(sfg: SFG, counter: int = 0) -> str:
+    """Return the name of the variable that holds *sfg* in the generated file."""
+    default = f"sfg{counter}" if counter > 0 else "sfg"
+    name = sfg.name.replace(" ", "_").replace("-", "_")
+    used = {type(op).__name__ for op in sfg.operations} | {
+        str(component.graph_id) for component in sfg.components
+    }
+    used |= {"SFG", "Signal", "Input", "Output", "Schedule", "prop", "positions"}
+    if not name.isidentifier() or iskeyword(name):
+        name = default
+    while name in used:
+        name += "_"
+    return name
+
+
 def python_to_sfg(path: str) -> tuple[SFG, dict[str, tuple[int, int]]]:
     """
     Given a serialized file, try to deserialize it and load it to the library.
@@ -186,16 +221,14 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = (
-        schedule.sfg.name.replace(" ", "_").replace("-", "_")
-        if schedule.sfg.name
-        else "sfg"
-    )
+    # The delays of the signals are part of the laps
+    sfg = schedule._sfg
+    sfg_name = _variable_name(sfg)
     result = "\n# Schedule:\n"
     nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
     result += (
-        f"{sfg_name}_schedule = Schedule({sfg_name}, {schedule.schedule_time},"
-        f" {schedule.cyclic}, 'provided', {schedule.start_times},"
-        f" {nonzerolaps})\n"
+        f"{sfg_name}_schedule = Schedule({sfg_name},"
+        f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
+        f" start_times={schedule.start_times}, laps={nonzerolaps})\n"
     )
-    return sfg_to_python(schedule.sfg, schedule=True) + result
+    return sfg_to_python(sfg, schedule=True) + result
-- 
2.43.0


From 2f97d89861ef1d239bb356afc5e3c563e8d1156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 16/56] fix: an input connected both to an output and to an
 operation is listed once in the SFG

---
 lib/b_asic/sfg.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 9aaee1e..78f4e03 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -274,19 +274,13 @@ class SFG(AbstractOperation):
             elif new_signal.destination.operation in output_operations_set:
                 # Add directly connected input to output to ordered list.
                 source = cast(OutputPort, new_signal.source)
+                if source.operation not in self._operations_dfs_order:
+                    self._components_dfs_order.append(source.operation)
+                    self._operations_dfs_order.append(source.operation)
                 self._components_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal,
-                        new_signal.destination.operation,
-                    ]
-                )
-                self._operations_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal.destination.operation,
-                    ]
+                    [new_signal, new_signal.destination.operation]
                 )
+                self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
         output_sources = []
-- 
2.43.0


From 41a72f34fb65ac8b625848f7c8ecbdaaa785a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 17/56] fix: forward-backward allocation outputs values read on
 arrival and refuses variables it cannot represent

---
 lib/b_asic/resources.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..de4b770 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -279,6 +279,16 @@ class _ForwardBackwardTable:
         collection : ProcessCollection
             ProcessCollection to apply forward-backward allocation on.
         """
+        for mv in collection:
+            if mv.execution_time > collection.schedule_time:
+                raise ValueError(f"{mv} is alive longer than the schedule time.")
+            if len({rt % collection.schedule_time for rt in mv.read_times}) != len(
+                set(mv.read_times)
+            ):
+                raise ValueError(
+                    f"{mv} is read at times that coincide modulo the schedule time."
+                )
+
         # Generate an alive variable list
         self._collection = set(collection.collection)
         self._live_variables: list[int] = [0] * collection.schedule_time
@@ -306,8 +316,17 @@ class _ForwardBackwardTable:
         for mv in collection:
             self.table[mv.start_time].inputs.append(mv)
             if mv.execution_time:
-                self.table[(mv.start_time + 1) % collection.schedule_time].regs[0] = mv
-            else:
+                first_regs = self.table[
+                    (mv.start_time + 1) % collection.schedule_time
+                ].regs
+                if first_regs[0] is not None:
+                    raise ValueError(
+                        f"{mv} and {first_regs[0]} are both written at time"
+                        f" {mv.start_time}."
+                    )
+                first_regs[0] = mv
+            if mv.start_time in mv.read_times:
+                # Read directly from the input
                 self.table[mv.start_time].outputs.append(mv)
                 self.table[mv.start_time].outputs_from = -1
 
-- 
2.43.0


From 4f57d32c8e17297215c11cccb8ef07b1521be3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 18/56] fix: port exclusion and port-limited splits honour the
 cyclic time axis, port order and repeated processes

---
 lib/b_asic/resources.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index de4b770..29afe57 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -884,8 +884,10 @@ class ProcessCollection:
                 read_time % self.schedule_time for read_time in node1.read_times
             }
             node1_start_time = node1.start_time % self.schedule_time
-            if total_ports == 1 and node1.start_time in node1_stop_times:
+            if total_ports == 1 and node1_start_time in node1_stop_times:
                 raise ValueError("Cannot read and write in same cycle.")
+            if len(node1_stop_times) != len(set(node1.read_times)):
+                raise ValueError("Cannot read twice in same cycle.")
             for node2 in exclusion_graph:
                 if node1 == node2:
                     continue
@@ -1272,7 +1274,7 @@ class ProcessCollection:
         list of :class:`ProcessCollection`
             A list of new :class:`ProcessCollection` objects with the process splitting.
         """
-        if set(self.collection) != set(sequence):
+        if set(self.collection) != set(sequence) or len(self) != len(sequence):
             raise KeyError("processes in `sequence` must be equal to processes in self")
 
         collections: list[ProcessCollection] = []
@@ -1433,7 +1435,7 @@ class ProcessCollection:
         raise NotImplementedError
 
     def _get_process_fits_in_collection(
-        self, process, collections, write_ports, read_ports, total_ports
+        self, process, collections, read_ports, write_ports, total_ports
     ) -> list[bool]:
         return [
             not self._ports_collide(
@@ -1452,21 +1454,24 @@ class ProcessCollection:
     ) -> bool:
         # Test the number of concurrent write accesses
         collection_writes = defaultdict(int, collection.write_port_accesses())
-        if collection_writes[proc.start_time] >= write_ports:
+        if collection_writes[proc.start_time % self.schedule_time] >= write_ports:
             return True
 
         # Test the number of concurrent read accesses
         collection_reads = defaultdict(int, collection.read_port_accesses())
-        for proc_read_time in proc.read_times:
-            if collection_reads[proc_read_time % self.schedule_time] >= read_ports:
+        proc_reads = Counter(time % self.schedule_time for time in proc.read_times)
+        for read_time, count in proc_reads.items():
+            present = collection_reads[read_time]
+            if present and present + count > read_ports:
                 return True
 
         # Test the number of total accesses
         collection_total_accesses = defaultdict(
             int, Counter(collection_writes) + Counter(collection_reads)
         )
-        for access_time in [proc.start_time, *proc.read_times]:
-            if collection_total_accesses[access_time] >= total_ports:
+        for access_time, count in Counter([proc.start_time, *proc.read_times]).items():
+            present = collection_total_accesses[access_time]
+            if present and present + count > total_ports:
                 return True
         return False
 
-- 
2.43.0


From 4b549c2b56e75c2be74af82f3fef055e2e8879a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:43 +0000
Subject: [PATCH 19/56] fix: simulation refuses delay-free loops instead of
 giving None, and running no iterations returns no outputs

---
 lib/b_asic/simulation.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index bf5544e..173012f 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -145,7 +145,8 @@ class Simulation:
 
         Will run until the number of iterations is greater than or equal to the given
         iteration and return the output values of the last iteration. The number of
-        iterations actually simulated depends on the current state of the Simulation.
+        iterations actually simulated depends on the current state of the Simulation;
+        nothing is returned if no iteration is simulated.
 
         Parameters
         ----------
@@ -178,9 +179,15 @@ class Simulation:
                         val = src_op.current_output(
                             src_port.index, self._delays, src_op.graph_id
                         )
+                        if val is None:
+                            raise RuntimeError(
+                                "Direct feedback loop detected when simulating"
+                                f" operation {src_op.graph_id}."
+                            )
                         input_vals.append(val)
             return input_vals
 
+        output_values: list[Num] = []
         while self._iteration < iteration:
             results: dict[ResultKey, Num] = {}
             # Fetch the input values for this iteration
@@ -225,22 +232,28 @@ class Simulation:
                         )
                     ] = val
 
-            # Update the value of the delay elements
-            for delay_op in self._sfg.find_by_type(Delay):
-                input_val = get_input_values_for_op(delay_op)[0]
-                self._delays[delay_op.key(0, delay_op.graph_id)] = input_val
+            # Find the new values of the delay elements
+            next_delays = {
+                delay_op.key(0, delay_op.graph_id): get_input_values_for_op(delay_op)[0]
+                for delay_op in self._sfg.find_by_type(Delay)
+            }
 
             # Update the output values
             for output_op in self._sfg.output_operations:
                 val = get_input_values_for_op(output_op)[0]
                 results[output_op.graph_id] = val
 
+            self._delays.update(next_delays)
+
             if save_results:
                 for key, value in results.items():
                     self._results[key].append(value)
             self._iteration += 1
+            output_values = [
+                results[op.graph_id] for op in self._sfg.output_operations
+            ]
 
-        return [results[op.graph_id] for op in self._sfg.output_operations]
+        return output_values
 
     def run_for(self, iterations: int, save_results: bool = True) -> Sequence[Num]:
         """
-- 
2.43.0


From 463296fbb9a9c529b3287121616fc7b4f8e09a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 20/56] fix: moving an operation to the end of the period keeps
 it there when its result is read at that time

---
 lib/b_asic/schedule.py  | 14 ++++++++++++++
 lib/b_asic/scheduler.py |  6 +++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index ee2ddab..09146fd 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -929,6 +929,20 @@ class Schedule:
             if lap + tmp_start // self._schedule_time != 0:
                 new_start = self._schedule_time
 
+        # Nothing is read before the period in which it is computed, so an operation
+        # whose result is read at the end of the period stays there
+        if new_start == 0 < tmp_start and not isinstance(op, DontCare):
+            periods = tmp_start // self._schedule_time
+            for output_port in op.outputs:
+                latency_offset = cast(int, output_port.latency_offset)
+                laps = (
+                    int(old_start + latency_offset > self._schedule_time)
+                    - int(latency_offset > self._schedule_time)
+                    - periods
+                )
+                if any(self._laps[s.graph_id] + laps < 0 for s in output_port.signals):
+                    new_start = self._schedule_time
+
         # Number of whole periods that the operation moves
         periods = (tmp_start - new_start) // self._schedule_time
 
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0f1f787..9050bd2 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -434,10 +434,10 @@ class ALAPScheduler(Scheduler):
                     new_unwrapped_start_time = schedule.start_times[
                         op.graph_id
                     ] + schedule.forward_slack(op.graph_id)
-                    self._op_laps[op.graph_id] = (
-                        new_unwrapped_start_time // schedule._schedule_time
-                    )
                     schedule.move_operation_alap(op.graph_id)
+                    self._op_laps[op.graph_id] = (
+                        new_unwrapped_start_time - schedule.start_times[op.graph_id]
+                    ) // schedule._schedule_time
 
         log.debug("ALAP scheduling completed")
         # adjust the scheduling time if empty time slots have appeared in the start
-- 
2.43.0


From 6377d6d254b20dd2c3c3019b33d074a8008972bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 21/56] fix: a schedule's graph gets its delays at the right
 ports whatever its operations are named

---
 lib/b_asic/schedule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 09146fd..26f0e16 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1151,11 +1151,12 @@ class Schedule:
             ):
                 lap += 1
 
-            destination_laps.append((port.operation.graph_id, port.index, lap))
+            destination_laps.append((port, lap))
 
-        for op, port, lap in destination_laps:
+        for port, lap in destination_laps:
             for _ in range(lap):
-                new_sfg = new_sfg.insert_operation_before(op, Delay(), port)
+                delay = new_sfg._add_component_unconnected_copy(Delay())
+                new_sfg._insert_operation_before_inputport(port, delay)
         return new_sfg()
 
     def _get_memory_variables_list(self) -> list[MemoryVariable]:
-- 
2.43.0


From 84ef1cdae2d9cbb5817b44a3e5e8528763e603c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 22/56] fix: extracting operations connects every signal across
 the border and refuses inputs and outputs

---
 lib/b_asic/sfg.py | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 78f4e03..53e02e6 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -697,6 +697,7 @@ class SFG(AbstractOperation):
 
     def extract(self, targets: Iterable[GraphID]) -> "SFG":
         sfg_copy = self()
+        targets = list(dict.fromkeys(targets))
 
         for target in targets:
             target_op = sfg_copy.find_by_id(target)
@@ -704,6 +705,8 @@ class SFG(AbstractOperation):
                 raise ValueError(
                     f"No target operation with ID {target} found in the SFG"
                 )
+            if isinstance(target_op, (Input, Output)):
+                raise ValueError(f"Cannot extract input or output {target}")
 
         # Perform the extraction
         inputs = []
@@ -717,41 +720,33 @@ class SFG(AbstractOperation):
                     input_op = Input()
                     sig.remove_destination()
                     input_port.connect(input_op)
-                    inputs.append((sig.graph_id, input_op))
+                    inputs.append((sig, input_op))
 
             # Find all output ports from the subgraph
             for output_port in op.outputs:
-                for sig in output_port.signals[:]:
-                    if sig.destination_operation.graph_id not in targets:
-                        output_op = Output()
-                        output_op.input(0).connect(output_port)
+                signals = [
+                    sig
+                    for sig in output_port.signals
+                    if sig.destination is None
+                    or sig.destination.operation.graph_id not in targets
+                ]
+                if signals:
+                    for sig in signals:
                         sig.remove_source()
-                        outputs.append((sig.graph_id, output_op))
+                    outputs.append((signals, Output(output_port)))
 
         sub_sfg = SFG(
             inputs=[inp[1] for inp in inputs],
             outputs=[out[1] for out in outputs],
         )
 
-        # Map the external signals (from the original sfg_copy) to the corresponding
-        # input/output operations created inside sub_sfg (which now have graph_ids).
-        sub_inputs = list(sub_sfg.input_operations)
-        sub_outputs = list(sub_sfg.output_operations)
-        if len(inputs) != len(sub_inputs) or len(outputs) != len(sub_outputs):
-            raise RuntimeError(
-                "Mismatch between extracted boundary ports and sub-SFG ports"
-            )
-
-        for idx, ((in_sig_id, _), (out_sig_id, _)) in enumerate(
-            zip(inputs, outputs, strict=False)
-        ):
-            in_sig = sfg_copy.find_by_id(in_sig_id)
-            in_sig.remove_destination()
-            in_sig.set_destination(sub_sfg.input(idx))
-
-            out_sig = sfg_copy.find_by_id(out_sig_id)
-            out_sig.remove_source()
-            out_sig.set_source(sub_sfg.output(idx))
+        # Connect the external signals (from the original sfg_copy) to the
+        # corresponding ports of sub_sfg.
+        for (sig, _), port in zip(inputs, sub_sfg.inputs, strict=True):
+            sig.set_destination(port)
+        for (signals, _), port in zip(outputs, sub_sfg.outputs, strict=True):
+            for sig in signals:
+                sig.set_source(port)
 
         return sfg_copy()
 
-- 
2.43.0


From 964d49ca2c8a4ee6d5476f0dc3dc4fca151b0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 23/56] fix: simplifying delays keeps initial values and delays
 fed by each other

---
 lib/b_asic/sfg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 53e02e6..2c5e848 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1079,17 +1079,19 @@ class SFG(AbstractOperation):
                         signal.destination.operation
                         for signal in delay_element.inputs[0].signals[0].source.signals
                         if isinstance(signal.destination.operation, Delay)
+                        and signal.destination.operation.initial_value
+                        == delay_element.initial_value
                     ]
 
                     if delay_element in neighboring_delays:
                         neighboring_delays.remove(delay_element)
 
                     for delay in neighboring_delays:
-                        for output in delay.outputs[0].signals:
-                            output.set_source(delay_element.outputs[0])
                         in_sig = delay.input(0).signals[0]
                         delay.input(0).remove_signal(in_sig)
                         in_sig.source.remove_signal(in_sig)
+                        for output in delay.outputs[0].signals[:]:
+                            output.set_source(delay_element.outputs[0])
             sfg_copy = sfg_copy()
             if no_of_delays <= len(sfg_copy.find_by_type(Delay)):
                 break
-- 
2.43.0


From 2a99f7a4abcbbf4a8e10e46bf0fe73afaf3967f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 24/56] fix: removing an operation whose output is unused
 leaves no dangling signal

---
 lib/b_asic/sfg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 2c5e848..75e478b 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1187,6 +1187,7 @@ class SFG(AbstractOperation):
                 if operation.input(i).signal_count > 0:
                     in_sig = operation.input(i).signals[0]
                     operation.input(i).remove_signal(in_sig)
+                    in_sig.remove_source()
 
         return sfg_copy()
 
-- 
2.43.0


From e7e14f01af09a2a4dfaec43e48fbd5a99f3da199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 25/56] fix: unfolding keeps the delays' initial values and
 does not depend on names

---
 lib/b_asic/sfg.py | 62 ++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 75e478b..961c1d8 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2433,7 +2433,10 @@ class SFG(AbstractOperation):
         outputs = sfg.output_operations
 
         # Remove all delay elements in the SFG and replace each one
-        # with one input operation and one output operation
+        # with one input operation and one output operation, placed last
+        no_of_inputs = len(inputs)
+        no_of_outputs = len(outputs)
+        initial_values = [delay.initial_value for delay in sfg.find_by_type(Delay)]
         for delay in sfg.find_by_type(Delay):
             tmp_input = Input(name="input_" + delay.graph_id)
             tmp_output = Output(
@@ -2463,59 +2466,52 @@ class SFG(AbstractOperation):
             for operation in sfgs[i].operations:
                 suffix = f"_{i}"
                 operation.graph_id = operation.graph_id + suffix
-                if operation.name[:7] not in ["", "input_t", "output_"]:
+                if operation.name:
                     operation.name = operation.name + suffix
 
-        input_name_to_idx = {}  # save the input port indices for future reference
         new_inputs = []
         # For each copy of the SFG, create new input operations for every "original"
         # input operation and connect them to begin creating the unfolded SFG
         for i in range(factor):
             for port, operation in zip(
-                sfgs[i].inputs, sfgs[i].input_operations, strict=True
+                sfgs[i].inputs[:no_of_inputs],
+                sfgs[i].input_operations[:no_of_inputs],
+                strict=True,
             ):
-                if not operation.name.startswith("input_t"):
-                    new_input = Input(name=operation.name)
-                    new_input.graph_id = operation.graph_id
-                    new_inputs.append(new_input)
-                    port.connect(new_input)
-                else:
-                    # If the input was created earlier when removing the delays
-                    # then just save the index
-                    input_name_to_idx[operation.name] = port.index
+                new_input = Input(name=operation.name)
+                new_input.graph_id = operation.graph_id
+                new_inputs.append(new_input)
+                port.connect(new_input)
 
         # Connect the original outputs in the same way as the inputs
         # Also connect the copies of the SFG together according to a formula
-        # from the TSTE87 course material, and save the number of delays for
-        # each interconnection
+        # from the TSTE87 course material, adding the delay for
+        # each interconnection to the next iteration
         new_outputs = []
-        delay_placements = {}
         for i in range(factor):
             for port, operation in zip(
-                sfgs[i].outputs, sfgs[i].output_operations, strict=True
+                sfgs[i].outputs[:no_of_outputs],
+                sfgs[i].output_operations[:no_of_outputs],
+                strict=True,
             ):
-                if not operation.name.startswith("output_t"):
-                    new_output = Output(port, name=operation.name)
-                    new_output.graph_id = operation.graph_id
-                    new_outputs.append(new_output)
-                else:
-                    index = operation.name[8:]  # Remove the "output_t" prefix
-                    j = (i + 1) % factor
-                    number_of_delays_between = (i + 1) // factor
-                    input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
+                new_output = Output(port, name=operation.name)
+                new_output.graph_id = operation.graph_id
+                new_outputs.append(new_output)
+            for port, input_port, initial_value in zip(
+                sfgs[i].outputs[no_of_outputs:],
+                sfgs[(i + 1) % factor].inputs[no_of_inputs:],
+                initial_values,
+                strict=True,
+            ):
+                if i + 1 < factor:
                     input_port.connect(port)
-                    delay_placements[port] = [i, number_of_delays_between]
+                else:
+                    input_port.connect(Delay(port, initial_value=initial_value))
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
 
         sfg = SFG(new_inputs, new_outputs)  # create a new SFG to remove floating nodes
 
-        # Insert the interconnect delays according to what is saved in delay_placements
-        for port, val in delay_placements.items():
-            i, no_of_delays = val
-            for _ in range(no_of_delays):
-                sfg = sfg.insert_operation_after(f"sfg{i}.{port.index}", Delay())
-
         # Flatten all the copies of the original SFG
         for i in range(factor):
             sfg.find_by_id(f"sfg{i}").connect_external_signals_to_components()
-- 
2.43.0


From ef8223b7ae88544215ee7ffa091429c8eeb468a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 26/56] fix: keep reads of zero lifetime when splitting a
 variable into chains

---
 lib/b_asic/resources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 29afe57..89b5706 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2473,17 +2473,18 @@ class ProcessCollection:
             S = process.start_time
 
             # Number of time windows needed
-            K = max((L - 1) // T for L in all_reads.values()) + 1
+            K = max(max(L - 1, 0) // T for L in all_reads.values()) + 1
 
             # Build chain in reverse so relay MemoryInputPort targets already exist.
-            # Each window k covers lifetimes in the range (k*T, (k+1)*T].
+            # Each window k covers lifetimes in the range (k*T, (k+1)*T], the first
+            # one also lifetimes of zero.
             chain: list[MemoryVariable] = []
             for k in range(K - 1, -1, -1):
                 write_time = (S + k * T) % self.schedule_time
                 reads_k: dict = {
                     port: L - k * T
                     for port, L in all_reads.items()
-                    if k == (L - 1) // T
+                    if k == max(L - 1, 0) // T
                 }
                 if k < K - 1:
                     # chain[0] is chain[k+1] since we prepend each iteration
-- 
2.43.0


From 8f0871bbcfee30eee143bba57bcf720dde7ce85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 27/56] fix: wdf_allpass with a zero coefficient before a
 non-zero one in a second-order section

---
 lib/b_asic/sfg_generators/wave_digital_filters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/wave_digital_filters.py b/lib/b_asic/sfg_generators/wave_digital_filters.py
index fdb85a3..3815021 100644
--- a/lib/b_asic/sfg_generators/wave_digital_filters.py
+++ b/lib/b_asic/sfg_generators/wave_digital_filters.py
@@ -127,9 +127,12 @@ def wdf_allpass(
                 latency_offsets=latency_offsets,
                 execution_time=execution_time,
             )
-            Signal(adaptor2.output(0), adaptor1.input(1))
             Signal(adaptor2.output(1), delay2)
-            signal_out = Signal(adaptor1.output(0))
+            if np_coefficients[idx1]:
+                Signal(adaptor2.output(0), adaptor1.input(1))
+                signal_out = Signal(adaptor1.output(0))
+            else:
+                signal_out = Signal(adaptor2.output(0))
         else:
             delay2 = Delay(delay1, name=_tname(idx2))
             if np_coefficients[idx1]:
-- 
2.43.0


From 9dba8d0e97f54fda462e82df5a3ec62aa22d1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 28/56] fix: include the middle tap of symmetric FIR filters of
 odd length

---
 lib/b_asic/sfg_generators/digital_filters.py | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/sfg_generators/digital_filters.py b/lib/b_asic/sfg_generators/digital_filters.py
index 28fcc7c..e7feaa6 100644
--- a/lib/b_asic/sfg_generators/digital_filters.py
+++ b/lib/b_asic/sfg_generators/digital_filters.py
@@ -77,21 +77,18 @@ def fir(
             for i in range(taps // 2)
         ]
 
-        if taps == 1:
-            muls = [
-                ConstantMultiplication(coefficients[0], input_op, **mult_properties)
-            ]
-        else:
-            muls = [
-                ConstantMultiplication(
-                    coefficients[i], add_layer_1[i], **mult_properties
-                )
-                for i in range(taps // 2)
-            ]
+        if taps % 2:
+            # The middle tap has no counterpart
+            add_layer_1.append(delays[taps // 2])
+
+        muls = [
+            ConstantMultiplication(np_coefficients[i], operand, **mult_properties)
+            for i, operand in enumerate(add_layer_1)
+        ]
 
         previous_op = muls[0]
         add_layer_2 = []
-        for i in range(taps // 2 - 1):
+        for i in range(len(muls) - 1):
             add_layer_2.append(Addition(previous_op, muls[i + 1], **add_properties))
             previous_op = add_layer_2[-1]
 
-- 
2.43.0


From 474905e3684a32765698def39f8bb5c4b879e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 29/56] fix: lattice_coeffs_from_tf lost all real poles but one

---
 lib/b_asic/wdf/lattice.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/wdf/lattice.py b/lib/b_asic/wdf/lattice.py
index 2ac6552..a000bfa 100644
--- a/lib/b_asic/wdf/lattice.py
+++ b/lib/b_asic/wdf/lattice.py
@@ -28,25 +28,29 @@ def lattice_coeffs_from_tf(a: Sequence[float]) -> list[float]:
     np_a = np_a / np_a[0]
     poles = np.roots(np_a)
     real_poles = [p for p in poles if abs(p.imag) < 1e-10]
-    complex_pairs = [p for p in poles if p.imag > 1e-10]
+    odd = len(real_poles) % 2
+    # Poles of the second-order sections, complex conjugates or two real poles
+    pole_pairs = [(p, p.conjugate()) for p in poles if p.imag > 1e-10]
+    pole_pairs += zip(real_poles[odd::2], real_poles[odd + 1 :: 2], strict=True)
 
-    def _sec(pole):
-        if abs(pole.imag) < 1e-10:
+    def _sec(pole, other=None):
+        if other is None:
             return [float(pole.real)]
-        return [-(abs(pole) ** 2), 2.0 * pole.real / (1.0 + abs(pole) ** 2)]
+        product = (pole * other).real
+        return [float(-product), float((pole + other).real / (1.0 + product))]
 
     a_sections: list = []
     b_sections: list = []
-    if real_poles:
+    if odd:
         a_sections.append(_sec(real_poles[0]))
-        for i, p in enumerate(complex_pairs):
-            (b_sections if i % 2 == 0 else a_sections).append(_sec(p))
+        for i, pair in enumerate(pole_pairs):
+            (b_sections if i % 2 == 0 else a_sections).append(_sec(*pair))
     else:
-        for i, p in enumerate(complex_pairs):
-            (a_sections if i % 2 == 0 else b_sections).append(_sec(p))
+        for i, pair in enumerate(pole_pairs):
+            (a_sections if i % 2 == 0 else b_sections).append(_sec(*pair))
 
     coeffs: list = []
-    if real_poles:
+    if odd:
         coeffs.extend(a_sections[0])
         a_rest = a_sections[1:]
         for i in range(max(len(a_rest), len(b_sections))):
-- 
2.43.0


From 7272c0143b37f4b1803f074db232bef376245b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 30/56] fix: list every operation once in the topological order

---
 lib/b_asic/sfg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 961c1d8..c3a3568 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1351,7 +1351,7 @@ class SFG(AbstractOperation):
         # Negative priority as max-heap popping is wanted
         p_queue.put((-first_op.output_count, -next(p_queue_entry_num), first_op))
 
-        operations_left = len(self.operations) - 1
+        operations_left = len(self.operations)
 
         seen_but_not_visited_count = 0
 
@@ -1369,6 +1369,9 @@ class SFG(AbstractOperation):
                         remaining_inports = remaining_inports_per_operation[neighbor_op]
 
                         if remaining_inports == 0:
+                            if neighbor_op in seen:
+                                seen_with_inputs_dict[1].remove(neighbor_op)
+                                seen_but_not_visited_count -= 1
                             p_queue.put(
                                 (
                                     -neighbor_op.output_count,
-- 
2.43.0


From 74752c9789c6492c5e09017af20243ae2a25db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 31/56] fix: use the latency of each operation in the iteration
 period bound

---
 lib/b_asic/sfg.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index c3a3568..be5736f 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2275,23 +2275,35 @@ class SFG(AbstractOperation):
             return Fraction(-1)
 
         op_and_latency = {}
-        for op in self.operations:
+        # Operations without latency get that of another operation of the type
+        for op in sorted(
+            self.operations, key=lambda op: None in op.latency_offsets.values()
+        ):
             for loop in loops:
                 for _ in loop:
                     if op.type_name() not in op_and_latency:
                         op_and_latency[op.type_name()] = op.latency
         t_l_values = []
 
+        def offset(port: InputPort | OutputPort) -> int:
+            op = port.operation
+            if None not in op.latency_offsets.values():
+                return port.latency_offset
+            return op_and_latency[op.type_name()] * isinstance(port, OutputPort)
+
         for loop in loops:
-            loop.pop()
             time_of_loop = 0
             number_of_t_in_loop = 0
-            for element in loop:
-                if isinstance(self.find_by_id(element), Delay):
+            for element, next_element in itertools.pairwise(loop):
+                op = self.find_by_id(element)
+                if isinstance(op, Delay):
                     number_of_t_in_loop += 1
-                for key, item in op_and_latency.items():
-                    if key in element:
-                        time_of_loop += item
+                # The slowest connection to the next operation in the loop
+                time_of_loop += max(
+                    offset(signal.source) - offset(signal.destination)
+                    for signal in op.output_signals
+                    if signal.destination.operation.graph_id == next_element
+                )
             if number_of_t_in_loop in (0, 1):
                 t_l_values.append(Fraction(time_of_loop, 1))
             else:
-- 
2.43.0


From a2faf84c6f77673ab86b6eb63656d9f5720d2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 32/56] fix: find loops that cannot be reached from an input

---
 lib/b_asic/sfg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index be5736f..cc867be 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2319,11 +2319,9 @@ class SFG(AbstractOperation):
         -------
         A list of the recursive loops.
         """
-        if not self.input_count:
-            return []
         graph: nx.DiGraph = nx.DiGraph()
-        queue: deque[Operation] = deque(self._input_operations)
-        visited: set[Operation] = set(self._input_operations)
+        queue: deque[Operation] = deque(self.operations)
+        visited: set[Operation] = set(self.operations)
         while queue:
             op = queue.popleft()
             for output_port in op.outputs:
-- 
2.43.0


From f14615c7e4d56de320c8ff2dd3b33f926a52f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 33/56] fix: do not treat delay elements as constant

The output changes from the initial value, and following the source never
terminates for a loop.
---
 lib/b_asic/special_operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 9326776..2dabd9b 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -184,6 +184,7 @@ class Delay(AbstractOperation):
     """
 
     is_linear = True
+    is_constant = False
 
     def __init__(
         self,
-- 
2.43.0


From d05728de5d9655e480c737d7d0cf47940274db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 34/56] fix: compute impulse responses from rest and include
 states in nested SFGs

---
 lib/b_asic/sfg.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index cc867be..1bb4186 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2841,6 +2841,14 @@ class SFG(AbstractOperation):
             for key, responses in impulse_responses.items()
         }
 
+    def _delay_keys(self, prefix: str = "") -> Iterable[ResultKey]:
+        """Return the simulation keys of all delays, also in nested SFGs."""
+        for op in self.operations:
+            if isinstance(op, Delay):
+                yield ResultKey(prefix + op.graph_id)
+            elif isinstance(op, SFG):
+                yield from op._delay_keys(f"{prefix}{op.graph_id}.")
+
     def _get_impulse_responses_between_nodes(
         self,
         source_nodes: list[Operation],
@@ -2864,6 +2872,7 @@ class SFG(AbstractOperation):
                 for inp_op in self.input_operations
             ]
             sim = Simulation(self, impulse_inputs)
+            sim._delays.update((key, 0) for key in self._delay_keys())
             # If the source is a delay, initialize its state to 1
             if isinstance(source_op, Delay):
                 sim._delays[source_op.graph_id] = 1
@@ -2879,7 +2888,7 @@ class SFG(AbstractOperation):
                     all_decayed = all(
                         self._output_ports_decayed(op, sim, threshold)
                         for op in ops_to_check
-                    )
+                    ) and all(abs(v) <= threshold for v in sim._delays.values())
                     if all_decayed:
                         break
 
-- 
2.43.0


From 055042f0ad1b9d148d1ebdee5bad4ccbec3841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 35/56] fix: include delays in nested SFGs in the state-space
 representation

---
 lib/b_asic/state_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 605c897..67ebff5 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -84,6 +84,8 @@ class StateSpace:
                 "SFG must be linear to generate state-space representation"
             )
 
+        # Delays in nested SFGs are states as well
+        sfg = sfg.flatten()
         delays = list(sfg.find_by_type(Delay))
         inputs = list(sfg.input_operations)
         outputs = list(sfg.output_operations)
-- 
2.43.0


From a69f95ea34201486955de1111a9a8c58ff0c1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 36/56] fix: keep outputs apart in transfer functions without
 states

---
 lib/b_asic/state_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 67ebff5..0a49ff8 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -210,7 +210,7 @@ class StateSpace:
                 den = 1
 
             if (B_col.size == 0) and (self.C.size == 0):
-                num = np.ravel(D_col)
+                num = D_col
                 if (D_col.size == 0) and (self.A.size == 0):
                     den = []
             else:
-- 
2.43.0


From b05c79615d5e049f8b57e5ecb986ae5cf6058db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 37/56] fix: the zpk gain of filters starting with a delay or
 having complex gain

---
 lib/b_asic/transfer_function.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/transfer_function.py b/lib/b_asic/transfer_function.py
index 281eb9a..00a890b 100644
--- a/lib/b_asic/transfer_function.py
+++ b/lib/b_asic/transfer_function.py
@@ -150,16 +150,20 @@ class TransferFunction:
         for input_key, num in self.numerator.items():
             if num.ndim == 2:
                 zeros = [np.roots(num[k]) for k in range(num.shape[0])]
-                gains = [
-                    float(num[k, 0] / den0) if num.shape[1] > 0 else 0.0
-                    for k in range(num.shape[0])
-                ]
+                gains = [self._gain(num[k], den0) for k in range(num.shape[0])]
             else:
                 zeros = np.roots(num) if len(num) > 1 else np.array([], dtype=complex)
-                gains = float(num[0] / den0) if len(num) > 0 else 0.0
+                gains = self._gain(num, den0)
             result[input_key] = (zeros, poles, gains)
         return result
 
+    @staticmethod
+    def _gain(num: npt.NDArray, den0: complex) -> complex:
+        """Return the gain, given by the first coefficient that is not zero."""
+        nonzero = num[np.nonzero(num)]
+        gain = complex(nonzero[0] / den0) if len(nonzero) > 0 else 0.0
+        return gain if gain.imag else gain.real
+
     def __getitem__(self, key: str) -> tuple[npt.NDArray, npt.NDArray]:
         """
         Get the numerator and denominator for a specific input.
-- 
2.43.0


From 99cdd761d7acf4404c5a1ff756bf610f41e5a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 38/56] fix: the l2-norm of complex impulse responses

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 1bb4186..9fff0db 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2837,7 +2837,7 @@ class SFG(AbstractOperation):
             threshold=threshold, max_iters=max_iters, all_nodes=all_nodes
         )
         return {
-            key: float(np.sqrt(sum(np.sum(h**2) for h in responses)))
+            key: float(np.sqrt(sum(np.sum(np.abs(h) ** 2) for h in responses)))
             for key, responses in impulse_responses.items()
         }
 
-- 
2.43.0


From 9a63a59f38562c947064a82d315e5fb7fb0713ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 39/56] fix: laps and slacks of rotated schedules

---
 lib/b_asic/schedule.py | 141 +++++++++++++++++------------------------
 1 file changed, 59 insertions(+), 82 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 26f0e16..b8f974a 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1018,94 +1018,71 @@ class Schedule:
 
     def rotate_forward(self) -> "Schedule":
         """Rotate the schedule one cycle forward."""
-        if not self._cyclic:
-            raise ValueError("Cannot rotate non-cyclic schedule.")
-
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
-        return self
+        return self._rotate(1)
 
     def rotate_backward(self) -> "Schedule":
         """Rotate the schedule one cycle backward."""
+        return self._rotate(-1)
+
+    def _crosses_period(self, signal: Signal) -> int:
+        """Return 1 if the value of *signal* is available after the period, else 0."""
+        source = cast(OutputPort, signal.source)
+        available_time = self._start_times[source.operation.graph_id] + cast(
+            int, source.latency_offset
+        )
+        return int(available_time > self._schedule_time)
+
+    def _rotate(self, step: int) -> "Schedule":
+        """Move all operations *step* cycles, keeping the slack of all signals."""
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        ops = [cast(Operation, self._sfg.find_by_id(gid)) for gid in self._start_times]
+        signals = [signal for op in ops for signal in op.input_signals]
+        # Number of periods that each signal is delayed
+        delays = {s: self._laps[s.graph_id] + self._crosses_period(s) for s in signals}
+        # Number of periods that each operation is moved back to be in the schedule
+        periods = {
+            op: (self._start_times[op.graph_id] + step) // self._schedule_time
+            for op in ops
+        }
+
+        def new_start(op: Operation) -> int:
+            start_time = self._start_times[op.graph_id]
+            return start_time + step - periods[op] * self._schedule_time
+
+        def new_delay(signal: Signal) -> int:
+            source_op = cast(OutputPort, signal.source).operation
+            destination_op = cast(InputPort, signal.destination).operation
+            return delays[signal] + periods[destination_op] - periods[source_op]
+
+        # The last time of the schedule is the same as time zero one period later
+        updated = True
+        while updated:
+            updated = False
+            for signal in signals:
+                source_op = cast(OutputPort, signal.source).operation
+                if isinstance(source_op, DontCare) or new_delay(signal) >= 0:
+                    continue
+                if new_start(source_op) != 0:
+                    raise ValueError(
+                        f"Cannot rotate schedule, {source_op.graph_id} starts after its result is used."
+                    )
+                periods[source_op] -= 1
+                updated = True
+        for op in ops:
+            if isinstance(op, (Output, Sink)) and new_start(op) == 0:
+                if all(new_delay(signal) > 0 for signal in op.input_signals):
+                    periods[op] -= 1
+
+        new_start_times = {op.graph_id: new_start(op) for op in ops}
+        new_delays = {signal: new_delay(signal) for signal in signals}
+        self._start_times.update(new_start_times)
+        for signal, delay in new_delays.items():
+            laps = delay - self._crosses_period(signal)
+            if isinstance(cast(OutputPort, signal.source).operation, DontCare):
+                laps = max(laps, 0)
+            self._laps[signal.graph_id] = laps
         return self
 
     def _remove_delays_no_laps(self) -> None:
-- 
2.43.0


From a6c9a2be97099e35fa83ef554289df5c6d27dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 40/56] fix: changed latencies violating the schedule or
 changing its delays

---
 lib/b_asic/schedule.py | 61 +++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index b8f974a..9a06076 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -715,20 +715,14 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if type_name in (op.type_name(), op.graph_id):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if type_name in (op.type_name(), op.graph_id):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [
+                op
+                for op in self._sfg.operations
+                if type_name in (op.type_name(), op.graph_id)
+            ],
+            latency,
+        )
 
     def set_latency_of_type(
         self, operation_type: type[Operation], latency: int
@@ -743,20 +737,31 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if isinstance(op, operation_type):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if isinstance(op, operation_type):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [op for op in self._sfg.operations if isinstance(op, operation_type)],
+            latency,
+        )
+
+    def _set_latency(self, operations: Sequence[Operation], latency: int) -> None:
+        """Set the latency of *operations*, if the schedule allows it."""
+        old_latency_offsets = {op: op.latency_offsets for op in operations}
+        output_signals = [s for op in operations for s in op.output_signals]
+        old_laps = {s: self._laps[s.graph_id] for s in output_signals}
+        delays = {s: old_laps[s] + self._crosses_period(s) for s in output_signals}
+        for op in operations:
+            op.set_latency(latency)
+        # Keep the delay of each signal when the result is moved past the period
+        for signal, delay in delays.items():
+            self._laps[signal.graph_id] = delay - self._crosses_period(signal)
+        for op in operations:
+            if min(self.slacks(op.graph_id)) < 0:
+                for operation, latency_offsets in old_latency_offsets.items():
+                    operation.set_latency_offsets(latency_offsets)
+                for signal, laps in old_laps.items():
+                    self._laps[signal.graph_id] = laps
+                raise ValueError(
+                    f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
+                )
 
     def move_y_location(
         self, graph_id: GraphID, new_y: int, insert: bool = False
-- 
2.43.0


From b80bd296b7de41ea7e6f2813e595eca0d5b8328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 41/56] fix: refuse time resolution factors that are not
 positive

---
 lib/b_asic/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9a06076..6b32bde 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -603,6 +603,8 @@ class Schedule:
         factor : int
             The time resolution increment.
         """
+        if factor < 1:
+            raise ValueError(f"Time resolution factor must be positive, got {factor}.")
         self._start_times = {k: factor * v for k, v in self._start_times.items()}
         for graph_id in self._start_times:
             op = cast(Operation, self._sfg.find_by_id(graph_id))
-- 
2.43.0


From 079bc69a7598c2992ebcce277a26730c116b5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 42/56] fix: count executions continuing after the schedule end

---
 lib/b_asic/schedule.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 6b32bde..aaff4ff 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1667,10 +1667,14 @@ class Schedule:
             if self._schedule_time is not None:
                 start_time %= self._schedule_time
             op = cast(Operation, self._sfg.find_by_id(other_op_id))
-            if (
-                time >= start_time
-                and time < start_time + cast(int, op.execution_time)
-                and isinstance(op, op_type)
-            ):
-                count += 1
+            if not isinstance(op, op_type):
+                continue
+            if self._schedule_time is None:
+                count += 0 <= time - start_time < cast(int, op.execution_time)
+            else:
+                # executions not finished in the schedule continue at its start
+                remaining_time = cast(int, op.execution_time) - (
+                    (time - start_time) % self._schedule_time
+                )
+                count += max(0, -(-remaining_time // self._schedule_time))
         return count
-- 
2.43.0


From 6d888ca394ab59fa0efa50cf1c78672c38270e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 43/56] fix: laps of operations placed before or after delays
 by list schedulers

---
 lib/b_asic/schedule.py  | 63 ++++++++++++++++++++++++++++++-----------
 lib/b_asic/scheduler.py | 15 ++++++++--
 2 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index aaff4ff..d837bf4 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -860,29 +860,27 @@ class Schedule:
         if not self.schedule_time:
             return
 
+        op_laps[op.graph_id] = time // self._schedule_time
+
         # update input laps
         for input_port in op.inputs:
-            laps = 0
-            if self._schedule_time is not None:
-                current_lap = time // self._schedule_time
-                source_port = cast(OutputPort, input_port.signals[0].source)
-                source_op = source_port.operation
-
-                if not isinstance(source_op, (Delay, DontCare)):
-                    if op_laps[source_op.graph_id] < current_lap:
-                        laps += current_lap - op_laps[source_op.graph_id]
-                    source_available_time = (
-                        self._start_times[source_op.graph_id]
-                        + source_op.latency_offsets[f"out{source_port.index}"]
-                    )
-                    if source_available_time > self.schedule_time:
-                        laps -= 1
-            self._laps[input_port.signals[0].graph_id] = laps
+            self._update_laps(input_port, op_laps)
+
+        # update laps of operations already placed using the result through delays
+        output_signals = list(op.output_signals)
+        while output_signals:
+            delay_op = cast(InputPort, output_signals.pop().destination).operation
+            if isinstance(delay_op, Delay):
+                for signal in delay_op.output_signals:
+                    destination = cast(InputPort, signal.destination)
+                    output_signals.append(signal)
+                    if destination.operation.graph_id in self._start_times:
+                        self._update_laps(destination, op_laps)
 
         if (
             start == 0
             and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
+            and self._laps[op.input(0).signals[0].graph_id] > 0
         ):
             start = self._schedule_time
             self._laps[op.input(0).signals[0].graph_id] -= 1
@@ -902,6 +900,37 @@ class Schedule:
 
         self._start_times[op.graph_id] = start
 
+    def _update_laps(self, input_port: InputPort, op_laps: dict[GraphID, int]) -> None:
+        """
+        Update the laps of the signal to *input_port* when its operation is placed.
+
+        Parameters
+        ----------
+        input_port : InputPort
+            Input port of a scheduled operation.
+        op_laps : dict[GraphID, int]
+            Laps of all scheduled operations.
+        """
+        laps = 0
+        source_port = cast(OutputPort, input_port.signals[0].source)
+        # the delays themselves are added to the laps when they are removed
+        while isinstance(source_port.operation, Delay):
+            delay_input = source_port.operation.input(0)
+            source_port = cast(OutputPort, delay_input.signals[0].source)
+        source_op = source_port.operation
+        if (
+            not isinstance(source_op, DontCare)
+            and source_op.graph_id in self._start_times
+        ):
+            laps = op_laps[input_port.operation.graph_id] - op_laps[source_op.graph_id]
+            source_available_time = (
+                self._start_times[source_op.graph_id]
+                + source_op.latency_offsets[f"out{source_port.index}"]
+            )
+            if source_available_time > self._schedule_time:
+                laps -= 1
+        self._laps[input_port.signals[0].graph_id] = laps
+
     def move_operation(self, graph_id: GraphID, time: int) -> "Schedule":
         """
         Move an operation in the schedule.
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 9050bd2..eb700d7 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -793,11 +793,18 @@ class ListScheduler(Scheduler):
         for op_input in op.inputs:
             source_port = cast(OutputPort, op_input.signals[0].source)
             source_op = source_port.operation
+            delays = 0
+            while isinstance(source_op, Delay):
+                source_port = cast(OutputPort, source_op.input(0).signals[0].source)
+                source_op = source_port.operation
+                delays += 1
 
-            if isinstance(source_op, (Delay, DontCare)):
+            if isinstance(source_op, DontCare):
                 continue
 
-            if source_op.graph_id in self._remaining_ops_set:
+            if source_op.graph_id not in self._schedule.start_times:
+                if delays:
+                    continue
                 return False
 
             available_time = (
@@ -806,6 +813,10 @@ class ListScheduler(Scheduler):
                 + cast(int, source_port.latency_offset)
             )
 
+            # without schedule time, the delays are long enough
+            if delays and not schedule_time:
+                continue
+            available_time -= delays * schedule_time
             required_time = self._current_time + cast(int, op_input.latency_offset)
             if available_time > required_time:
                 return False
-- 
2.43.0


From 0c014664c4be2b7c6faab3a41fcfa48e78659cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 44/56] fix: scheduling of graphs with sinks

---
 lib/b_asic/schedule.py  |  2 ++
 lib/b_asic/scheduler.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index d837bf4..22f9f72 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -327,6 +327,8 @@ class Schedule:
             available_time -= self._schedule_time
         for signal in output_port.signals:
             destination = cast(InputPort, signal.destination)
+            if destination.operation.graph_id not in self._start_times:
+                continue  # not scheduled yet
             usage_time = (
                 cast(int, destination.latency_offset)
                 + self._start_times[destination.operation.graph_id]
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index eb700d7..f6b0791 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -426,6 +426,10 @@ class ALAPScheduler(Scheduler):
                 continue
             schedule.move_operation_alap(output.graph_id)
 
+        # the sinks are placed once the operations are, and must not hold them back
+        for sink in schedule.sfg.find_by_type(Sink):
+            schedule.move_operation_alap(cast(Sink, sink).graph_id)
+
         # move all operations ALAP
         for step in reversed(schedule.sfg.get_precedence_list()):
             for outport in step:
@@ -670,13 +674,14 @@ class ListScheduler(Scheduler):
         for op_id, start_time in self._alap_start_times.items():
             op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
             output_offsets = [cast(int, output.latency_offset) for output in op.outputs]
-            start_time += self._alap_op_laps[op_id] * self._alap_schedule_time
+            start_time += self._alap_op_laps.get(op_id, 0) * self._alap_schedule_time
             deadlines[op_id] = start_time + min(output_offsets, default=0)
         return deadlines
 
     def _calculate_alap_output_slacks(self) -> dict["GraphID", int]:
         return {
-            op_id: start_time + self._alap_op_laps[op_id] * self._alap_schedule_time
+            op_id: start_time
+            + self._alap_op_laps.get(op_id, 0) * self._alap_schedule_time
             for op_id, start_time in self._alap_start_times.items()
         }
 
@@ -930,7 +935,9 @@ class ListScheduler(Scheduler):
         self._remaining_ops = [
             op_id
             for op_id in self._remaining_ops
-            if not isinstance(self._schedule._sfg.find_by_id(op_id), (Delay, DontCare))
+            if not isinstance(
+                self._schedule._sfg.find_by_id(op_id), (Delay, DontCare, Sink)
+            )
         ]
         self._remaining_ops = [
             op_id
-- 
2.43.0


From 2848853896b8570c10248d1b64032622166bd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 45/56] fix: delays of loops and given times in recursive list
 scheduling

---
 lib/b_asic/scheduler.py | 75 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index f6b0791..0431880 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1113,8 +1113,14 @@ class RecursiveListScheduler(ListScheduler):
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
+        delays = {
+            input_port.signals[0].graph_id: self._number_of_delays(input_port)
+            for op_id in self._schedule.start_times
+            for input_port in self._schedule._sfg.find_by_id(op_id).inputs
+        }
         self._schedule.remove_delays()
         if loops:
+            self._align_laps(delays)
             if int(period_bound) != period_bound:
                 log.warning("Rational iteration period bound: %d", period_bound)
             log.debug("Retiming operations")
@@ -1125,6 +1131,54 @@ class RecursiveListScheduler(ListScheduler):
         self._validate_constraints()
         log.debug("Scheduling completed")
 
+    def _number_of_delays(self, input_port: InputPort) -> int:
+        """Return the number of delays before *input_port*."""
+        delays = 0
+        source_op = cast(OutputPort, input_port.signals[0].source).operation
+        while isinstance(source_op, Delay):
+            source_op = cast(OutputPort, source_op.input(0).signals[0].source).operation
+            delays += 1
+        return delays
+
+    def _align_laps(self, delays: dict["GraphID", int]) -> None:
+        """Delay operations by whole periods such that all paths to them are aligned."""
+        schedule = self._schedule
+        op_laps = {
+            op_id: self._op_laps.get(op_id, 0) - start_time // schedule._schedule_time
+            for op_id, start_time in schedule.start_times.items()
+        }
+        signals = [
+            signal
+            for op_id in op_laps
+            for signal in cast(Operation, schedule._sfg.find_by_id(op_id)).input_signals
+            if cast(OutputPort, signal.source).operation.graph_id in op_laps
+        ]
+
+        def lap_change(signal: "Signal") -> int:
+            source_id = cast(OutputPort, signal.source).operation.graph_id
+            destination_id = cast(InputPort, signal.destination).operation.graph_id
+            return op_laps[destination_id] - op_laps[source_id]
+
+        # Extra periods of delay required for each signal
+        required = {
+            s: schedule.laps[s.graph_id]
+            + schedule._crosses_period(s)
+            - delays[s.graph_id]
+            for s in signals
+        }
+        for _ in range(len(op_laps) + 1):
+            late_signals = [s for s in signals if lap_change(s) < required[s]]
+            if not late_signals:
+                break
+            for s in late_signals:
+                destination_id = cast(InputPort, s.destination).operation.graph_id
+                op_laps[destination_id] += max(0, required[s] - lap_change(s))
+        else:
+            raise ValueError("The recursive operations could not be scheduled.")
+
+        for s in signals:
+            schedule.laps[s.graph_id] += lap_change(s) - required[s]
+
     def _get_recursive_ops(self, loops: list[list["GraphID"]]) -> list["GraphID"]:
         recursive_ops = []
         for loop in loops:
@@ -1158,7 +1212,21 @@ class RecursiveListScheduler(ListScheduler):
         ]
         return [(op_id, self._deadlines[op_id]) for op_id in ready_ops]
 
+    def _given_times_wrap(self) -> bool:
+        """Return whether the given times hold only for the current schedule time."""
+        start_times = self._schedule.start_times
+        output_times = {
+            start_times[op_id] - time
+            for op_id, time in self._output_delta_times.items()
+        }
+        return len(output_times) > 1 or any(
+            start_times[op_id] != time for op_id, time in self._input_times.items()
+        )
+
     def _retime_ops(self, period_bound: int) -> None:
+        if self._given_times_wrap():
+            return
+
         # calculate the time goal
         time_goal = period_bound
         for type_name, amount_of_resource in self._max_resources.items():
@@ -1185,7 +1253,10 @@ class RecursiveListScheduler(ListScheduler):
             # move all operations forward to the next valid step and check if period can be reduced
             for op_id in sorted_op_ids:
                 op = self._schedule._sfg.find_by_id(op_id)
-                if self._schedule.forward_slack(op_id):
+                given_time = op_id in self._input_times or (
+                    op_id in self._output_delta_times
+                )
+                if self._schedule.forward_slack(op_id) and not given_time:
                     delta = 1
                     delta_start_time = self._schedule._start_times[op_id] + delta
                     new_times = (
@@ -1226,6 +1297,8 @@ class RecursiveListScheduler(ListScheduler):
 
                 # adjust time if a gap exists on the left side of the schedule
                 slack = min(self._schedule._start_times.values())
+                if self._input_times:
+                    slack = 0  # the inputs must not be moved
                 for other_op_id in sorted_op_ids:
                     op = cast(Operation, self._schedule._sfg.find_by_id(other_op_id))
                     max_end_time = 0
-- 
2.43.0


From aa10739d6a9480c939b9eff9baa132b57a2119d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 46/56] fix: laps of results available after the end of ILP
 schedules

---
 lib/b_asic/scheduler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0431880..033145a 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1619,11 +1619,21 @@ class ILPScheduler(Scheduler):
                     schedule.start_times[op.graph_id] = time
                     break
 
-        self._handle_utility_operations()
         schedule.remove_delays()
 
         if self._max_time is not None and self._max_time > Ts:
             schedule._schedule_time = self._max_time
+        # results available after the schedule end are delayed without laps
+        for op in schedule._sfg.operations:
+            for signal in op.input_signals:
+                if (
+                    schedule._start_times.get(signal.source.operation.graph_id)
+                    is not None
+                ):
+                    schedule.laps[signal.graph_id] -= schedule._crosses_period(signal)
+        self._handle_utility_operations()
+
+        if self._max_time is not None and self._max_time > Ts:
             diff = self._max_time - Ts
             # Move operations ahead in time so that they wrap
             for time in reversed(range(Ts, self._max_time + 1)):
-- 
2.43.0


From 7507bce9afb8a000d3a47441622da185b3059dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 47/56] fix: requested output times before the start of ALAP
 schedules

---
 lib/b_asic/scheduler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 033145a..1753242 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -234,6 +234,11 @@ class Scheduler(ABC):
             min_slack = min(
                 self._schedule.backward_slack(op.graph_id) for op in all_outputs
             )
+            if not self._schedule._cyclic or self._schedule._schedule_time is None:
+                min_slack = min(
+                    min_slack,
+                    *(self._schedule.start_times[op.graph_id] for op in all_outputs),
+                )
             if min_slack > 0:
                 # Move all outputs back by the minimum slack to reduce latency
                 for output in all_outputs:
@@ -441,7 +446,7 @@ class ALAPScheduler(Scheduler):
                     schedule.move_operation_alap(op.graph_id)
                     self._op_laps[op.graph_id] = (
                         new_unwrapped_start_time - schedule.start_times[op.graph_id]
-                    ) // schedule._schedule_time
+                    ) // (schedule._schedule_time or 1)
 
         log.debug("ALAP scheduling completed")
         # adjust the scheduling time if empty time slots have appeared in the start
-- 
2.43.0


From d8967d45486f780c11b414d73a818f5ec78697db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 48/56] fix: infeasible integer programs of resource assignment
 taken as solved

---
 lib/b_asic/resource_assigner.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 29251d2..638df08 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -1087,6 +1087,9 @@ def _solve_ilp_problem(
     finally:
         _restore_interrupted_recovery(problem, solver, recovery_state)
 
+    if not interrupted and status not in (LpStatusOptimal, LpStatusNotSolved):
+        raise ValueError("Solution could not be found via ILP, use another method.")
+
     if _has_feasible_solution(problem):
         if interrupted or status == LpStatusNotSolved:
             log.warning("Using best feasible ILP solution found before solver stopped.")
@@ -1097,9 +1100,6 @@ def _solve_ilp_problem(
             "No feasible ILP solution was found before the solver stopped."
         )
 
-    if status not in (LpStatusOptimal, LpStatusNotSolved):
-        raise ValueError("Solution could not be found via ILP, use another method.")
-
     raise ValueError("No feasible ILP solution was found before the solver stopped.")
 
 
@@ -1216,8 +1216,5 @@ def _recover_cmd_solution_file(
 
 
 def _has_feasible_solution(problem: LpProblem) -> bool:
-    if value(problem.objective) is not None:
-        return True
-
-    variables = problem.variables()
-    return bool(variables) and all(var.varValue is not None for var in variables)
+    # A stopped solver may leave values that break constraints or are not integers.
+    return problem.valid(1e-4)
-- 
2.43.0


From 9b84f060af1af556157a2f34d807bf5db38b0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 49/56] fix: resource assignment dropped processes beyond
 limits, ignored shared ports, and failed for sinks, don't cares or no stored
 values

---
 lib/b_asic/architecture.py      | 19 ++++++++++-------
 lib/b_asic/resource_assigner.py | 36 ++++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 8d92e4d..0bf32d5 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -47,7 +47,7 @@ from b_asic.resources import (
     _sanitize_port_option,
 )
 from b_asic.special_operations import Input, Output
-from b_asic.utility_operations import DontCare
+from b_asic.utility_operations import DontCare, Sink
 
 
 def _interconnect_dict() -> int:
@@ -55,6 +55,11 @@ def _interconnect_dict() -> int:
     return 0
 
 
+def _is_operand(port: object) -> bool:
+    """Whether *port* is an input of an operation (not a relay nor a sink)."""
+    return isinstance(port, InputPort) and not isinstance(port.operation, Sink)
+
+
 def _signed_bit_length(num: int) -> int:
     magnitude = num if num >= 0 else ~num
     return magnitude.bit_length() + 1
@@ -1090,7 +1095,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
         for memory in self.memories:
             for mv in memory:
                 for read_port in mv.read_ports:
-                    if isinstance(read_port, InputPort):  # skip MemoryInputPort relays
+                    if _is_operand(read_port):
                         self._variable_input_port_to_resource[read_port].add(
                             (memory, 0)
                         )
@@ -1104,7 +1109,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
                 if isinstance(di.write_port.operation, DontCare):
                     continue
                 for read_port in di.read_ports:
-                    if not isinstance(read_port, InputPort):
+                    if not _is_operand(read_port):
                         continue
                     self._variable_input_port_to_resource[read_port].add(
                         (
@@ -1132,21 +1137,21 @@ of :class:`~b_asic.architecture.ProcessingElement`
                 ):
                     memory_write_ports.add(mv.write_port)
                 memory_read_ports.update(
-                    rp for rp in mv.read_ports if isinstance(rp, InputPort)
+                    rp for rp in mv.read_ports if _is_operand(rp)
                 )
         if self._direct_interconnects:
             for mv in self._direct_interconnects:
                 mv = cast(MemoryVariable, mv)
                 if isinstance(mv.write_port, MemoryOutputPort):
                     memory_read_ports.update(
-                        rp for rp in mv.read_ports if isinstance(rp, InputPort)
+                        rp for rp in mv.read_ports if _is_operand(rp)
                     )
                     continue
                 if isinstance(mv.write_port.operation, DontCare):
                     continue
                 memory_write_ports.add(mv.write_port)
                 memory_read_ports.update(
-                    rp for rp in mv.read_ports if isinstance(rp, InputPort)
+                    rp for rp in mv.read_ports if _is_operand(rp)
                 )
 
         pe_input_ports: set[InputPort] = set()
@@ -1283,7 +1288,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
             else:
                 d_in[self._operation_outport_to_resource[var.write_port]] += 1
             for read_port in var.read_ports:
-                if isinstance(read_port, InputPort):
+                if _is_operand(read_port):
                     d_out[self._operation_input_port_to_resource[read_port]] += 1
         return dict(d_in), dict(d_out)
 
diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 638df08..ed70a81 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -33,7 +33,7 @@ from b_asic.process import MemoryOutputPort, MemoryVariable, Process
 from b_asic.resources import ProcessCollection
 from b_asic.schedule import Schedule
 from b_asic.types import TypeName
-from b_asic.utility_operations import DontCare
+from b_asic.utility_operations import DontCare, Sink
 
 log = b_asic.logger.getLogger()
 
@@ -130,6 +130,10 @@ def assign_processing_elements_and_memories(
 
     op_groups = operations.split_on_type_name()
     direct, mem_vars = memory_variables.split_on_length()
+    # Don't care values are never stored
+    for mem_var in list(mem_vars):
+        if isinstance(cast(MemoryVariable, mem_var).write_port.operation, DontCare):
+            mem_vars.remove_process(mem_var)
 
     operations_set, memory_variable_set = _split_operations_and_variables(
         op_groups,
@@ -252,6 +256,7 @@ def _split_operations_and_variables(
             solver,
             pe_greedy_colorings,
             mem_greedy_coloring,
+            memory_total_ports,
         )
     elif strategy == "greedy_graph_color":
         pe_x = {}
@@ -260,6 +265,9 @@ def _split_operations_and_variables(
             coloring = nx.coloring.greedy_color(
                 pe_ex_graph, strategy="saturation_largest_first"
             )
+            _check_limit(
+                op_type_name, len(set(coloring.values())), max_pes[op_type_name]
+            )
             pe_x[op_type_name] = {
                 node: {
                     color: 1 if color == node_color else 0
@@ -270,6 +278,7 @@ def _split_operations_and_variables(
         mem_coloring = nx.coloring.greedy_color(
             mem_exclusion_graph, strategy="saturation_largest_first"
         )
+        _check_limit("memories", len(set(mem_coloring.values())), max_mems)
         mem_x = {
             node: {color: 1 if color == node_color else 0 for color in range(max_mems)}
             for node, node_color in mem_coloring.items()
@@ -312,6 +321,11 @@ def _split_operations_and_variables(
     return pe_process_collections, mem_process_collections
 
 
+def _check_limit(kind: str, required: int, limit: int) -> None:
+    if required > limit:
+        raise ValueError(f"{required} {kind} required but only {limit} allowed.")
+
+
 def _ilp_coloring(
     op_groups: dict[TypeName, ProcessCollection],
     mem_exclusion_graph: nx.Graph | None,
@@ -358,7 +372,8 @@ def _ilp_coloring(
     for node in mem_graph_nodes:
         for color in range(max_mems):
             problem += mem_x[node][color] <= mem_c[color]
-    max_clique = next(nx.find_cliques(mem_exclusion_graph))
+    max_clique = next(nx.find_cliques(mem_exclusion_graph), [])
+    _check_limit("memories", len(max_clique), max_mems)
     for color, node in enumerate(max_clique):
         problem += mem_x[node][color] == mem_c[color] == 1
     for color in range(max_mems):
@@ -369,6 +384,7 @@ def _ilp_coloring(
     for op_type_name, pe_exclusion_graph in pe_exclusion_graphs.items():
         nodes = list(pe_exclusion_graph.nodes())
         edges = list(pe_exclusion_graph.edges())
+        _check_limit(op_type_name, 2 if edges else 1, max_pes[op_type_name])
         for node in nodes:
             problem += (
                 lpSum(
@@ -386,6 +402,7 @@ def _ilp_coloring(
             for color in range(max_pes[op_type_name]):
                 problem += pe_x[op_type_name][node][color] <= pe_c[op_type_name][color]
         max_clique = next(nx.find_cliques(pe_exclusion_graph))
+        _check_limit(op_type_name, len(max_clique), max_pes[op_type_name])
         for color, node in enumerate(max_clique):
             problem += (
                 pe_x[op_type_name][node][color] == pe_c[op_type_name][color] == 1
@@ -461,6 +478,7 @@ def _ilp_min_mux(
     solver: LpSolver | None = None,
     pe_warm_start: dict[TypeName, dict] | None = None,
     mem_warm_start: dict | None = None,
+    memory_total_ports: int | None = None,
 ) -> tuple[dict, dict]:
     pe_in_cnt = {
         op_type_name: op.input_count
@@ -591,6 +609,8 @@ def _ilp_min_mux(
                 continue
             if isinstance(source_port.operation, DontCare):
                 continue
+            if isinstance(dest_port.operation, Sink):
+                continue
             src_op_type, src_proc = op_info[source_port.operation]
             dst_op_type, dst_proc = op_info[dest_port.operation]
             log.debug(
@@ -737,7 +757,10 @@ def _ilp_min_mux(
     # Loop over the schedule and add constraints
     for t in range(Ts):
         # At most one read/write per memory per time slot
-        for vars_at_t in (mem_writes_in_time[t], mem_reads_in_time[t]):
+        accesses_at_t = [mem_writes_in_time[t], mem_reads_in_time[t]]
+        if memory_total_ports == 1:
+            accesses_at_t = [mem_writes_in_time[t] + mem_reads_in_time[t]]
+        for vars_at_t in accesses_at_t:
             if len(vars_at_t) > 1:
                 for mem_idx in range(max_mems):
                     problem += lpSum(mem_x[var][mem_idx] for var in vars_at_t) <= 1
@@ -759,6 +782,7 @@ def _ilp_min_mux(
     busiest_mem_t = max(
         all_mem_times,
         key=lambda t: max(len(mem_writes_in_time[t]), len(mem_reads_in_time[t])),
+        default=0,
     )
     busiest_mem_vars = (
         mem_reads_in_time[busiest_mem_t]
@@ -766,6 +790,7 @@ def _ilp_min_mux(
         > len(mem_writes_in_time[busiest_mem_t])
         else mem_writes_in_time[busiest_mem_t]
     )
+    _check_limit("memories", len(busiest_mem_vars), max_mems)
     for mem_idx, var in enumerate(busiest_mem_vars):
         # problem += mem_x[var][mem_idx] == mem_c[mem_idx] == 1
         mem_x[var][mem_idx].setInitialValue(1)
@@ -782,6 +807,11 @@ def _ilp_min_mux(
             procs_in_time[op_type_name],
             key=lambda t: len(procs_in_time[op_type_name][t]),
         )
+        _check_limit(
+            op_type_name,
+            len(procs_in_time[op_type_name][busiest_pe_t]),
+            max_pes[op_type_name],
+        )
         if max_pes[op_type_name] > 1:
             for pe_idx, proc in enumerate(procs_in_time[op_type_name][busiest_pe_t]):
                 # problem += pe_x[op_type_name][proc][pe_idx] == pe_c[op_type_name][pe_idx] == 1
-- 
2.43.0


From dd2b68105bbd7c254352e7c076d454aecf3ac0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 50/56] fix: architectures of a single resource or an iterator
 of resources; failing moves left processes in two resources

---
 lib/b_asic/architecture.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 0bf32d5..a52ab7e 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -495,7 +495,12 @@ class Resource(HardwareBlock, ABC):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
         self.collection.add_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except ValueError:
+                # Leave the processes as they were
+                self.remove_process(proc)
+                raise
         else:
             self._assignment = None
 
@@ -1030,19 +1035,19 @@ of :class:`~b_asic.architecture.ProcessingElement`
     ) -> None:
         super().__init__(entity_name)
 
-        pe_names = [pe._entity_name for pe in processing_elements]
-        if len(pe_names) != len(set(pe_names)):
-            raise ValueError("Entity names of processing elements needs to be unique.")
         self._processing_elements = (
             [processing_elements]
             if isinstance(processing_elements, ProcessingElement)
             else list(processing_elements)
         )
+        pe_names = [pe._entity_name for pe in self._processing_elements]
+        if len(pe_names) != len(set(pe_names)):
+            raise ValueError("Entity names of processing elements needs to be unique.")
 
-        mem_names = [mem._entity_name for mem in memories]
+        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
+        mem_names = [mem._entity_name for mem in self._memories]
         if len(mem_names) != len(set(mem_names)):
             raise ValueError("Entity names of memories needs to be unique.")
-        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
 
         self._direct_interconnects = direct_interconnects
 
-- 
2.43.0


From 7c6a73ddf6e8836ce96d156086f1f48a739b313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 51/56] fix: architectures with an operation or operand in more
 than one resource were accepted

---
 lib/b_asic/architecture.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index a52ab7e..872defb 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1175,6 +1175,16 @@ of :class:`~b_asic.architecture.ProcessingElement`
                     if output_port.signals:
                         pe_output_ports.add(output_port)
 
+        # Make sure that no operation or operand is in several resources
+        operations = [op for pe in self.processing_elements for op in pe.processes]
+        if len(operations) != len({process.operation for process in operations}):
+            raise ValueError("Operations in more than one processing element")
+        variables = [mv for memory in self.memories for mv in memory]
+        variables.extend(self._direct_interconnects or ())
+        read_ports = [rp for mv in variables for rp in mv.read_ports]
+        if len(read_ports) != len(set(read_ports)):
+            raise ValueError("Memory variables read from more than one resource")
+
         # Make sure all inputs and outputs in the architecture are in use
         read_port_diff = memory_read_ports.symmetric_difference(pe_input_ports)
         write_port_diff = memory_write_ports.symmetric_difference(pe_output_ports)
-- 
2.43.0


From 870fdc4f6bc64956669abbb75411702a951aa8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 52/56] fix: variables read from a memory and directly at the
 same time were taken from the wrong one

---
 lib/b_asic/code_printer/vhdl/top_level.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 656aa62..21acce9 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -138,20 +138,7 @@ def _collect_mux_info(arch: "Architecture") -> tuple[list[tuple], list[tuple]]:
                 input_latency = op_input_port.latency_offset or 0
                 for mem in arch.memories:
                     for var in mem.collection:
-                        read_times = [
-                            time % arch.schedule_time for time in var.read_times
-                        ]
-                        if (
-                            process.start_time + input_latency
-                        ) % arch.schedule_time not in read_times:
-                            continue
-                        root_port = var.root_write_port
-                        var_op_id = root_port.operation.graph_id
-                        var_port_index = root_port.index
-                        if (
-                            var_op_id == source_op.graph_id
-                            and var_port_index == source_port.index
-                        ):
+                        if op_input_port in var.reads:
                             source_resource = mem
                             is_found = True
                             source_port_index = 0
-- 
2.43.0


From 635d1abe9b35124a894303e941b0af2f8062624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 53/56] fix: coefficients of symmetric two-port adaptors were
 applied a cycle off for several input registers

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..4cba8db 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1179,7 +1179,9 @@ class VhdlPrinter(Printer):
             self._register_split = (n_in - n_consumed, n_out)
 
         if pipeline_after_sub:
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault("value", 2)
+            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
+                "value", n_in - n_consumed + 1
+            )
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From b1e23b7958b354051d8bb16c2d77a2281dbab99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 54/56] fix: stored values were lost when the clock enable was
 low, and when read while another one was written

---
 .../code_printer/vhdl/memory_storage.py       | 31 +++++++++++++------
 .../code_printer/vhdl/register_storage.py     | 24 +++++++-------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index da5c36c..4d08ea6 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -271,18 +271,31 @@ def architecture(
         all_procs = [p for pc in memory.assignment for p in pc]
         output_cases: dict[int, str] = {}
         # forward_ctrl ROM
+        control_latency = 1 if pipeline_control_signals else 0
         for p in all_procs:
-            if pipeline_control_signals:
-                write_time = (p.start_time - 1) % schedule_time
+            # Read from the memory unless the value arrives in the same cycle
+            for read_time in p.read_times:
+                time = (read_time - 1 - control_latency) % schedule_time
+                output_cases[time] = "'0'"
+        for p in all_procs:
+            write_time = (p.start_time - control_latency) % schedule_time
+            if 1 in p.reads.values():
+                output_cases[write_time] = "'1'"
             else:
-                write_time = p.start_time % schedule_time
-            output_cases[write_time] = f"'{int(1 in p.reads.values())}'"
+                output_cases.setdefault(write_time, "'0'")
         common.synchronous_process_prologue(f, name="output_reg_proc")
-        common.write(f, 3, "if forward_ctrl = '1' then")
-        common.write(f, 4, "p_0_out_internal <= p_0_in_internal;")
-        common.write(f, 3, "else")
-        common.write(f, 4, "p_0_out_internal <= read_port_0;")
-        common.write(f, 3, "end if;")
+        common.write_lines(
+            f,
+            [
+                (3, "if en = '1' then"),
+                (4, "if forward_ctrl = '1' then"),
+                (5, "p_0_out_internal <= p_0_in_internal;"),
+                (4, "else"),
+                (5, "p_0_out_internal <= read_port_0;"),
+                (4, "end if;"),
+                (3, "end if;"),
+            ],
+        )
         common.synchronous_process_epilogue(
             f,
             clk="clk",
diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index ecb75ae..903c247 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -221,37 +221,37 @@ def architecture(
         common.write(f, 3, "if rst = '1' then")
         for reg_idx in range(reg_cnt):
             common.write(f, 4, f"shift_reg({reg_idx}) <= (others => '0');")
-        common.write(f, 3, "else")
+        common.write(f, 3, "elsif en = '1' then")
+    else:
+        common.write(f, 3, "if en = '1' then")
 
     common.write_lines(
         f,
         [
-            (3, "-- Default case"),
-            (3, "shift_reg(0) <= p_0_in;"),
+            (4, "-- Default case"),
+            (4, "shift_reg(0) <= p_0_in;"),
         ],
     )
     for reg_idx in range(1, reg_cnt):
-        common.write(f, 3, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
-    common.write(f, 3, "case back_edge_mux_sel is")
+        common.write(f, 4, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
+    common.write(f, 4, "case back_edge_mux_sel is")
     for edge, mux_sel in back_edge_table.items():
         common.write_lines(
             f,
             [
-                (4, f"when {mux_sel} =>"),
-                (5, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
+                (5, f"when {mux_sel} =>"),
+                (6, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
             ],
         )
     common.write_lines(
         f,
         [
-            (4, "when others => null;"),
-            (3, "end case;"),
+            (5, "when others => null;"),
+            (4, "end case;"),
+            (3, "end if;"),
         ],
     )
 
-    if sync_rst:
-        common.write(f, 3, "end if;")
-
     common.synchronous_process_epilogue(
         f,
         clk="clk",
-- 
2.43.0


From 22ffd3daec7a42448d367097cd34575059c37340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 55/56] fix: writes wrapping around the schedule time were not
 counted in list scheduling

---
 lib/b_asic/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 1753242..c58b973 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -755,6 +755,11 @@ class ListScheduler(Scheduler):
                             for output in tmp_op.outputs
                         ]
                         write_times = [start_time + offset for offset in offsets]
+                        if self._schedule._schedule_time:
+                            write_times = [
+                                time % self._schedule._schedule_time
+                                for time in write_times
+                            ]
                         writes_in_time += write_times.count(output_ready_time)
 
                     tmp_used_writes[output_ready_time] += 1
-- 
2.43.0


From 5790d0706eeaa831c27f26d375dafd8fbca8f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 56/56] fix: refused changes of resources lost their assignment

---
 lib/b_asic/architecture.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 872defb..90b27d9 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -493,13 +493,15 @@ class Resource(HardwareBlock, ABC):
             # operation_type is MemoryVariable or PlainMemoryVariable
             if not isinstance(proc, self.operation_type):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
+        assignment = self._assignment
         self.collection.add_process(proc)
         if assign:
             try:
                 self.assign()
             except ValueError:
-                # Leave the processes as they were
-                self.remove_process(proc)
+                # Leave the processes and their assignment as they were
+                self.collection.remove_process(proc)
+                self._assignment = assignment
                 raise
         else:
             self._assignment = None
@@ -523,9 +525,16 @@ class Resource(HardwareBlock, ABC):
         :class:`KeyError`
             If *proc* is not present in resource.
         """
+        assignment = self._assignment
         self.collection.remove_process(proc)
         if assign:
-            self.assign()
+            try:
+                self.assign()
+            except ValueError:
+                # Leave the processes and their assignment as they were
+                self.collection.add_process(proc)
+                self._assignment = assignment
+                raise
         else:
             self._assignment = None
 
@@ -1501,8 +1510,18 @@ of :class:`~b_asic.architecture.ProcessingElement`
         proc = cast(Process, proc)
         # Move the process
         if proc in source:
+            assignment = destination._assignment
+            table = getattr(destination, "_forward_backward_table", None)
             destination.add_process(proc, assign=assign)
-            source.remove_process(proc, assign=assign)
+            try:
+                source.remove_process(proc, assign=assign)
+            except ValueError:
+                # Leave the destination as it was
+                destination.remove_process(proc)
+                destination._assignment = assignment
+                if isinstance(destination, Memory):
+                    destination._forward_backward_table = table
+                raise
         else:
             raise KeyError(f"{proc} not in {source.entity_name}")
         self._build_dicts()
-- 
2.43.0

