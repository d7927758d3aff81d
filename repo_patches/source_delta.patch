From b47fb34ba4b61df784ee71da5cdf739e5778eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 01/44] fix: key the opcode validator cache on the width as
 well as the opcodes

---
 peak/assembler/assembler_util.py  | 11 +++++++----
 peak/assembler2/assembler_util.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..73cc9a7 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,11 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the validator depends on the width too (e.g. {0, 1} is everything at
+    # width 1 but not at width 2)
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +39,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +49,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +123,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..73cc9a7 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,11 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the validator depends on the width too (e.g. {0, 1} is everything at
+    # width 1 but not at width 2)
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +39,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +49,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +123,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From ef9e5cb1a7fb31ed4ad390b5df96d264bfe68199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 02/44] fix: is_valid of a multi-range enum accepted every
 opcode

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 73cc9a7..24f0dc3 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -121,6 +121,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 73cc9a7..24f0dc3 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -121,6 +121,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From b95320e3a425ac6e017ba67d312b15121a794488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 03/44] fix: disassemble_tag looked tags up by bit vector
 instead of by value

---
 peak/assembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..84c2d06 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,8 +74,8 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
-        return self._tag_dsm(tag)
+            raise ValueError(f'invalid tag: {tag}')
+        return self._tag_dsm(int(tag))
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From 5dee736e4e96a50efff4a4a70f934d3e3e3c7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 04/44] fix: assemble negative values of signed fields as their
 bits

---
 peak/assembler/assembler.py  | 3 ++-
 peak/assembler2/assembler.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 84c2d06..2f931e7 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,7 +269,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
-        return int(inst)
+        # int() of a signed vector may be negative, the opcode is its bits
+        return int(inst) & ((1 << width) - 1)
 
     def disassembler(opcode):
         return isa(opcode)
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..7a9e3b5 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -369,6 +369,9 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
+        if isinstance(inst, BitVector):
+            # signed vectors may be negative, the opcode is their bits
+            inst = inst.as_uint()
         return bv_type[width](inst)
 
     def from_fields(v):
-- 
2.43.0


From 781c2fc89a26adee1a04c01a51698d528a9dbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 05/44] fix: from_fields left the unused bits of a sum
 unconstrained (assembler2)

---
 peak/assembler2/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 7a9e3b5..a56cfab 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,8 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    # unused bits are 0, T[1]() would be unconstrained in smt / magma
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-- 
2.43.0


From 427eab36bb2dafe4aac9a82786ee6a7b225d510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 06/44] fix: from_fields rejected types with zero width fields

---
 peak/assembler/assembled_adt.py | 5 ++++-
 peak/assembler2/assembler.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..b92003e 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -38,12 +38,15 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # zero width field, e.g. the tag of a sum with one option
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index a56cfab..3454647 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -73,7 +73,7 @@ def _create_from_layout(width, layout, field_bvs):
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
@@ -89,6 +89,9 @@ def _create_from_layout(width, layout, field_bvs):
     # unused bits are 0, T[1]() would be unconstrained in smt / magma
     slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # zero width field, e.g. the tag of a sum with one option
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From f161ed2916e13ea77a46d01aac4c21ce0f4ef83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 07/44] fix: from_fields failed when a signed field came before
 a plain one

---
 peak/assembler/assembled_adt.py  | 4 ++++
 peak/assembler2/assembled_adt.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index b92003e..3bd1209 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -58,6 +58,10 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
 def _as_bv(v):
     if isinstance(v, AbstractBitVector):
         bv_value = v
+        fam = v.get_family()
+        if isinstance(v, (fam.Signed, fam.Unsigned)):
+            # the opcode is neither signed nor unsigned
+            bv_value = fam.BitVector[v.size](v)
     elif isinstance(v, AbstractBit):
         bv_value = v.get_family().BitVector[1](v)
     elif isinstance(v, AssembledADT):
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..5bbca6d 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -177,6 +177,10 @@ class AssembledADT(metaclass=AssembledADTMeta):
         def _as_bv(v):
             if isinstance(v, AbstractBitVector):
                 bv_value = v
+                fam = v.get_family()
+                if isinstance(v, (fam.Signed, fam.Unsigned)):
+                    # the opcode is neither signed nor unsigned
+                    bv_value = fam.BitVector[v.size](v)
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
             elif isinstance(v, AssembledADT):
-- 
2.43.0


From a05b2f699e8080e77d43173d0bf0e0e92b9e4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 08/44] fix: directed magma ADT values were rejected as fields
 of a constructed ADT

---
 peak/assembler/assembled_adt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 3bd1209..65bbfbd 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -252,6 +252,9 @@ class AssembledADT(metaclass=AssembledADTMeta):
         assembler = cls._assembler_
         if isinstance(adt, cls):
             self._value_ =  adt._value_
+        elif isinstance(adt, AssembledADT) and type(adt).fields[:3] == cls.fields[:3]:
+            # the same type up to extra parameters (magma direction)
+            self._value_ =  adt._value_
         elif isinstance(adt, cls.adt_t):
             self._value_ = assembler.assemble(adt, cls.bv_type)
         elif not isinstance(adt, cls.bv_type[assembler.width]):
-- 
2.43.0


From 50df7a9b3c845ea290d7b58c9e6972b3b6cde58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 09/44] fix: the mapper rejected architectures without constant
 inputs

---
 peak/mapper/mapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..953fa94 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -530,7 +530,6 @@ class IRMapper(SMTMapper):
         for fi, form in enumerate(archmapper.input_forms):
             # form_condition represents the & of all the appropriate matches
             #   and that the const adt types are valid
-            assert len(archmapper.const_valid_conditions[fi]) > 0
             conditions = [form_var.match_index(fi)] + archmapper.const_valid_conditions[fi]
             for path, choice in form.path_dict.items():
                 match_path = path + (Match,)
@@ -569,7 +568,7 @@ class IRMapper(SMTMapper):
             const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
             inputs = aadt_product_to_dict(arch_in)
             const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            preconditions = list(const_valid_conditions)
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
-- 
2.43.0


From 9dd075c292874e1a408a5257125d034e82ae0803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 10/44] fix: verify rejected rules whose paths end in a leaf
 variant of a sum

---
 peak/mapper/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..6d7351c 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -223,6 +223,16 @@ class SMTForms(AssembledADTRecursor):
             forms.append(Form(value=value, path_dict=path_dict, varmap=form_varmap))
         return forms, varmap, t_value
 
+# Paths name the variant of a sum by its type, which might be of another family
+def _get_variant(sum_t, T):
+    if T in sum_t.fields:
+        return T
+    py_T = rebind_type(T, family.PyFamily())
+    for field in sum_t.fields:
+        if rebind_type(field, family.PyFamily()) == py_T:
+            return field
+    raise KeyError(f"{T} not in {sum_t}")
+
 def check_leaf(required=False):
     def dec(f):
         @wraps(f)
@@ -252,6 +262,10 @@ class SimplifyBinding(AssembledADTRecursor):
 
     @check_leaf(required=False)
     def sum(self, aadt_t, binding):
+        binding = [
+            (ir_path, (_get_variant(aadt_t.adt_t, arch_path[0]),) + arch_path[1:])
+            for ir_path, arch_path in binding
+        ]
         builder = aadt_t.from_fields
         return self.tagged_or_sum(aadt_t, binding, operator.getitem, builder)
 
-- 
2.43.0


From 7b55cf35a1671c02facd24846999fed5657a1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 11/44] fix: verify rejected rules that connect an IR input to
 several arch inputs

---
 peak/mapper/mapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 953fa94..e71ac88 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -257,13 +257,12 @@ class RewriteRule:
             raise ValueError("arch_inputs are wrong")
 
         ibinding = rebind_binding(self.ibinding, family)
-        ir_binding = []
+        ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
         arch_binding = []
         for ir_path, arch_path in ibinding:
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
                 val = ir_inputs[ir_path]
-                ir_binding.append((val, ir_path))
                 arch_binding.append((val, arch_path))
             elif ir_path is Unbound:
                 assert arch_path in arch_inputs
-- 
2.43.0


From 940f0d7506c47f1120b190ee1c2ae4143a61103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 12/44] fix: rewrite rules accepted constant arch inputs
 without a value

---
 peak/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index e71ac88..f35ef23 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
-- 
2.43.0


From 0a26984fcb6c665493ad5ee47f6c7f84cf535815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 13/44] fix: constraints on non-constant enum inputs raised
 AttributeError

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index f35ef23..a4d15ce 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -197,7 +197,8 @@ class ArchMapper(SMTMapper):
             except Exception as e:
                 print("Invalid constraints for {path}")
                 raise e
-            path_constraints[path] =constraints
+            # The leaf variables are plain bitvectors
+            path_constraints[path] = tuple(c._value_ if isinstance(c, AssembledADT) else c for c in constraints)
 
         self.path_constraints = path_constraints
         self.IVar = IVar
-- 
2.43.0


From 88914c1b3b336750629d8dffd668692c01d2d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 14/44] fix: rules gave constrained non-constant inputs values
 outside of the constraint

---
 peak/mapper/mapper.py | 5 ++++-
 peak/mapper/utils.py  | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index a4d15ce..b6b9c8d 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -842,10 +842,13 @@ def rr_from_solver(solver, irmapper):
     #extract, simplify, and convert constants to BV in the input binding
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
-        if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
+        if (ir_path is Unbound) and (arch_path in am.const_paths):
             var = am.input_varmap[arch_path]
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
+        elif (ir_path is Unbound) and (arch_path in am.path_constraints):
+            # Not an existential variable, the rule holds for each of the allowed values
+            ir_path = am.path_constraints[arch_path][0]
         bv_ibinding.append((ir_path, arch_path))
 
     fam = am.peak_fc._family_.PyFamily()
diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 6d7351c..d63aa79 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -357,13 +357,13 @@ def rebind_value(val, _family):
     elif isinstance(val, family.PyFamily().Bit):
         return _family.Bit(val)
     elif isinstance(val, family.SMTFamily().BitVector):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.BitVector[val.size](val._value_.constant_value())
+        return _family.BitVector[val.size](val.value.constant_value())
     elif isinstance(val, family.SMTFamily().Bit):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.Bit(val._value_.constant_value())
+        return _family.Bit(val.value.constant_value())
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
-- 
2.43.0


From 6ff6fd24ef8f996c321815ac8e64dd8cdc3f819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 15/44] fix: verify rejected rules with an unused leaf variant
 of a sum

---
 peak/mapper/mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index b6b9c8d..96b712a 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -260,14 +260,14 @@ class RewriteRule:
         ibinding = rebind_binding(self.ibinding, family)
         ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
         arch_binding = []
-        for ir_path, arch_path in ibinding:
+        for (_, path), (ir_path, arch_path) in zip(self.ibinding, ibinding):
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
                 val = ir_inputs[ir_path]
                 arch_binding.append((val, arch_path))
             elif ir_path is Unbound:
-                assert arch_path in arch_inputs
-                arch_binding.append((arch_inputs[arch_path], arch_path))
+                assert path in arch_inputs
+                arch_binding.append((arch_inputs[path], arch_path))
             else:
                 arch_binding.append((ir_path, arch_path))
 
-- 
2.43.0


From 0dbe372379e475681904aa00114dac2e8e85de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 16/44] fix: no rule was found for constant IR inputs with
 invalid encodings

---
 peak/mapper/mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 96b712a..95449c3 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -568,7 +568,7 @@ class IRMapper(SMTMapper):
             const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
             inputs = aadt_product_to_dict(arch_in)
             const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = list(const_valid_conditions)
+            preconditions = []
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
@@ -672,6 +672,10 @@ class IRMapper(SMTMapper):
                     o_conds.append(ir_out == arch_out)
                 F_conds.append(Implies(ob_cond, And(o_conds)))
             assert len(F_conds) > 0
+            if const_valid_conditions:
+                # const arch inputs bound to ir inputs are only as valid as those
+                ir_valid = And(is_valid(v) for v in aadt_product_to_dict(ir_in).values())
+                F_conds.append(Implies(ir_valid, And(const_valid_conditions)))
             preconditions.append(Or(o_preconditions))
             F = And(F_conds)
             impl_conds = []
-- 
2.43.0


From 28c6ad3cbece5d96551605da71d1b8b317bad22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 17/44] fix: constants of rules were wrong if another binding
 connects them

---
 peak/mapper/mapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 95449c3..d33c312 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -551,6 +551,9 @@ class IRMapper(SMTMapper):
 
 
 
+        # arch_path -> existential part of a variable which is also universally quantified
+        self.exists_vars = {}
+
         use_input_sub = True
         #--------------------------------------------
         if simple_formula:
@@ -594,6 +597,9 @@ class IRMapper(SMTMapper):
             #name -> var
             name_to_var = {}
 
+            #name -> arch_path
+            exists_paths = {}
+
             fb_conditions = {} #form/binding conditions in a list
             for fi, ibindings in enumerate(input_bindings):
                 fi_conditions = [form_var.match_index(fi)]
@@ -614,6 +620,7 @@ class IRMapper(SMTMapper):
                             forall_to_fbs[arch_name].append(fb)
                         elif is_unbound and is_const:
                             exists_to_fbs[arch_name].append(fb)
+                            exists_paths[arch_name] = arch_path
                         elif not is_unbound:
                             assert not is_unbound
                             ir_name = ".".join(["I"] + [str(p) for p in ir_path])
@@ -641,6 +648,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.exists_vars[exists_paths[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -847,7 +855,7 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths):
-            var = am.input_varmap[arch_path]
+            var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         elif (ir_path is Unbound) and (arch_path in am.path_constraints):
-- 
2.43.0


From 670615274a9e50c5fa277f48ceb75681d4a0f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 18/44] fix: unsound rules when a constrained input is of no
 binding

---
 peak/mapper/mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index d33c312..241aa55 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -633,6 +633,9 @@ class IRMapper(SMTMapper):
 
 
             pysmt_forall_vars = set(name_to_var[name].value for name in forall_to_fbs)
+            for path in archmapper.path_constraints:
+                if not issubclass(arch_input_path_to_adt[path], Const):
+                    pysmt_forall_vars.add(archmapper.input_varmap[path].value)
 
             # Check if there is any overlap between forall_vars and exist vars
             overlap = forall_to_fbs.keys() & exists_to_fbs.keys()
-- 
2.43.0


From ddd26d0a75f11c93e9f229c3a463562ab5b6e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 19/44] fix: rules lost the signedness of the variant at the
 end of a path

---
 peak/mapper/utils.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index d63aa79..88585ce 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -1,10 +1,11 @@
 from collections import namedtuple, OrderedDict
 from functools import wraps
+import inspect
 import itertools as it
 import operator
 import typing as tp
 
-from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
+from hwtypes import AbstractBitVector, BitVector, Bit, SMTBitVector, SMTBit
 from hwtypes.adt import Product, Sum, Tuple, TaggedUnion
 from hwtypes.adt_util import rebind_type
 
@@ -224,12 +225,22 @@ class SMTForms(AssembledADTRecursor):
         return forms, varmap, t_value
 
 # Paths name the variant of a sum by its type, which might be of another family
+# rebind_type does not keep the signedness of bitvectors
+def _rebind_variant(T, _family):
+    if inspect.isclass(T) and issubclass(T, AbstractBitVector):
+        t_fam = T.get_family()
+        if issubclass(T, t_fam.Signed):
+            return _family.Signed[T.size]
+        elif issubclass(T, t_fam.Unsigned):
+            return _family.Unsigned[T.size]
+    return rebind_type(T, _family)
+
 def _get_variant(sum_t, T):
     if T in sum_t.fields:
         return T
-    py_T = rebind_type(T, family.PyFamily())
+    py_T = _rebind_variant(T, family.PyFamily())
     for field in sum_t.fields:
-        if rebind_type(field, family.PyFamily()) == py_T:
+        if _rebind_variant(field, family.PyFamily()) == py_T:
             return field
     raise KeyError(f"{T} not in {sum_t}")
 
@@ -371,7 +382,7 @@ def rebind_value(val, _family):
 def rebind_binding(binding, _family):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
+        arch_path = arch_path[:-1] + (_rebind_variant(arch_path[-1], _family),)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
-- 
2.43.0


From fbe1ded3014b4a9a46ae0c5bd0943bbb2e93b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 20/44] fix: SMTForms could not take apart values of tagged
 unions

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 88585ce..030bfae 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -131,7 +131,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From ba1eb0a72dc0c680608d9cb035433444c273d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 21/44] fix: bitfield size of an enum was its number of
 members, not that of its largest value

---
 peak/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..6c26bf8 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,7 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        return clog2(max([int(e._value_) for e in type.enumerate()])+1)
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From 1cd394dfcbc5f432502a52b1fed831b04103c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 22/44] fix: bitfield encoding of negative values set the bits
 of all other fields

---
 peak/bitfield.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 6c26bf8..5af53d0 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -58,7 +58,10 @@ def bitfield(i):
 # left vs right justify
 def encode(inst, reverse=False):
     bitfield = getattr(inst, 'bitfield', 0)
-    if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
+    if isinstance(inst, AbstractBitVector):
+        # the bits, also of negative values
+        word = inst.as_uint()
+    elif isinstance(inst, (AbstractBit, Enum)):
         # depreciated
         word = inst._value_ if isinstance(inst,Enum) else int(inst)
     else:
-- 
2.43.0


From 15e1b6f6f367156d9548d323c66092e6fbb904aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 23/44] fix: registers of products, tuples and sums had no
 initial value in the python family

---
 peak/family.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..781646f 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -159,6 +159,14 @@ class _RewriterFamily(AbstractFamily):
 
 _REG_CACHE = {}
 _ATTR_REG_CACHE = {}
+
+def _initial_value(T, init):
+    # not every type is constructible from its own values (e.g. Product)
+    if hwtypes.is_adt_type(T) and isinstance(init, T):
+        return init
+    else:
+        return T(init)
+
 class _RegFamily(AbstractFamily):
     # Base classes for register types
     class RegBase: pass
@@ -182,7 +190,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = _initial_value(T, init)
 
                 def __call__(self, value: T, en: family.Bit) -> T:
                     assert value is not None
@@ -200,7 +208,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = _initial_value(T, init)
 
                 def __call__(self, value: T) -> T:
                     retvalue = self.value
@@ -230,7 +238,7 @@ class _RegFamily(AbstractFamily):
 
         class Register(Peak, cls.AttrRegBase):
             def __init__(self):
-                self.value: T = T(init)
+                self.value: T = _initial_value(T, init)
 
             def _poke_(self, value):
                 if not isinstance(value, T):
-- 
2.43.0


From d7967d7f2cf5a03ccca025638050493385970064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 24/44] fix: registers with a symbolic initial value could not
 be generated

---
 peak/family.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/peak/family.py b/peak/family.py
index 781646f..7f6c7e9 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -180,6 +180,9 @@ class _RegFamily(AbstractFamily):
             return _REG_CACHE[key]
         except KeyError:
             pass
+        except TypeError:
+            # symbolic initial values are not hashable
+            key = None
 
         family = self
 
@@ -222,6 +225,8 @@ class _RegFamily(AbstractFamily):
                     return self.value
 
 
+        if key is None:
+            return Register
         return _REG_CACHE.setdefault(key, Register)
 
     def gen_attr_register(self, T, init):
@@ -231,6 +236,9 @@ class _RegFamily(AbstractFamily):
             return _ATTR_REG_CACHE[key]
         except KeyError:
             pass
+        except TypeError:
+            # symbolic initial values are not hashable
+            key = None
         family = self
 
         # avoids circular import
@@ -248,6 +256,8 @@ class _RegFamily(AbstractFamily):
             def _peak_(self):
                 return self.value
 
+        if key is None:
+            return Register
         return _ATTR_REG_CACHE.setdefault(key, Register)
 
 
-- 
2.43.0


From 6aa2255691db017b5d2395036e6a9d09ee10e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 25/44] fix: negative memory addresses named words from the end
 of the memory

---
 peak/memory.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/peak/memory.py b/peak/memory.py
index f9fecb2..f18ef8e 100644
--- a/peak/memory.py
+++ b/peak/memory.py
@@ -1,6 +1,16 @@
 from .peak import Peak
 from .register import gen_register2
-from hwtypes import BitVector
+from hwtypes import AbstractBitVector, BitVector
+
+def _index(addr):
+    # an address names a word from the start of the memory, python would
+    # take a negative one from its end
+    if isinstance(addr, AbstractBitVector):
+        return addr.as_uint()
+    addr = int(addr)
+    if addr < 0:
+        raise IndexError(f"address {addr} is out of range")
+    return addr
 
 class ROM(Peak, gen_input_t=False, gen_output_t=False):
     def __init__(self, type, n, mem, init=0):
@@ -10,10 +20,10 @@ class ROM(Peak, gen_input_t=False, gen_output_t=False):
             self.mem.append( gen_register2(BitVector.get_family(), type, init=data)() )
 
     def __call__(self, addr):
-        return self.mem[int(addr)](0, 0)
+        return self.mem[_index(addr)](0, 0)
 
 class RAM(ROM, gen_input_t=False, gen_output_t=False):
     def __call__(self, addr, data, wen):
-        return self.mem[int(addr)](data, wen)
+        return self.mem[_index(addr)](data, wen)
 
 Memory = RAM
-- 
2.43.0


From 174bc43a27571145de418b45c5b576b47473bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 26/44] fix: a family equalled instances of its subclasses,
 closures answered one with the result of the other

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 7f6c7e9..053ef39 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,7 +35,7 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return True
         else:
             return NotImplemented
@@ -113,7 +113,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -146,7 +146,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From 4236f1d4e829aa34a7f1c125f3608eaffc9847fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 27/44] fix: a family closure ran again when its arguments were
 written in another way

---
 peak/features.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..6d5a742 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -1,5 +1,6 @@
 from collections import OrderedDict
 import functools
+import inspect
 import types
 
 from hwtypes import SMTBit
@@ -135,7 +136,10 @@ class family_closure:
         if not self.is_bound:
             self._bind(*args, **kwargs)
             return self
-        key = (tuple(args), tuple(kwargs.items()))
+        # however the arguments are written, the call is the same
+        bound = inspect.signature(self.fc).bind(*args, **kwargs)
+        bound.apply_defaults()
+        key = (bound.args, frozenset(bound.kwargs.items()))
         if key in self.cache:
             return self.cache[key]
         res = self.fc(*args, **kwargs)
-- 
2.43.0


From 43a5ef41b68a29cdade81cfd94299ed961707e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 28/44] fix: black box discovery was stale after changes,
 listed shared objects twice and did not end on cycles

---
 peak/black_box.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..b5460a5 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -9,15 +6,25 @@ def get_black_boxes(obj, path=()):
 
     if not isinstance(obj, Peak):
         raise ValueError(f"{obj} needs to be a Peak object")
-    if isinstance(obj, BlackBox):
-        return {path: obj}
+
     ret = {}
-    for field, obj in obj.__dict__.items():
-        if isinstance(obj, Peak):
-            ret = {**ret, **get_black_boxes(obj, path + (field,))}
+    # objects may be shared or refer back to one another
+    seen = set()
+
+    def visit(obj, path):
+        if id(obj) in seen:
+            return
+        seen.add(id(obj))
+        if isinstance(obj, BlackBox):
+            ret[path] = obj
+            return
+        for field, sub_obj in obj.__dict__.items():
+            if isinstance(sub_obj, Peak):
+                visit(sub_obj, path + (field,))
+
+    visit(obj, path)
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From 6daf4e309f01f3551a65e77d139efcea1150fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 29/44] fix: keyword arguments of black boxes were read back in
 the order of the call

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index b5460a5..67ee41d 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -61,7 +61,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[field] for field in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From a846e8849841d0da01804506670fa2c0fa367356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 30/44] fix: black boxes without inputs could not be called

---
 peak/black_box.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index 67ee41d..636627b 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -52,16 +52,18 @@ class BlackBox:
             input_t = type(self).input_t
             if self._output_vals is None:
                 raise ValueError(f"{self}: Need to call _set_outputs before __call__")
-            if (len(args) > 0) == (len(kwargs) > 0):
+            # input_t is None if there are no inputs
+            fields = {} if input_t is None else input_t.field_dict
+            if len(args) > 0 and len(kwargs) > 0:
                 raise ValueError(f"{self}: Can only call with either *args or **kwargs")
-            if len(args) > 0:
-                if len(args) != len(input_t.field_dict):
-                    raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
+            if len(kwargs) == 0:
+                if len(args) != len(fields):
+                    raise ValueError(f"{self} need to call with input_t {list(fields.items())}")
                 self._input_vals = tuple(args)
             else:
-                if kwargs.keys() != input_t.field_dict.keys():
-                    raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs[field] for field in input_t.field_dict)
+                if kwargs.keys() != fields.keys():
+                    raise ValueError(f"{self} need to call with input_t {list(fields.items())}")
+                self._input_vals = tuple(kwargs[field] for field in fields)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From 59ce8fbfd4ed18bade3d82e2412047ea9aab09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 31/44] fix: IR instructions with an input named family or
 _fun_, or called like a name of the generated code, were wrong

---
 peak/ir.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/peak/ir.py b/peak/ir.py
index 0a54c43..aafad74 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -32,28 +32,33 @@ class IR:
             if not t in t_to_tname:
                 t_to_tname[t] = f"t{idx}"
                 idx +=1
-        class_src = [f"@_family_closure"]
+        # the names used by the generated code are none of the interface
+        px = "_ir_"
+        while any(n.startswith(px) for n in it.chain([cls_name], inputs, outputs)):
+            px += "_"
+        class_src = [f"@{px}family_closure"]
         class_src.append(f"def peak_fc(family):")
+        class_src.append(f"{tab*1}{px}family = family")
         for t, tname in t_to_tname.items():
-            class_src.append(f"{tab*1}_{tname} = {tname}")
-        class_src.append(f"{tab*1}class {cls_name}(Peak):")
-        output_types = ", ".join([f"{field} = _{t_to_tname[t]}" for field, t in outputs.items()])
-        input_types = ", ".join([f"{field} : _{t_to_tname[t]}" for field, t in inputs.items()])
-        fun_call = "family, " + ", ".join(inputs.keys())
-        class_src.append(f"{tab*2}@name_outputs({output_types})")
+            class_src.append(f"{tab*1}{px}_{tname} = {px}{tname}")
+        class_src.append(f"{tab*1}class {cls_name}({px}Peak):")
+        output_types = ", ".join([f"{field} = {px}_{t_to_tname[t]}" for field, t in outputs.items()])
+        input_types = ", ".join([f"{field} : {px}_{t_to_tname[t]}" for field, t in inputs.items()])
+        fun_call = f"{px}family, " + ", ".join(inputs.keys())
+        class_src.append(f"{tab*2}@{px}name_outputs({output_types})")
         class_src.append(f"{tab*2}def __call__(self, {input_types}):")
-        class_src.append(f"{tab*3}return _fun_({fun_call})")
+        class_src.append(f"{tab*3}return {px}fun({fun_call})")
         class_src.append(f"{tab*1}return {cls_name}")
         class_src = '\n'.join(class_src)
         exec_ls = {}
         #add all the types to globals
-        exec_gs = {tname:t for t, tname in t_to_tname.items()}
-        exec_gs.update(dict(
-            Peak=Peak,
-            name_outputs=name_outputs,
-            _fun_=fun,
-            _family_closure=family_closure
-        ))
+        exec_gs = {px + tname:t for t, tname in t_to_tname.items()}
+        exec_gs.update({
+            px + "Peak": Peak,
+            px + "name_outputs": name_outputs,
+            px + "fun": fun,
+            px + "family_closure": family_closure,
+        })
         exec(class_src, exec_gs, exec_ls)
         peak_fc = exec_ls["peak_fc"]
         self.add_instruction(name, peak_fc)
-- 
2.43.0


From 942504518c39fc6b833a442b226536dc72bdd57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 32/44] fix: type checking ignored surplus results and failed
 on components without outputs

---
 peak/features.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peak/features.py b/peak/features.py
index 6d5a742..8541d30 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -83,9 +83,15 @@ def typecheck(call_fn):
     @functools.wraps(call_fn)
     def call_wrapper(*args, **kwargs):
         results = call_fn(*args, **kwargs)
+        if output_t is None:
+            if results is not None:
+                raise TypeError(f"result type {type(results)} did not match, expected no output in {call_fn}")
+            return results
         single_output = not isinstance(results, tuple)
         if single_output:
             results = (results,)
+        if len(results) != len(output_t.field_dict):
+            raise TypeError(f"{len(results)} results did not match the {len(output_t.field_dict)} outputs of {call_fn}")
         for i, (oname, otype) in enumerate(output_t.field_dict.items()):
             if not isinstance(results[i], otype):
                 raise TypeError(f"result type for output {oname} : {type(results[i])} did not match expected type {otype} in {call_fn}")
-- 
2.43.0


From cef5b0bc7f4244f67b51808b85c3401653d7b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 33/44] fix: the rules Multi found could not be read

---
 peak/mapper/multi.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..1a5e1c6 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -275,21 +276,32 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    #The solver cannot be asked anymore once solve has returned
+    N = info.N
+    bind_var = info.bind_var
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    binding_indices = info.valid_bindings[bind_val]
+    out_info = info.block_info[N]
+    out_val = out_info.bind_var.decode(int(solved_to_bv(out_info.bind_var.var, solver)))
+
+    def instr_value(v):
+        if isinstance(v, AssembledADT):
+            v = v._value_
+        return solved_to_bv(v, solver)
+
+    info = SimpleNamespace(
+        **vars(info),
+        bindings=[info.block_info[i].bindings[binding_indices[i]] for i in range(N)],
+        output_binding=out_info.bindings[out_val],
+        instrs=[[instr_value(info.block_info[i].arch_inputs[field]) for field in info.arch_info.const_dict] for i in range(N)],
+    )
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
-        binding_indices = info.valid_bindings[bind_val]
         for i in range(N):
             print("*"*100)
             print(f"Instruction {i}")
-            binding = block_info[i].bindings[binding_indices[i]]
-            pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            pretty_print_binding(info.bindings[i])
+            print(info.instrs[i])
         return info
     return get_info
-- 
2.43.0


From b5d2ee0ab0d26b471b45be18ee6c081597bee09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 34/44] fix: Multi chose the values of black boxes in the
 instruction and failed on those in the architecture

---
 peak/mapper/multi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 1a5e1c6..9187373 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -88,6 +88,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     block_info = []
 
     pysmt_forall_vars = [v.value for v in ir_inputs.values()]
+    pysmt_forall_vars += [v.value for vs in ir_bb_outputs.values() for v in vs]
     valid_conds = []
 
 
@@ -142,7 +143,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
         pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
+        pysmt_forall_vars += [v.value for vs in bb_outputs.values() for v in vs]
 
 
         #Creating i'th binding
-- 
2.43.0


From 1033499a13d17d5f8d2c4a3a20844f1f73cb12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 35/44] fix: Multi failed on instruction operands that are not
 bit vectors

---
 peak/mapper/multi.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 9187373..e19face 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -36,6 +36,10 @@ def create_bindings(inputs, outputs, use_unbound=True):
         bindings.append(binding)
     return bindings
 
+#The bits of a value
+def _bits(v):
+    return v._value_ if isinstance(v, AssembledADT) else v
+
 #This will Solve a multi-rewrite rule N instructions
 def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, use_real = True, use_split_instr = False):
     def parse_peak_fc(peak_fc):
@@ -87,7 +91,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     #This contains the 'input binding' for a particular instruction. Indexed by instruction index
     block_info = []
 
-    pysmt_forall_vars = [v.value for v in ir_inputs.values()]
+    pysmt_forall_vars = [_bits(v).value for v in ir_inputs.values()]
     pysmt_forall_vars += [v.value for vs in ir_bb_outputs.values() for v in vs]
     valid_conds = []
 
@@ -142,7 +146,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         free_arch_outputs = {field:_create_free_var(output_aadt[field], f"ArchOut_I{i}_{field}") for field in arch_info.output_t.field_dict}
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
-        pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
+        pysmt_forall_vars += [_bits(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
         pysmt_forall_vars += [v.value for vs in bb_outputs.values() for v in vs]
 
 
@@ -217,7 +221,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
                 real = block_info[i].real_arch_outputs
                 fake = block_info[i].free_arch_outputs
                 for vr, vf in zip(real.values(), fake.values()):
-                    pysmt_forall_vars.append(vf.value)
+                    pysmt_forall_vars.append(_bits(vf).value)
                     free_repl.append(vf==vr)
             free_repl = And(free_repl)
 
@@ -285,16 +289,11 @@ def RR(solver, info):
     out_info = info.block_info[N]
     out_val = out_info.bind_var.decode(int(solved_to_bv(out_info.bind_var.var, solver)))
 
-    def instr_value(v):
-        if isinstance(v, AssembledADT):
-            v = v._value_
-        return solved_to_bv(v, solver)
-
     info = SimpleNamespace(
         **vars(info),
         bindings=[info.block_info[i].bindings[binding_indices[i]] for i in range(N)],
         output_binding=out_info.bindings[out_val],
-        instrs=[[instr_value(info.block_info[i].arch_inputs[field]) for field in info.arch_info.const_dict] for i in range(N)],
+        instrs=[[solved_to_bv(_bits(info.block_info[i].arch_inputs[field]), solver) for field in info.arch_info.const_dict] for i in range(N)],
     )
 
     def get_info():
-- 
2.43.0


From f50fc80c98bf7b2000426c4b9d5cabbe073e4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 36/44] fix: floating point operations failed for the rounding
 modes RDN, RUP and RMM

---
 peak/float.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..6548a01 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +174,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +210,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +255,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From 51a1f86b4f77bda845d42229e719438485e1cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 37/44] fix: the fused multiply-add of a fixed rounding mode
 could not be built

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 6548a01..55034eb 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -352,7 +352,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 27d32557cd45915782ab94402901d9cb250285c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 38/44] fix: floating point predicates failed

---
 peak/float.py | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 55034eb..bf49896 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -226,10 +226,45 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else:
+                        assert  rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -304,6 +339,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -342,7 +393,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From 3107d8adccc1a7f21468ea4e20c9dbe90c8678b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 39/44] fix: comparing hardware ADT values of different port
 directions was always false

---
 peak/assembler/assembled_adt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 65bbfbd..dee60fe 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -315,6 +315,9 @@ class AssembledADT(metaclass=AssembledADTMeta):
         cls = type(self)
         if isinstance(other, cls):
             return self._value_ == other._value_
+        elif isinstance(other, AssembledADT) and type(other).fields[:3] == cls.fields[:3]:
+            # the same type up to extra parameters (magma direction)
+            return self._value_ == other._value_
         elif isinstance(other, cls.bv_type[cls._assembler_.width]):
             return self._value_ == other
         elif isinstance(other, cls.adt_t):
-- 
2.43.0


From 3686ea78bd5c4af82b0f9b7bd5d9083bd0964359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 40/44] fix: black boxes without inputs or with outputs of
 composite or enumerated types failed in the mapper

---
 peak/mapper/mapper.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 241aa55..34ed3b8 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -94,8 +94,11 @@ def create_and_set_bb_outputs(peak_obj, family=peak_family, prefix=""):
         output_t = type(bb).output_t
         outputs = []
         for field_name, t in output_t.field_dict.items():
-            sbv_t = rebind_type(t, family.SMTFamily())
-            output_val = sbv_t(prefix=".".join(str(p) for p in (prefix, *path, field_name)))
+            if is_adt_type(t):
+                sbv_t = family.SMTFamily().get_adt_t(t)
+            else:
+                sbv_t = rebind_type(t, family.SMTFamily())
+            output_val = _create_free_var(sbv_t, ".".join(str(p) for p in (prefix, *path, field_name)))
             outputs.append(output_val)
         path_to_bb_outputs[path] = tuple(outputs)
         bb._set_outputs(*outputs)
@@ -436,6 +439,7 @@ def update_with_bb(
     assert set(ir_bb_inputs.keys()) == set(ir_bb_outputs.keys())
 
     bb_forall = []
+    bb_conds = []
     bb_io = {}
     for bbs, inputs, outputs in (
         (arch_bbs, arch_bb_inputs, arch_bb_outputs),
@@ -446,15 +450,23 @@ def update_with_bb(
             assert isinstance(i, tuple)
             o = outputs[path]
             assert isinstance(o, tuple)
-            bb_forall += [_o.value for _o in o]
+            for _o in o:
+                if isinstance(_o, AssembledADT):
+                    bb_forall.append(_o._value_.value)
+                    # a black box only computes valid values
+                    bb_conds.append(is_valid(_o))
+                else:
+                    bb_forall.append(_o.value)
             bb_io.setdefault(type(bb), []).append((i, o))
-    bb_conds = []
     for k, v in bb_io.items():
         for (i0, o0), (i1, o1) in itertools.combinations(v, 2):
             assert len(i0) == len(i1)
             assert len(o0) == len(o1)
-            i_cond = And((a == b) for a, b in zip(i0, i1))
             o_cond = And((a == b) for a, b in zip(o0, o1))
+            if len(i0) == 0:
+                bb_conds.append(o_cond)
+                continue
+            i_cond = And((a == b) for a, b in zip(i0, i1))
             bb_conds.append(Implies(i_cond, o_cond))
     if len(bb_conds) > 0:
         bb_cond = And(bb_conds)
-- 
2.43.0


From 665d061367ba848f97b2a417c31c4c9969f98217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 41/44] fix: the simple formula of the mapper failed on outputs
 of composite type

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 34ed3b8..7981497 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -675,7 +675,8 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                # path -> leaf of the output
+                _, output_dict, _ = SMTForms()(mapper.output_aadt_t, value=output)
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From 3c49e1251d4374e2825fd7e02753ecf24f89bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 42/44] fix: the search for rules of several instructions took
 the types of different families for different

---
 peak/mapper/multi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index e19face..3f01b04 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -55,6 +55,9 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         stripped_output_t = strip_modifiers(output_t)
         input_aadt_t = family.SMTFamily().get_adt_t(stripped_input_t)
         output_aadt_t = family.SMTFamily().get_adt_t(stripped_output_t)
+        # Types are compared, and annotations may use the types of any family
+        input_t = peak_fc.Py.input_t
+        output_t = peak_fc.Py.output_t
         const_dict = {field: T for field, T in input_t.field_dict.items() if issubclass(T, Const)}
         non_const_dict = {field: T for field, T in input_t.field_dict.items() if not issubclass(T, Const)}
         return SimpleNamespace(
@@ -92,7 +95,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     block_info = []
 
     pysmt_forall_vars = [_bits(v).value for v in ir_inputs.values()]
-    pysmt_forall_vars += [v.value for vs in ir_bb_outputs.values() for v in vs]
+    pysmt_forall_vars += [_bits(v).value for vs in ir_bb_outputs.values() for v in vs]
     valid_conds = []
 
 
@@ -147,7 +150,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
         pysmt_forall_vars += [_bits(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for vs in bb_outputs.values() for v in vs]
+        pysmt_forall_vars += [_bits(v).value for vs in bb_outputs.values() for v in vs]
 
 
         #Creating i'th binding
-- 
2.43.0


From fd6c2ced375f6a3e13fdf9d67ea448eeaab430ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 43/44] fix: variants of assembled sums could not be selected
 with an assembled class

---
 peak/assembler/assembled_adt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index dee60fe..fe5e08c 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -270,6 +270,10 @@ class AssembledADT(metaclass=AssembledADTMeta):
 
     def _get(self, key, getter, Error):
         cls = type(self)
+        # if key is an assembled adt class just grab the type from it
+        if _issubclass(key, cls.unbound_t):
+            key = key.adt_t
+
         sub = cls._assembler_.sub.get(key, _MISSING)
         if sub is not _MISSING:
             if issubclass(getter(cls, key), AbstractBit):
@@ -289,12 +293,7 @@ class AssembledADT(metaclass=AssembledADTMeta):
         if key is _TAG:
             return tag
 
-        # if key is an assembled adt class just grab the type from it
-        if _issubclass(key, cls.unbound_t):
-            T = key.adt_t
-        else:
-            T = key
-
+        T = key
         if T in cls.adt_t.field_dict:
             T = cls._assembler_.assemble_tag(T, cls.bv_type)
 
-- 
2.43.0


From 5bc4ca2c346771e4037dd8563df014271953b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:36 +0000
Subject: [PATCH 44/44] fix: the mapper missed rules that only hold for the
 members of an enum input of the ir

---
 peak/mapper/mapper.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 7981497..984ca82 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -340,7 +340,9 @@ class RewriteRule:
             if arch_path not in arch_out_values:
                 raise ValueError(f"{arch_path} is not valid")
             outputs.append(ir_out_values[ir_path] == arch_out_values[arch_path])
-        formula = And(outputs)
+        # inputs of the ir only have valid values
+        ir_valid = And(is_valid(v) for v in ir_inputs.values())
+        formula = Implies(ir_valid, And(outputs))
 
         formula, _ = update_with_bb(
             formula,
@@ -696,12 +698,12 @@ class IRMapper(SMTMapper):
                     o_conds.append(ir_out == arch_out)
                 F_conds.append(Implies(ob_cond, And(o_conds)))
             assert len(F_conds) > 0
-            if const_valid_conditions:
-                # const arch inputs bound to ir inputs are only as valid as those
-                ir_valid = And(is_valid(v) for v in aadt_product_to_dict(ir_in).values())
-                F_conds.append(Implies(ir_valid, And(const_valid_conditions)))
+            F_conds += const_valid_conditions
             preconditions.append(Or(o_preconditions))
-            F = And(F_conds)
+            # inputs of the ir only have valid values,
+            #   and const arch inputs bound to ir inputs are only as valid as those
+            ir_valid = And(is_valid(v) for v in aadt_product_to_dict(ir_in).values())
+            F = Implies(ir_valid, And(F_conds))
             impl_conds = []
             fb_conds = []
 
@@ -752,6 +754,9 @@ class IRMapper(SMTMapper):
             self.forall_vars = pysmt_forall_vars
             self.formula_wo_forall = formula.value
         else:
+            # inputs of the ir only have valid values
+            ir_inputs = aadt_product_to_dict(self.input_forms[0].value)
+            ir_invalid = ~and_reduce(is_valid(v) for v in ir_inputs.values())
             constraints = []
             #Build the constraint
             forall_vars = set()
@@ -788,7 +793,7 @@ class IRMapper(SMTMapper):
                             ir_out = self.output_forms[0][0].varmap[ir_path]
                             arch_out = archmapper.output_forms[fi][0].varmap[arch_path]
                             arch_out = arch_out.substitute(*submap)
-                            conditions.append(ir_out == arch_out)
+                            conditions.append(ir_invalid | (ir_out == arch_out))
                         constraints.append(conditions)
 
             logger.debug("Unconstrained Formula")
-- 
2.43.0

