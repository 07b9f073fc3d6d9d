From 626a7389b08f0a341421b11b32f1911f9e34c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 01/37] fix: key the validator cache by width as well as
 opcodes

A validator generated for one width was reused for the same opcodes at
another width, so e.g. 'all tags valid' leaked from a full tag space into
a partial one.
---
 peak/assembler/assembler_util.py  | 9 +++++----
 peak/assembler2/assembler_util.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..e7ddf01 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,9 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +37,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +47,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +121,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..e7ddf01 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,9 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +37,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +47,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +121,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From e9f0785b3fff08264efc6c89b5f5b223bd4d7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 02/37] fix: multi-range validators accepted every opcode

The disjunction over the ranges started from 1.
---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index e7ddf01..be13238 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -119,6 +119,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index e7ddf01..be13238 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -119,6 +119,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From 04dbf6b7b10e4cd9893499d0f19fef20f0be63dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 03/37] fix: a negative signed field corrupted the fields above
 it when assembled

int() of a negative SIntVector has all upper bits set, which were or-ed
into the rest of the instruction word.
---
 peak/assembler/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..516fcfc 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,7 +269,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
-        return int(inst)
+        # int of a signed vector may be negative
+        return int(inst) % (1 << width)
 
     def disassembler(opcode):
         return isa(opcode)
-- 
2.43.0


From 170470322bbe924683f4dc43f505cf76f9e1f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 04/37] fix: refusing an invalid tag raised NameError instead
 of ValueError

---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 516fcfc..6edff40 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,7 +74,7 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
+            raise ValueError(f'invalid tag: {tag}')
         return self._tag_dsm(tag)
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
-- 
2.43.0


From 70c6a0355d45e081b80941e17f81eca69e4abf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 05/37] fix: assembler2 could not assemble negative signed
 fields symbolically

---
 peak/assembler2/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..146b08e 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -369,7 +369,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
-        return bv_type[width](inst)
+        # int of a signed vector may be negative, which not all bv_types accept
+        return bv_type[width](int(inst) % (1 << width))
 
     def from_fields(v):
         if isinstance(v, AbstractBitVector):
-- 
2.43.0


From 93016a42e998c9436435434e7ad3ff9ba0a1616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 06/37] fix: disassemble_tag failed for every tag

The table is keyed by int but was indexed with the BitVector itself.
---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 6edff40..4bb1ddc 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -75,7 +75,7 @@ class Assembler(AbstractAssembler):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
             raise ValueError(f'invalid tag: {tag}')
-        return self._tag_dsm(tag)
+        return self._tag_dsm(tag.as_uint())
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From aa901ce28fc644e9ed60b2b682690137d9ba3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 07/37] fix: assembler2 left the padding of a built word
 undriven

T[1]() is 0 for BitVector but a fresh free variable for SMT (and an
undriven wire for magma), so two symbolic views of one instruction did
not compare equal.
---
 peak/assembler2/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 146b08e..b1bbf61 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,7 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-- 
2.43.0


From 1bd597132c5fb7d5b364b4a7c710ce3398db281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 08/37] fix: from_fields failed for types with signed or
 unsigned fields

concat refuses to mix BitVector, SIntVector and UIntVector operands.
---
 peak/assembler/assembled_adt.py  | 4 +++-
 peak/assembler2/assembled_adt.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..bba39ae 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -46,7 +46,9 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-    bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
+    # Need to cast to bv_type as concat does not mix signed and unsigned
+    bvs = (_as_bv(s) for s in slots if s is not None)
+    bv = reduce(bv_type.concat, (bv_type[v.size](v) for v in bvs))
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
     return bv_type[width](bv)
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..190f860 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -186,7 +186,8 @@ class AssembledADT(metaclass=AssembledADTMeta):
             else:
                 raise TypeError(v, type(v))
 
-            return bv_value
+            # concat does not mix signed and unsigned
+            return cls.bv_type[bv_value.size](bv_value)
 
         if issubclass(cls.adt_t, Sum) and not issubclass(cls.adt_t, TaggedUnion):
             if len(args) != 2:
-- 
2.43.0


From 900c268559a6d1e562e1da529315d79cfabdb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 09/37] fix: sum encodings depended on set order when options
 share a name or contain sums

Options were ordered by repr, which lists the options of a nested Sum in
set order and is the same for distinct types of one name; bitfield used
the set order itself.  Two processes could disagree on tags.
---
 peak/assembler/assembler.py      |  4 ++--
 peak/assembler/assembler_util.py | 36 ++++++++++++++++++++++++++++++++
 peak/assembler2/assembler.py     |  3 ++-
 peak/auto_assembler.py           | 11 ++++++++--
 peak/bitfield.py                 |  4 +++-
 5 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 4bb1ddc..4ff4a80 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -11,7 +11,7 @@ from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
 from hwtypes.adt_meta import BoundMeta, EnumMeta
 
 
-from .assembler_util import _issubclass, _gen_is_valid
+from .assembler_util import _issubclass, _gen_is_valid, _field_key
 
 class Assembler(AbstractAssembler):
     _asm : tp.Callable[['isa'], int]
@@ -190,7 +190,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_field_key
     ))
 
     payload_width = 0
diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index be13238..cff6d9a 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -3,6 +3,8 @@ import operator
 import typing as tp
 
 from hwtypes import AbstractBitVector, AbstractBit
+from hwtypes.adt import Enum, Sum
+from hwtypes.adt_meta import BoundMeta, GetitemSyntax
 
 def _issubclass(sub , parent : type) -> bool:
     try:
@@ -11,6 +13,40 @@ def _issubclass(sub , parent : type) -> bool:
         return False
 
 
+def _type_key(T: type) -> tp.Tuple[str, tuple]:
+    '''
+    A sort key that orders types the same way in every process.
+
+    The repr of a type is not sufficient as it lists the options of a Sum in
+    set order and distinct types may share a name.
+    '''
+    if not isinstance(T, BoundMeta):
+        return repr(T), ()
+    elif _issubclass(T, Enum):
+        members = ((k, (repr(v._value_), ())) for k, v in T.field_dict.items())
+        return repr(T), tuple(sorted(members))
+
+    keys = [('' if isinstance(k, type) else str(k), _type_key(field))
+            for k, field in T.field_dict.items()]
+    if _issubclass(T, Sum):
+        keys.sort()
+
+    name = repr(T)
+    if issubclass(T, GetitemSyntax):
+        base = name.split('[')[0]
+        name = f'{base}[{", ".join(key[0] for _, key in keys)}]'
+
+    return name, tuple(keys)
+
+
+def _field_key(item: tp.Tuple[tp.Union[str, type], type]):
+    name, field = item
+    if isinstance(name, str):
+        return (repr(name), ()), _type_key(field)
+    else:
+        return _type_key(name), _type_key(field)
+
+
 _RANGE_COST = 1.1
 _validator_cache = {}
 def _gen_is_valid(
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index b1bbf61..fe818da 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -13,6 +13,7 @@ from hwtypes.adt_meta import BoundMeta, EnumMeta
 
 
 from .assembler_util import _issubclass, _gen_is_valid
+from ..assembler.assembler_util import _field_key
 
 
 class Assembler(AbstractAssembler):
@@ -253,7 +254,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_field_key
     ))
 
     payload_width = 0
diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..3f5aacf 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -6,7 +6,7 @@ from collections import OrderedDict
 from functools import reduce
 from hwtypes import AbstractBitVector, BitVector, AbstractBit, Bit
 from hwtypes.adt import Enum, Product, Sum, Tuple
-from hwtypes.adt_meta import EnumMeta
+from hwtypes.adt_meta import BoundMeta, EnumMeta
 import operator
 import ast
 import magma as m
@@ -14,6 +14,8 @@ import tempfile
 import logging
 import warnings
 
+from .assembler.assembler_util import _type_key
+
 warnings.warn("auto_assembler.py is deprecated please move to assembler",
         DeprecationWarning, 2)
 
@@ -119,7 +121,12 @@ def _sum(isa : Sum):
     width = get_width(isa)
     tag_width = len(isa.fields).bit_length()
 
-    for tag, field in enumerate(sorted(isa.fields, key=lambda field: (field.__name__, field.__module__))):
+    def sort_key(field):
+        key = _type_key(field)
+        name = key[0] if isinstance(field, BoundMeta) else field.__name__
+        return name, field.__module__, key
+
+    for tag, field in enumerate(sorted(isa.fields, key=sort_key)):
         tag = BitVector[tag_width](tag)
         e, d, w, l = generate_assembler(field)
         assert tag_width + w <= width
diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..bdd41ba 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -5,6 +5,8 @@ from magma.bitutils import clog2
 from hwtypes.adt import Enum, Sum, Product
 from hwtypes import AbstractBit, AbstractBitVector
 
+from .assembler.assembler_util import _type_key
+
 def tag(tags: tp.Mapping[type, int]):
     def wrapper(sum: Sum):
         if not issubclass(sum, Sum):
@@ -46,7 +48,7 @@ def instkey(inst):
         # depreciated
         i = t.tags[type(inst._value_)]
     else:
-        i = list(t.fields).index(type(inst._value_))
+        i = sorted(t.fields, key=_type_key).index(type(inst._value_))
     return i
 
 def bitfield(i):
-- 
2.43.0


From 250d95736ad99b97df1f92c115b83365e6261597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 10/37] fix: threads racing to one assembler got different
 instances

---
 peak/assembler/assembler_abc.py  | 3 ++-
 peak/assembler2/assembler_abc.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_abc.py b/peak/assembler/assembler_abc.py
index ca52504..6e37583 100644
--- a/peak/assembler/assembler_abc.py
+++ b/peak/assembler/assembler_abc.py
@@ -33,7 +33,8 @@ class AssemblerMeta(ABCMeta):
             except KeyError:
                 pass
             obj = super().__call__(*args, **kwargs)
-            i_cache[idx] = obj
+            # another thread may have been faster, every caller gets its object
+            obj = i_cache.setdefault(idx, obj)
         else:
             obj = super().__call__(*args, **kwargs)
 
diff --git a/peak/assembler2/assembler_abc.py b/peak/assembler2/assembler_abc.py
index dc466eb..38ec1ac 100644
--- a/peak/assembler2/assembler_abc.py
+++ b/peak/assembler2/assembler_abc.py
@@ -33,7 +33,8 @@ class AssemblerMeta(ABCMeta):
             except KeyError:
                 pass
             obj = super().__call__(*args, **kwargs)
-            i_cache[idx] = obj
+            # another thread may have been faster, every caller gets its object
+            obj = i_cache.setdefault(idx, obj)
         else:
             obj = super().__call__(*args, **kwargs)
 
-- 
2.43.0


From fc8896b964f5169a153350f4ae645cb43d6d8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 11/37] fix: threads racing to one assembled adt got different
 classes

---
 peak/assembler/assembled_adt.py  | 16 ++++++++++++++++
 peak/assembler2/assembled_adt.py | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index bba39ae..ffe42d2 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -132,6 +132,9 @@ def _enum_from_fields(cls, value, *, default_bv=0):
     return cls(value)
 
 class AssembledADTMeta(BoundMeta):
+    # unlike a weak dictionary's, the setdefault of a dict is atomic
+    _class_cache = dict()
+
     def __init__(cls, name, bases, namespace, **kwargs):
         if not cls.is_bound:
             return
@@ -164,6 +167,19 @@ class AssembledADTMeta(BoundMeta):
             except TypeError:
                 return cls.from_fields(*args, **kwargs)
 
+    def _cache_handler(cls, idx):
+        mcs = type(cls)
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
+        t = cls._from_idx(idx)
+        # another thread may have been faster, every caller gets its class
+        t = mcs._class_cache.setdefault((cls, idx), t)
+        t._cached_ = True
+        return t
+
     def _name_from_idx(cls, idx):
         return f'{cls.__name__}[{", ".join(map(repr, idx))}]'
 
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index 190f860..34eb3ed 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -29,6 +29,9 @@ RESERVED_NAMES = frozenset({
 })
 
 class AssembledADTMeta(BoundMeta):
+    # unlike a weak dictionary's, the setdefault of a dict is atomic
+    _class_cache = dict()
+
     def __init__(cls, name, bases, namespace, **kwargs):
         if not cls.is_bound:
             return
@@ -36,6 +39,19 @@ class AssembledADTMeta(BoundMeta):
         if is_modified(cls.adt_t):
             raise TypeError(f"Cannot create Assembled ADT from a modified adt type {cls.adt_t}")
 
+    def _cache_handler(cls, idx):
+        mcs = type(cls)
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
+        t = cls._from_idx(idx)
+        # another thread may have been faster, every caller gets its class
+        t = mcs._class_cache.setdefault((cls, idx), t)
+        t._cached_ = True
+        return t
+
     def _name_from_idx(cls, idx):
         return f'{cls.__name__}[{", ".join(map(repr, idx))}]'
 
-- 
2.43.0


From 11de6110690181a816270b753c59b63bd2e2d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 12/37] fix: threads racing to one family closure got different
 classes

---
 peak/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..e972aaa 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -139,5 +139,5 @@ class family_closure:
         if key in self.cache:
             return self.cache[key]
         res = self.fc(*args, **kwargs)
-        self.cache[key] = res
-        return res
+        # another thread may have been faster, every caller gets its class
+        return self.cache.setdefault(key, res)
-- 
2.43.0


From 2da2830d4c78081d4f81b27962993936f356f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 13/37] fix: keyword order made a family closure build a second
 class

---
 peak/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/features.py b/peak/features.py
index e972aaa..a20d2e4 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -135,7 +135,7 @@ class family_closure:
         if not self.is_bound:
             self._bind(*args, **kwargs)
             return self
-        key = (tuple(args), tuple(kwargs.items()))
+        key = (tuple(args), frozenset(kwargs.items()))
         if key in self.cache:
             return self.cache[key]
         res = self.fc(*args, **kwargs)
-- 
2.43.0


From 464f60b24dbc1bff82885e115b7175721512ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 14/37] fix: a black box reported keyword arguments in call
 order

---
 peak/black_box.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..63292d3 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,8 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                # declared order, whatever the order at the call site
+                self._input_vals = tuple(kwargs[name] for name in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From f34a328a862d29656fb9d4ca3b5e3118748978bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 15/37] fix: black box lookups kept answering with replaced
 components

---
 peak/black_box.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index 63292d3..ff27451 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -17,7 +14,6 @@ def get_black_boxes(obj, path=()):
             ret = {**ret, **get_black_boxes(obj, path + (field,))}
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From b0b9edcf89dcff365dd627c7018df3cd19b283e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 16/37] fix: an IR instruction broke when the user's names met
 those of the generated source

---
 peak/ir.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/peak/ir.py b/peak/ir.py
index 0a54c43..3eb28a0 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -25,35 +25,44 @@ class IR:
         #Assuming for now that abstract bitvectors are used in the interfaces
         inputs = input_interface.field_dict
         outputs = output_interface.field_dict
+        # The generated source also contains names which were not chosen by
+        # the user, these must not capture (or be captured by) the ones that were
+        user_names = {*inputs.keys(), *outputs.keys(), cls_name}
+        def internal(name):
+            while name in user_names:
+                name += '_'
+            return name
+        family_n, self_n, peak_n, name_outputs_n, fun_n = map(internal,
+            ('family', 'self', 'Peak', 'name_outputs', '_fun_'))
         tab = ' '*_TAB_SIZE
         t_to_tname = {}
         idx = 0
         for t in it.chain(inputs.values(), outputs.values()):
             if not t in t_to_tname:
-                t_to_tname[t] = f"t{idx}"
+                t_to_tname[t] = internal(f"t{idx}")
                 idx +=1
         class_src = [f"@_family_closure"]
-        class_src.append(f"def peak_fc(family):")
+        class_src.append(f"def peak_fc({family_n}):")
         for t, tname in t_to_tname.items():
             class_src.append(f"{tab*1}_{tname} = {tname}")
-        class_src.append(f"{tab*1}class {cls_name}(Peak):")
+        class_src.append(f"{tab*1}class {cls_name}({peak_n}):")
         output_types = ", ".join([f"{field} = _{t_to_tname[t]}" for field, t in outputs.items()])
         input_types = ", ".join([f"{field} : _{t_to_tname[t]}" for field, t in inputs.items()])
-        fun_call = "family, " + ", ".join(inputs.keys())
-        class_src.append(f"{tab*2}@name_outputs({output_types})")
-        class_src.append(f"{tab*2}def __call__(self, {input_types}):")
-        class_src.append(f"{tab*3}return _fun_({fun_call})")
+        fun_call = f"{family_n}, " + ", ".join(inputs.keys())
+        class_src.append(f"{tab*2}@{name_outputs_n}({output_types})")
+        class_src.append(f"{tab*2}def __call__({self_n}, {input_types}):")
+        class_src.append(f"{tab*3}return {fun_n}({fun_call})")
         class_src.append(f"{tab*1}return {cls_name}")
         class_src = '\n'.join(class_src)
         exec_ls = {}
         #add all the types to globals
         exec_gs = {tname:t for t, tname in t_to_tname.items()}
-        exec_gs.update(dict(
-            Peak=Peak,
-            name_outputs=name_outputs,
-            _fun_=fun,
-            _family_closure=family_closure
-        ))
+        exec_gs.update({
+            peak_n: Peak,
+            name_outputs_n: name_outputs,
+            fun_n: fun,
+            "_family_closure": family_closure,
+        })
         exec(class_src, exec_gs, exec_ls)
         peak_fc = exec_ls["peak_fc"]
         self.add_instruction(name, peak_fc)
-- 
2.43.0


From 40edfde089538bcc51be36e3541dc9795c527621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 17/37] fix: threads adding the same IR instruction both
 succeeded

---
 peak/ir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/ir.py b/peak/ir.py
index 3eb28a0..0e48e89 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -16,7 +16,9 @@ class IR:
     def add_instruction(self, name, peak_fc : tp.Callable):
         if name in self.instructions:
             raise ValueError(f"{name} is already an existing instruction")
-        self.instructions[name] = peak_fc
+        # atomic, another thread may be adding the same name
+        if self.instructions.setdefault(name, peak_fc) is not peak_fc:
+            raise ValueError(f"{name} is already an existing instruction")
 
     #fun should have the form def fun(family, *args)
     def add_peak_instruction(self, name : str, input_interface : Product, output_interface : Product, fun : tp.Callable, cls_name=None):
-- 
2.43.0


From 166763c5ec74acc240cc1ad3ddb967a8eae817ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 18/37] fix: rewrite rules got arbitrary constants for inputs
 bindable to a constant of the ir

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..5b1902e 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -638,7 +638,8 @@ class IRMapper(SMTMapper):
                 assert len(exists_fbs) > 0
                 assert len(forall_fbs) > 0
                 var_a = type(var)(prefix=str(var)+"_FORALL")
-                var_e = type(var)(prefix=str(var)+"_EXISTS")
+                # The value of the constant is later read from var
+                var_e = var
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
-- 
2.43.0


From 8cca0138c0df52e7fa08010406615e859bb9dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 19/37] fix: validity of an architecture's constants was wrong
 unless they were whole inputs and unbound

Constants inside a run-time input were not checked, constants bound to a
constant of the ir had to be valid for all values, and an architecture
without constants was refused by an assertion.
---
 peak/mapper/mapper.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 5b1902e..3000583 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -136,15 +136,17 @@ class SMTMapper:
         self.output_aadt_t = output_aadt_t
         input_forms, input_varmap, input_value = SMTForms()(input_aadt_t)
         self.input_value = input_value
+        self.input_varmap = input_varmap
 
         #output_form = output_forms[input_form_idx][output_form_idx]
         output_forms = []
         self.const_valid_conditions = []
-        const_fields = [field for field, T in input_t.field_dict.items() if issubclass(T, Const)]
+        self.peak_fc = peak_fc
+        self.const_paths = set(path for path, T in self.path_to_adt(True, strip=False).items() if issubclass(T, Const))
 
         for input_form in input_forms:
             inputs = aadt_product_to_dict(input_form.value)
-            self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
+            self.const_valid_conditions.append([self.leaf_is_valid(path) for path in input_form.varmap if path in self.const_paths])
             #Construct output_aadt value
             outputs = self.peak_obj(**inputs)
 
@@ -158,7 +160,6 @@ class SMTMapper:
 
         #verify same number of output forms
         assert all(num_output_forms == len(forms) for forms in output_forms)
-        self.peak_fc = peak_fc
         self.input_form_var = IVar(num_input_forms, name=f"fi", SMT=family.SMTFamily())
         self.output_form_var = IVar(num_output_forms, name=f"fo", SMT=family.SMTFamily())
 
@@ -166,8 +167,11 @@ class SMTMapper:
         self.output_forms = output_forms
         self.num_output_forms = num_output_forms
         self.num_input_forms = num_input_forms
-        self.input_varmap = input_varmap
-        self.const_paths = set(path for path, T in self.path_to_adt(True, strip=False).items() if issubclass(T, Const))
+
+    def leaf_is_valid(self, path):
+        T = strip_modifiers(self.path_to_adt(True)[path])
+        aadt = self.family.SMTFamily().get_adt_t(rebind_type(T, self.family.SMTFamily()))
+        return is_valid(aadt(self.input_varmap[path]))
 
     @lru_cache(None)
     def path_to_adt(self, input, strip=False):
@@ -530,7 +534,6 @@ class IRMapper(SMTMapper):
         for fi, form in enumerate(archmapper.input_forms):
             # form_condition represents the & of all the appropriate matches
             #   and that the const adt types are valid
-            assert len(archmapper.const_valid_conditions[fi]) > 0
             conditions = [form_var.match_index(fi)] + archmapper.const_valid_conditions[fi]
             for path, choice in form.path_dict.items():
                 match_path = path + (Match,)
@@ -565,11 +568,7 @@ class IRMapper(SMTMapper):
                 arch_in = archmapper.input_value
                 ir_in = self.input_value
 
-            #TODO these are wrong once the Exists intersect FOrall issue shows up
-            const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
-            inputs = aadt_product_to_dict(arch_in)
-            const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            preconditions = []
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
@@ -628,6 +627,11 @@ class IRMapper(SMTMapper):
 
             pysmt_forall_vars = set(name_to_var[name].value for name in forall_to_fbs)
 
+            # The constants of the rule need to be valid
+            for path in arch_input_path_to_adt:
+                if path in archmapper.const_paths and ".".join(["A"] + [str(p) for p in path]) in exists_to_fbs:
+                    preconditions.append(archmapper.leaf_is_valid(path))
+
             # Check if there is any overlap between forall_vars and exist vars
             overlap = forall_to_fbs.keys() & exists_to_fbs.keys()
             overlap_subs = []
-- 
2.43.0


From 81a4e54dd450e551b1fa9e6016ea6763ec0f2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 20/37] fix: inputs under alternatives of the same name were
 mistaken for each other by the mapper

---
 peak/mapper/mapper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 3000583..6364161 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -601,7 +601,8 @@ class IRMapper(SMTMapper):
                     conditions = fi_conditions + [ib_var.match_index(bi)]
                     fb = (fi, bi)
                     for ir_path, arch_path in ibinding:
-                        arch_name = ".".join(["A"] + [str(p) for p in arch_path])
+                        # not joined, types of the same name may occur in paths
+                        arch_name = ("A", *arch_path)
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
                         is_unbound = ir_path is Unbound
@@ -616,7 +617,7 @@ class IRMapper(SMTMapper):
                             exists_to_fbs[arch_name].append(fb)
                         elif not is_unbound:
                             assert not is_unbound
-                            ir_name = ".".join(["I"] + [str(p) for p in ir_path])
+                            ir_name = ("I", *ir_path)
                             ir_var = self.input_varmap[ir_path]
                             name_to_var[ir_name] = ir_var
                             forall_to_fbs[arch_name].append(fb)
@@ -629,11 +630,11 @@ class IRMapper(SMTMapper):
 
             # The constants of the rule need to be valid
             for path in arch_input_path_to_adt:
-                if path in archmapper.const_paths and ".".join(["A"] + [str(p) for p in path]) in exists_to_fbs:
+                if path in archmapper.const_paths and ("A", *path) in exists_to_fbs:
                     preconditions.append(archmapper.leaf_is_valid(path))
 
             # Check if there is any overlap between forall_vars and exist vars
-            overlap = forall_to_fbs.keys() & exists_to_fbs.keys()
+            overlap = [name for name in forall_to_fbs if name in exists_to_fbs]
             overlap_subs = []
             for name in overlap:
                 var = name_to_var[name]
-- 
2.43.0


From d51f3212362f94b5cde91bf2446c3914f1a49f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 21/37] fix: constants bound to the ir had to be valid for all
 values when they could also be chosen

---
 peak/mapper/mapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 6364161..9367c63 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -630,8 +630,10 @@ class IRMapper(SMTMapper):
 
             # The constants of the rule need to be valid
             for path in arch_input_path_to_adt:
-                if path in archmapper.const_paths and ("A", *path) in exists_to_fbs:
-                    preconditions.append(archmapper.leaf_is_valid(path))
+                exists_fbs = exists_to_fbs.get(("A", *path), [])
+                if len(exists_fbs) > 0:
+                    is_used = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs])
+                    preconditions.append(Implies(is_used, archmapper.leaf_is_valid(path)))
 
             # Check if there is any overlap between forall_vars and exist vars
             overlap = [name for name in forall_to_fbs if name in exists_to_fbs]
-- 
2.43.0


From d7b2784a0bc9a6b6692854d4ae77ef587cd1830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 22/37] fix: a rewrite rule leaving a constant of the
 architecture unbound was accepted

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 9367c63..59f6133 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -224,7 +224,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -249,7 +249,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From 26a9b22ac1724c229a260b9e07974e3caaadb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 23/37] fix: a constant too large for its input was silently
 truncated in a rewrite rule

---
 peak/mapper/mapper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 59f6133..cd80737 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -215,6 +215,13 @@ def is_valid(aadt_value: tp.Union[AssembledADT, AbstractBit, AbstractBitVector])
     else:
         return type(aadt_value)._is_valid_(aadt_value._value_)
 
+# Whether a constant can be resized to T without changing its value
+def _fits(T, value):
+    if issubclass(T, AbstractBit):
+        return 0 <= int(value) <= 1
+    # negative constants are given in two's complement
+    return -(1 << T.size) <= 2*int(value) < 2*(1 << T.size)
+
 class RewriteRule:
     def __init__(self, ibinding, obinding, ir_fc, arch_fc):
         self.family = arch_fc._family_
@@ -229,6 +236,8 @@ class RewriteRule:
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
                 T = strip_modifiers(arch_path_types[arch_path])
+                if not is_adt_type(T) and not _fits(T, ir_path):
+                    raise ValueError(f"{ir_path} does not fit in {arch_path}")
                 aadt = AssembledADT[T, Assembler, self.family.PyFamily().BitVector]
                 ir_path = aadt(ir_path)
                 if is_adt_type(T):
-- 
2.43.0


From dc564fd56de7c2e543039e4c63818296d06da7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 24/37] fix: rewrite rules binding a plain bit vector
 alternative of a sum could not be verified

---
 peak/mapper/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..9ee88d3 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -252,6 +252,12 @@ class SimplifyBinding(AssembledADTRecursor):
 
     @check_leaf(required=False)
     def sum(self, aadt_t, binding):
+        adt_t, assembler_t, bv_t = aadt_t.fields
+        # The alternatives are types, in paths they are those of the Py family
+        alternative = binding[0][1][0]
+        if alternative not in adt_t.fields:
+            alternative = rebind_type(alternative, bv_t.get_family())
+            binding = [(ir_path, (alternative,) + arch_path[1:]) for ir_path, arch_path in binding]
         builder = aadt_t.from_fields
         return self.tagged_or_sum(aadt_t, binding, operator.getitem, builder)
 
@@ -357,7 +363,6 @@ def rebind_value(val, _family):
 def rebind_binding(binding, _family):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
-- 
2.43.0


From 210ae816ee8cfe58c840559ff1ea984e3a978381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 25/37] fix: restricting a run-time enum input of an
 architecture failed

---
 peak/mapper/mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index cd80737..3febdc2 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -199,9 +199,10 @@ class ArchMapper(SMTMapper):
             try:
                 constraints = tuple((aadt(c) for c in constraints))
             except Exception as e:
-                print("Invalid constraints for {path}")
+                print(f"Invalid constraints for {path}")
                 raise e
-            path_constraints[path] =constraints
+            # inputs are substituted by and compared to bit vectors
+            path_constraints[path] = tuple(c._value_ if isinstance(c, AssembledADT) else c for c in constraints)
 
         self.path_constraints = path_constraints
         self.IVar = IVar
-- 
2.43.0


From d60146dc88b970373c90814f80af956ebfacf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 26/37] fix: path constraints that do not fit their input were
 silently truncated to other values

---
 peak/mapper/mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 3febdc2..6d80609 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -196,6 +196,10 @@ class ArchMapper(SMTMapper):
             assert path in self.input_varmap
             adt = path_to_adt[path]
             aadt = self.family.SMTFamily().get_adt_t(rebind_type(adt, self.family.SMTFamily()))
+            if not is_adt_type(adt):
+                for c in constraints:
+                    if isinstance(c, (int, Bit, BitVector)) and not _fits(adt, c):
+                        raise ValueError(f"{c} does not fit in {path}")
             try:
                 constraints = tuple((aadt(c) for c in constraints))
             except Exception as e:
-- 
2.43.0


From c4608231501bd457ee550d110364842aee60d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 27/37] fix: rules under path constraints got arbitrary values
 for restricted run-time inputs

---
 peak/mapper/mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 6d80609..5526316 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -866,7 +866,11 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            if arch_path in am.const_paths:
+                var = am.input_varmap[arch_path]
+            else:
+                # Not chosen by the solver, the rule is right for all of the allowed values
+                var = am.path_constraints[arch_path][0]
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From f481e0cc70106e6eaf17a342a63902e52bdef8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 28/37] fix: a restricted run-time input that no binding uses
 let wrong rules through

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 5526316..2bdab8f 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -712,7 +712,8 @@ class IRMapper(SMTMapper):
                 arch_var = archmapper.input_varmap[path]
                 if is_const:
                     exist_constraints.append(Or(arch_var == c for c in constraints))
-                else:
+                # Otherwise no binding uses it and the solver would be free to violate the constraint
+                elif ("A", *path) in forall_to_fbs:
                     forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-- 
2.43.0


From e941d0313ca3ca5e4c79280f99c40e7f45c6defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 29/37] fix: constants of a damaged serialized rewrite rule
 were silently changed to other values

---
 peak/mapper/mapper.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 2bdab8f..a1f7e19 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -399,6 +399,16 @@ class RewriteRule:
 
         return rrule_out
 
+# Constants are only read if they are what serialize_bindings wrote, never changed to fit
+def _read_serialized_constant(u):
+    width, value = u['width'], u['value']
+    if isinstance(value, int):
+        if u['type'] == "BitVector" and 0 <= value < (1 << width):
+            return BitVector[width](value)
+        elif u['type'] == "Bit" and width == 1 and 0 <= value <= 1:
+            return Bit(value)
+    raise ValueError(f"{u} is not a serialized constant")
+
 def read_serialized_bindings(serialized_rr, ir_fc, arch_fc):
 
     input_binding = []
@@ -406,12 +416,8 @@ def read_serialized_bindings(serialized_rr, ir_fc, arch_fc):
 
     for i in serialized_rr["ibinding"]:
         if isinstance(i[0], dict):
-            u = i[0]
+            u = _read_serialized_constant(i[0])
             v = i[1]
-            if u['type'] == "BitVector":
-                u = (BitVector[u['width']](u['value']))
-            elif u['type'] == "Bit":
-                u = (Bit(u['value']))
 
             input_binding.append(tuple([u, tuple(v) ]))
         elif i[0] == "unbound":
-- 
2.43.0


From fdc3abb3798a36d4ae101d0404b15a2976b2af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 30/37] fix: the solution found by Multi was lost with the
 solver

---
 peak/mapper/multi.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..32592ca 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -35,6 +36,12 @@ def create_bindings(inputs, outputs, use_unbound=True):
         bindings.append(binding)
     return bindings
 
+#The value of a free variable as a bit vector (or bit)
+def _to_bv(v):
+    if isinstance(v, AssembledADT):
+        return v._value_
+    return v
+
 #This will Solve a multi-rewrite rule N instructions
 def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, use_real = True, use_split_instr = False):
     def parse_peak_fc(peak_fc):
@@ -275,21 +282,30 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    # The solver is gone once get_info is called
+    bind_var = info.bind_var
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    binding_indices = info.valid_bindings[bind_val]
+    bindings = []
+    instructions = []
+    for block, index in zip(info.block_info, binding_indices):
+        bindings.append(block.bindings[index])
+        instructions.append({field: solved_to_bv(_to_bv(block.arch_inputs[field]), solver) for field in info.arch_info.const_dict})
+    out = info.block_info[info.N]
+    out_val = out.bind_var.decode(int(solved_to_bv(out.bind_var.var, solver)))
+    solution = SimpleNamespace(
+        **vars(info),
+        bindings=bindings,
+        instructions=instructions,
+        output_binding=out.bindings[out_val],
+    )
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
-        binding_indices = info.valid_bindings[bind_val]
-        for i in range(N):
+        for i, (binding, instruction) in enumerate(zip(bindings, instructions)):
             print("*"*100)
             print(f"Instruction {i}")
-            binding = block_info[i].bindings[binding_indices[i]]
             pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
-        return info
+            print(list(instruction.values()))
+        return solution
     return get_info
-- 
2.43.0


From 4f6bbbbc6da06907479e749314ef33a3c2bcad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 31/37] fix: Multi failed for inputs and outputs that are not
 bits or bit vectors

---
 peak/mapper/multi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 32592ca..98ec478 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -93,7 +93,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     #This contains the 'input binding' for a particular instruction. Indexed by instruction index
     block_info = []
 
-    pysmt_forall_vars = [v.value for v in ir_inputs.values()]
+    pysmt_forall_vars = [_to_bv(v).value for v in ir_inputs.values()]
     valid_conds = []
 
 
@@ -147,7 +147,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         free_arch_outputs = {field:_create_free_var(output_aadt[field], f"ArchOut_I{i}_{field}") for field in arch_info.output_t.field_dict}
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
-        pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
+        pysmt_forall_vars += [_to_bv(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
         pysmt_forall_vars += [v.value for v in bb_outputs.values()]
 
 
@@ -222,7 +222,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
                 real = block_info[i].real_arch_outputs
                 fake = block_info[i].free_arch_outputs
                 for vr, vf in zip(real.values(), fake.values()):
-                    pysmt_forall_vars.append(vf.value)
+                    pysmt_forall_vars.append(_to_bv(vf).value)
                     free_repl.append(vf==vr)
             free_repl = And(free_repl)
 
-- 
2.43.0


From c141fc9eead9b243d09feeffd7ea827a631cc411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 32/37] fix: Multi failed for architectures with black boxes
 and let the solver choose the outputs of those of the ir

---
 peak/mapper/multi.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 98ec478..4f7c5f6 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -4,7 +4,8 @@ from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
 from peak.assembler import AssembledADT
-from .mapper import aadt_product_to_dict, external_loop_solve
+from peak.black_box import get_black_boxes
+from .mapper import aadt_product_to_dict, external_loop_solve, update_with_bb
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
 from .utils import _sort_by_t, pretty_print_binding, solved_to_bv, Unbound
@@ -148,7 +149,6 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
         pysmt_forall_vars += [_to_bv(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
 
 
         #Creating i'th binding
@@ -261,6 +261,19 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         impl_cond = And([free_repl, Or(impl_conds)])
     F = out_conds
     formula = And([valid_cond, Implies(impl_cond, F)])
+    # Black boxes of the same type, in any instruction, are the same function
+    def by_instruction(attr):
+        return {(i, *path): v for i in range(N) for path, v in getattr(block_info[i], attr).items()}
+    formula, bb_forall = update_with_bb(
+        formula,
+        {(i, *path): bb for i in range(N) for path, bb in get_black_boxes(block_info[i].obj).items()},
+        by_instruction("bb_inputs"),
+        by_instruction("bb_outputs"),
+        get_black_boxes(ir_obj),
+        ir_bb_inputs,
+        ir_bb_outputs,
+    )
+    pysmt_forall_vars += bb_forall
     formula = formula.to_hwtypes()
     forall_vars = pysmt_forall_vars
     formula_wo_forall = formula.value
-- 
2.43.0


From f945673f87c780fa80b4afc713c1abbefeaa748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 33/37] fix: registers of products, tuples and sums could not
 be created in the plain Python family

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..b920e84 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -182,7 +182,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = init if isinstance(init, T) else T(init)
 
                 def __call__(self, value: T, en: family.Bit) -> T:
                     assert value is not None
@@ -200,7 +200,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = init if isinstance(init, T) else T(init)
 
                 def __call__(self, value: T) -> T:
                     retvalue = self.value
@@ -230,7 +230,7 @@ class _RegFamily(AbstractFamily):
 
         class Register(Peak, cls.AttrRegBase):
             def __init__(self):
-                self.value: T = T(init)
+                self.value: T = init if isinstance(init, T) else T(init)
 
             def _poke_(self, value):
                 if not isinstance(value, T):
-- 
2.43.0


From ad8a453fd10d7c9d2a20b92fa417c56ad62d6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 34/37] fix: designs constructing a Sum failed in the plain
 Python family

---
 peak/family.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/peak/family.py b/peak/family.py
index b920e84..d16d2c8 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -8,6 +8,7 @@ from ast_tools import SymbolTable
 import hwtypes
 from hwtypes.modifiers import strip_modifiers
 from hwtypes import Product
+from hwtypes.adt import Sum, TaggedUnion
 import magma as m
 
 from .assembler import Assembler
@@ -253,6 +254,15 @@ class _BBFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
 
+def _sum_constructor(adt_t, *args):
+    if len(args) == 2:
+        T, value = args
+        if not isinstance(value, T):
+            raise TypeError(f'Expected value of type {T} not {value}')
+        return adt_t(value)
+    return adt_t(*args)
+
+
 class PyFamily(_RegFamily):
     '''
     Pure python family
@@ -278,6 +288,9 @@ class PyFamily(_RegFamily):
         return adt_t
 
     def get_constructor(self, adt_t):
+        if issubclass(adt_t, Sum) and not issubclass(adt_t, TaggedUnion):
+            # like its assembled version takes the alternative and its value
+            return ft.partial(_sum_constructor, adt_t)
         return adt_t
 
     def assemble(self, locals, globals, **kwargs):
-- 
2.43.0


From ca180e1c6e9dcd552a94145f0bcf930db069ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 35/37] fix: hardware values of assembled types differing only
 in direction did not compare or nest

---
 peak/assembler/assembled_adt.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index ffe42d2..a7ba599 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -371,6 +371,21 @@ class MAADTMeta(AssembledADTMeta, m.MagmaProtocolMeta):
 class MagmaADT(AssembledADT, m.MagmaProtocol, metaclass=MAADTMeta):
     _get_magma_value_ = AssembledADT._to_bitvector_
 
+    def __init__(self, adt):
+        super().__init__(self._redirect_(adt))
+
+    # The direction does not matter for the value
+    def _redirect_(self, other):
+        cls = type(self)
+        if isinstance(other, MagmaADT) and type(other).fields[:-1] == cls.fields[:-1]:
+            return other._value_
+        return other
+
+    def __eq__(self, other):
+        return super().__eq__(self._redirect_(other))
+
+    __hash__ = AssembledADT.__hash__
+
 
 class AssembledADTRecursor(metaclass=abc.ABCMeta):
     def __call__(self, aadt_t, *args, **kwargs):
-- 
2.43.0


From 5fab4de6e35e84929a2a34bf6d73eec0952b8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 36/37] fix: assembler2 built words from fields of wrong types
 and widths

---
 peak/assembler2/assembled_adt.py | 20 ++++++++++++++------
 peak/assembler2/assembler.py     |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index 34eb3ed..7704df9 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -190,8 +190,13 @@ class AssembledADT(metaclass=AssembledADTMeta):
 
     @classmethod
     def from_fields(cls, *args, **kwargs):
-        def _as_bv(v):
-            if isinstance(v, AbstractBitVector):
+        adt_t = cls.adt_t
+
+        def _as_bv(v, T):
+            if (isinstance(v, AssembledADT) and isinstance(T, BoundMeta)
+                    and type(v).adt_t != T):
+                raise TypeError(f'expected {T} not {type(v)}')
+            elif isinstance(v, AbstractBitVector):
                 bv_value = v
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
@@ -205,14 +210,17 @@ class AssembledADT(metaclass=AssembledADTMeta):
             # concat does not mix signed and unsigned
             return cls.bv_type[bv_value.size](bv_value)
 
-        if issubclass(cls.adt_t, Sum) and not issubclass(cls.adt_t, TaggedUnion):
+        # field -> T, empty for Enums
+        fields = {} if issubclass(adt_t, Enum) else adt_t.field_dict
+
+        if issubclass(adt_t, Sum) and not issubclass(adt_t, TaggedUnion):
             if len(args) != 2:
                 raise TypeError('Expected two positional arguments')
-            args = args[0], _as_bv(args[1])
+            args = args[0], _as_bv(args[1], fields.get(args[0]))
         else:
-            args = map(_as_bv, args)
+            args = map(_as_bv, args, it.chain(fields.values(), it.repeat(None)))
 
-        kwargs = {k: _as_bv(v) for k, v in kwargs.items()}
+        kwargs = {k: _as_bv(v, fields.get(k)) for k, v in kwargs.items()}
         return cls(cls._assembler_.from_fields(*args, **kwargs))
 
     # For the bitvector protocol
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index fe818da..e012ab2 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -89,6 +89,8 @@ def _create_from_layout(width, layout, field_bvs):
 
     slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        if field_bvs[field_name].size != hi - low:
+            raise TypeError(f'expected {hi - low} bits for {field_name}')
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From b90fc29fe30e864d65ec19c8aac69049a6fba0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:20 +0000
Subject: [PATCH 37/37] fix: views of assembler2 could not be copied

---
 peak/assembler2/assembled_adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index 7704df9..1e84398 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -147,6 +147,10 @@ class AssembledADT(metaclass=AssembledADTMeta):
         return self._get(key, operator.getitem)
 
     def __getattr__(self, attr):
+        adt_t = type(self).adt_t
+        # nothing but a field, and copying looks before _value_ is set
+        if issubclass(adt_t, Enum) or attr not in adt_t.field_dict:
+            raise AttributeError(f'{attr} not in {adt_t}')
         return self._get(attr, getattr)
 
     def _get(self, key, getter):
-- 
2.43.0

