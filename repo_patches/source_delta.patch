From 8a77c7477e741428aa3797bee7bd7ed9caaba789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:48 +0000
Subject: [PATCH 01/61] fix: align optional fields in Python structs by their
 optional alignment

Padding before an optional field, the block alignment and the static size
used the alignment and size of the bare type. An optional of a 1- or 2-byte
type after an odd offset was therefore encoded without its 4-byte alignment.
---
 prophy/composite.py  |  4 ++--
 prophy/descriptor.py |  8 ++++++++
 prophy/generators.py | 14 +++++++-------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..2482d2f 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -60,7 +60,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), field.alignment))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +78,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, field.alignment)
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..b9f8164 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -49,6 +49,14 @@ class DescriptorField(renew.Mold):
             self.type._encode = staticmethod(opt_encode)
             self.type._decode = staticmethod(opt_decode)
 
+    @property
+    def alignment(self):
+        return self.type._OPTIONAL_ALIGNMENT if self.type._OPTIONAL else self.type._ALIGNMENT
+
+    @property
+    def size(self):
+        return self.type._OPTIONAL_SIZE if self.type._OPTIONAL else self.type._SIZE
+
     @property
     def kind(self):
         if codec_kind.is_array(self.type):
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..845415b 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -201,25 +201,25 @@ class struct_generator(_composite_generator_base):
         cls._DYNAMIC = any(type_._DYNAMIC for type_ in cls._types())
         cls._OPTIONAL = False
         cls._PARTIAL_ALIGNMENT = None
-        cls._SIZE = sum((type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE) for type_ in cls._types())
+        cls._SIZE = sum(field.size for field in cls._descriptor)
         cls._UNLIMITED = any(type_._UNLIMITED for type_ in cls._types())
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(field.alignment for field in cls._descriptor)
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
+        for field in reversed(cls._descriptor):
+            type_ = field.type
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(field.alignment, alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
-                types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [field.size for field in cls._descriptor]
+                alignments = [field.alignment for field in cls._descriptor[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From d8e0bd8c9aa50c941cabb177a2b7c61e7f671176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:19 +0000
Subject: [PATCH 02/61] fix: start a new block after a nested dynamic struct in
 the Python codec

The alignment of the block following a dynamic field was applied only after
arrays and bytes. It is now a property of the field, so it also applies after
a field whose type is a dynamic struct, as the compiler and the C++ codec do.
---
 prophy/composite.py  | 8 ++++----
 prophy/descriptor.py | 4 +++-
 prophy/generators.py | 6 ++++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 2482d2f..6f87a40 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -63,8 +63,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), field.alignment))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -83,8 +83,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index b9f8164..8388c27 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,7 +11,7 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
@@ -21,6 +21,8 @@ class DescriptorField(renew.Mold):
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
         self.decode_fcn = None
+        # alignment of the block following a dynamic field, set in struct's add_attributes
+        self.partial_alignment = None
 
     def __repr__(self):
         is_union_descriptor = self.discriminator is not None
diff --git a/prophy/generators.py b/prophy/generators.py
index 845415b..daedb26 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -211,8 +211,10 @@ class struct_generator(_composite_generator_base):
         alignment = 1
         for field in reversed(cls._descriptor):
             type_ = field.type
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
             alignment = max(field.alignment, alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
-- 
2.43.0


From adbc9fd58d2dd9dbf79cdf51365561744650f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:49 +0000
Subject: [PATCH 03/61] fix: encode and print untouched bytes fields on Python
 3

The default of a dynamic, limited or greedy bytes field is a text string.
Encoding a message with such a field left untouched raised TypeError, and
str() printed an unbalanced quote for it.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 6f87a40..6762c4b 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -21,7 +21,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -212,7 +212,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From 94bb85c00deece1937c0d23f60f5fa925c4b8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:50 +0000
Subject: [PATCH 04/61] fix: decode optional enums that have no enumerator
 equal to 1

The optional field was first set to True to mark it present, which an enum
without an enumerator of value 1 refuses.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 8388c27..445791d 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -111,7 +111,8 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
+        if codec_kind.is_composite(type_):
+            setattr(parent, name, True)
         sub_type = type_.__bases__[0]
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
-- 
2.43.0


From 01f87fb4358222b854dab15208ab8f05582d083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:39 +0000
Subject: [PATCH 05/61] fix: accept union discriminators above INT_MAX in the
 C++ full codec

---
 prophy_cpp/include/prophy/detail/mpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..d0f77ef 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -1,6 +1,8 @@
 #ifndef _PROPHY_DETAIL_MPL_HPP
 #define _PROPHY_DETAIL_MPL_HPP
 
+#include <stdint.h>
+
 namespace prophy
 {
 namespace detail
@@ -17,7 +19,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <int64_t I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From e855df260614134579749b8967daf1a1409eabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:39 +0000
Subject: [PATCH 06/61] fix: check bounds when the C++ decoder skips an absent
 optional

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..d6290ba 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From b763fef5123ff64eb5ba68e527fa474f5246cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:01 +0000
Subject: [PATCH 07/61] fix: bound the memory the C++ decoder requests for an
 array by the input size

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index d6290ba..af7dae2 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -371,11 +371,14 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    if (n > max)
+    const size_t count = static_cast<size_t>(n);
+    if (count > max)
     {
         return false;
     }
-    v.resize(n);
+    // counter exceeding the input makes decoding of elements fail, one element too many is enough for that
+    const size_t fitting = size_t(end - pos) / (codec_traits<T>::size == -1 ? 1 : codec_traits<T>::size);
+    v.resize(count > fitting ? fitting + 1 : count);
     return true;
 }
 
-- 
2.43.0


From 5a94faf548130c7623a9494826c9a689dc9ad7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:39 +0000
Subject: [PATCH 08/61] fix: do not swallow a truncated element of a C++ greedy
 array

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index af7dae2..e754e56 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -278,9 +278,11 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* start = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
+                pos = start;
                 v.pop_back();
                 return true;
             }
-- 
2.43.0


From 8c00ab3277a90e58b6e7d6d640f7ca31a952f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:21 +0000
Subject: [PATCH 09/61] fix: classify a struct with a dynamic array and an
 unlimited tail as unlimited

---
 prophyc/model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..84c6e2a 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -334,10 +334,8 @@ class _SerializableContainer(_Container, _Serializable):
 
                 if self.members[-1].greedy:
                     self.kind = Kind.UNLIMITED
-                elif any(x.is_dynamic for x in self.members):
-                    self.kind = Kind.DYNAMIC
                 else:
-                    self.kind = max(x.kind for x in self.members)
+                    self.kind = max(Kind.DYNAMIC if x.is_dynamic else x.kind for x in self.members)
 
 
 class Struct(_SerializableContainer):
-- 
2.43.0


From 75425f1d65aab8d0c33dcb0d55906fcd465433ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 10/61] fix: pad a dynamic struct that ends with an optional of
 a narrow type

---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 84c6e2a..cd02296 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -575,7 +575,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                last_ends_aligned = prev_member.alignment == alignment and prev_member.byte_size % alignment == 0
+                prev_member.padding = 0 if last_ends_aligned else -alignment
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From 6ef477a19483a1f5bff7064d8e810f1b835bfd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:54 +0000
Subject: [PATCH 11/61] fix: count a trailing fixed member of a dynamic struct
 in C++ get_byte_size

---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From 8f25722ab248e983851e44433182d6705b9ccf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:00 +0000
Subject: [PATCH 12/61] fix: align the value of a C++ optional by its wire
 alignment

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 12 +++++++++---
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 +++++++++---
 prophyc/generators/cpp_full.py               | 18 ++++++++++++++++--
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index e754e56..87d9679 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -324,7 +324,7 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
     return decoder<E, T>::decode(x, n, pos, end);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t Alignment, typename T>
 inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
 {
     uint32_t disc;
@@ -333,9 +333,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (Alignment > sizeof(uint32_t))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
+        if (!do_decode_advance(Alignment - sizeof(uint32_t), pos, end))
         {
             return false;
         }
@@ -347,6 +347,12 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
+template <endianness E, typename T>
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    return do_decode<E, alignment<T>::value>(x, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..468a318 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -237,13 +237,13 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
     return encoder<E, T>::encode(data, x, n);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t Alignment, typename T>
 inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (Alignment > sizeof(uint32_t))
     {
-        data = data + alignment<T>::value - sizeof(uint32_t);
+        data = data + Alignment - sizeof(uint32_t);
     }
     if (x)
     {
@@ -252,6 +252,12 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+template <endianness E, typename T>
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+{
+    return do_encode<E, alignment<T>::value>(data, x);
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..5ae9fb0 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -63,6 +63,20 @@ def _get_cpp_builtin_type(node):
     return BUILTIN2C[_get_leaf(node).type_name]
 
 
+def _holds_vector(node):
+    """Tells if std::vector, whose C++ alignment is not the wire one, is anywhere in node's C++ type."""
+    leaf = _get_leaf(node)
+    return isinstance(leaf, (model.Struct, model.Union)) and any(
+        getattr(m, 'bound', None) or getattr(m, 'greedy', None) or _holds_vector(m) for m in leaf.members)
+
+
+def _get_optional_params(m):
+    """Gets codec template parameters for optional member."""
+    if _holds_vector(m):
+        return 'E, {0}'.format(max(DISC_SIZE, _get_leaf(m).alignment))
+    return 'E'
+
+
 def _to_literal(value):
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
@@ -347,7 +361,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<{1}>(pos, x.{0});\n'.format(m.name, _get_optional_params(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -382,7 +396,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<{1}>(x.{0}, pos, end)'.format(m.name, _get_optional_params(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From 5d0876b7cc4e4d9cb2bb094672b4a50c0b22461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:26 +0000
Subject: [PATCH 13/61] fix: pad between flag and 8-byte aligned value of
 optionals in raw C++ structs

---
 prophyc/generators/cpp.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..4a7a6d0 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,16 @@ def _to_literal(value):
         return value
 
 
+def _get_type_alignment(member):
+    """Gets alignment of member's type alone, not influenced by optional or by preceding dynamic field."""
+    node = member
+    while getattr(node, 'definition', None):
+        node = node.definition
+    if isinstance(node, model.Typedef):
+        return model.BUILTIN_SIZES.get(node.type_name)
+    return getattr(node, 'alignment', None)
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -121,7 +131,10 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
-                field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
+                flag = 'prophy::bool_t has_{0};\n'.format(member.name)
+                if _get_type_alignment(member) == 8:
+                    flag += padder.generate_padding(4)
+                field = flag + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
             return field
-- 
2.43.0


From 3d6acefc94eeb30ca2dab61c789f4501f018600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:24 +0000
Subject: [PATCH 14/61] fix: do not round up the address of an unlimited member
 returned by raw C++ swap

When the last member of a struct is unlimited, swap returns the address of that
member. It was rounded up to the alignment of the whole struct, which points past
the first elements whenever the member has a lower alignment than the struct.
---
 prophyc/generators/cpp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 4a7a6d0..96e47e4 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -294,7 +294,10 @@ class _CppSwapTranslator(TranslatorBase):
 
         def gen_last_member(name, last_mem, delimiters=[]):
             if last_mem.kind == model.Kind.UNLIMITED or last_mem.greedy:
-                return 'return cast<{0}*>({1});\n'.format(
+                # address of the member, not rounded up to alignment of the whole struct
+                is_lower_aligned = name == struct.name and last_mem.alignment < struct.alignment
+                return 'return {0}<{1}*>({2});\n'.format(
+                    'reinterpret_cast' if is_lower_aligned else 'cast',
                     name,
                     _member_access_statement(last_mem)
                 )
-- 
2.43.0


From db3fd92f9116b080ab3a87e16107030a2c2754c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:47 +0000
Subject: [PATCH 15/61] fix: keep number base of the stream when printing bytes
 in C++

Printing an unprintable byte left std::hex set, so every number printed
later in the same message came out in hexadecimal.
---
 prophy_cpp/include/prophy/detail/printer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..51ecd72 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -36,10 +36,8 @@ inline void print_byte(std::ostream& out, uint8_t x)
     }
     else
     {
-        out << "\\x";
-        out.width(2);
-        out.fill('0');
-        out << std::hex << unsigned(x);
+        static const char digits[] = "0123456789abcdef";
+        out << "\\x" << digits[x >> 4] << digits[x & 15];
     }
 }
 
-- 
2.43.0


From 8910f3aff8eef09697f043a86704a9920af06c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:00 +0000
Subject: [PATCH 16/61] fix: print bytes holding quotes in C++ the same way as
 in Python

Single quotes inside the bytes were printed unescaped.
---
 prophy_cpp/include/prophy/detail/printer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index 51ecd72..64e5b9b 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -1,6 +1,7 @@
 #ifndef _PROPHY_DETAIL_PRINTER_HPP_
 #define _PROPHY_DETAIL_PRINTER_HPP_
 
+#include <string.h>
 #include <prophy/detail/codec_traits.hpp>
 #include <prophy/detail/message_impl.hpp>
 
@@ -55,14 +56,22 @@ inline std::ostream& operator<<(std::ostream& out, uint8_t x)
 
 inline std::ostream& operator<<(std::ostream& out, std::pair<const uint8_t*, size_t> bytes)
 {
-    out << '\'';
+    // double quotes are used only when they spare escaping of single ones, same as in Python
+    const bool has_single = bytes.second && memchr(bytes.first, '\'', bytes.second);
+    const bool has_double = bytes.second && memchr(bytes.first, '"', bytes.second);
+    const char quote = has_single && !has_double ? '"' : '\'';
+    out << quote;
     while (bytes.second)
     {
+        if (*bytes.first == quote)
+        {
+            out << '\\';
+        }
         print_byte(out, *bytes.first);
         ++bytes.first;
         --bytes.second;
     }
-    out << '\'';
+    out << quote;
     return out;
 }
 
-- 
2.43.0


From 15ba33c19530cda5192f069014ba61f1b4d49562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:41 +0000
Subject: [PATCH 17/61] fix: refuse float values which can't be encoded

Integers beyond double range and values beyond single precision range
were accepted by assignment and made encode raise OverflowError.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..3cc300c 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack(id_, value)
+            except OverflowError:
+                raise ProphyError("value: {} out of {}B float's bounds".format(value, size))
             return value
 
         cls._check = check
-- 
2.43.0


From 7797f99d4aef2ecdfb08b45a969038340d03c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:26 +0000
Subject: [PATCH 18/61] fix: hold plain integers in integer fields

A bool assigned to an integer field was printed as True or False.
---
 prophy/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index 3cc300c..7f0e168 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -46,7 +46,7 @@ def int_decorator(size, id_, min_, max_):
                 raise ProphyError("not an int")
             if not min_ <= value <= max_:
                 raise ProphyError("value: {} out of {}B integer's bounds: [{}, {}]".format(value, size, min_, max_))
-            return value
+            return int(value)
 
         cls._check = check
 
-- 
2.43.0


From f5e3c94c43ba97521d8941039c40b86002f43268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:10 +0000
Subject: [PATCH 19/61] fix: refuse greedy messages cut off inside their
 trailing padding

---
 prophy/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy/composite.py b/prophy/composite.py
index 6762c4b..251b5a8 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -90,6 +90,8 @@ class struct(_composite_base):
 
         if terminal and pos < len(data):
             raise ProphyError("not all bytes of {} read".format(self.__class__.__name__))
+        if terminal and self._UNLIMITED and pos > len(data):
+            raise ProphyError("too few bytes to decode {}".format(self.__class__.__name__))
 
         return pos - start_pos
 
-- 
2.43.0


From c9574b9a2d7243fcc35aa5ee7a590a6206d5776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:44 +0000
Subject: [PATCH 20/61] fix: copy optional composites and limited composite
 arrays in copy_from

---
 prophy/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 251b5a8..b527186 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -103,7 +103,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -112,6 +112,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
-- 
2.43.0


From cf78bb3cb300572d8a630a2d97cb4daf30d473ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:44 +0000
Subject: [PATCH 21/61] fix: let optional composites copy from plain messages
 of their type

---
 prophy/optional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy/optional.py b/prophy/optional.py
index 243e3a0..94d70cc 100644
--- a/prophy/optional.py
+++ b/prophy/optional.py
@@ -18,4 +18,6 @@ def optional(cls):
     _optional._OPTIONAL_SIZE = _optional._OPTIONAL_ALIGNMENT + cls._SIZE
     _optional._OPTIONAL = True
     _optional._optional_type = scalar.u32
+    if hasattr(cls, "validate_copy_from"):
+        _optional.validate_copy_from = cls.validate_copy_from
     return _optional
-- 
2.43.0


From 64ccafc1c1d93ae43824c28bb374808d4082cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:44 +0000
Subject: [PATCH 22/61] fix: make Python arrays follow list slices and stay
 unchanged when an operation is refused

---
 prophy/container.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..f9a5968 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -36,6 +36,14 @@ def composite_array_eq(self, other):
     return self._values == other._values
 
 
+def check_elements(tp, values):
+    try:
+        values = list(values)
+    except TypeError:
+        raise ProphyError("'{}' has no length".format(type(values).__name__))
+    return [tp._check(value) for value in values]
+
+
 class fixed_scalar_array(base_array):
     __slots__ = []
 
@@ -45,15 +53,16 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = check_elements(self._TYPE, value)
+            if len(self._values[idx]) != len(values):
+                raise ProphyError("setting slice with different length collection")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
-            raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -87,24 +96,26 @@ class bound_scalar_array(base_array):
     def extend(self, values):
         if not values:
             return
+        values = check_elements(self._TYPE, values)
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend(values)
 
     def remove(self, elem):
         self._values.remove(elem)
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = check_elements(self._TYPE, value)
+            if self._max_len and len(self) + len(values) - len(self._values[idx]) > self._max_len:
+                raise ProphyError("exceeded array limit")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
-            raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __delitem__(self, idx):
         del self._values[idx]
@@ -156,24 +167,26 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
-        if self._max_len and len(self) + len(elem_seq) > self._max_len:
-            raise ProphyError("exceeded array limit")
-
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+
+        if self._max_len and len(self) + len(new_elements) > self._max_len:
+            raise ProphyError("exceeded array limit")
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 4047562aa9be03425bac13ba227daee0a5cc541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:07 +0000
Subject: [PATCH 23/61] fix: refuse more elements than the sizer of a Python
 array can count

---
 prophy/composite.py  | 7 ++++---
 prophy/generators.py | 2 ++
 prophy/scalar.py     | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index b527186..4bf6dea 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -203,13 +203,14 @@ def bytes_(**kwargs):
         _BOUND = bound
         _BOUND_SHIFT = shift
         _PARTIAL_ALIGNMENT = None
+        _max_len = size
         _is_prophy_object = True
 
-        @staticmethod
-        def _check(value):
+        @classmethod
+        def _check(cls, value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if cls._max_len and len(value) > cls._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index daedb26..7725cf3 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -307,6 +307,8 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        countable = sizer_item.type._MAX - bound_shift
+        container_item.type._max_len = min(container_item.type._max_len or countable, countable)
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index 7f0e168..e875196 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From 4fb777c8d5d5514d7ac0dcfc0ac1d104ce317365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:12 +0000
Subject: [PATCH 24/61] fix: refuse doubles too large for 4-byte float fields

---
 prophy/scalar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index e875196..5c0f079 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -67,8 +67,8 @@ def float_decorator(size, id_):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
             try:
-                struct.pack(id_, value)
-            except OverflowError:
+                struct.pack('<' + id_, value)
+            except (OverflowError, struct.error):
                 raise ProphyError("value: {} out of {}B float's bounds".format(value, size))
             return value
 
-- 
2.43.0


From 7882351b78743bba40af91ddae6e297fd401ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:11 +0000
Subject: [PATCH 25/61] fix: divide integers in constant expressions

---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 926785791ca2fc310f1f23c42ad34eef65f7283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:50 +0000
Subject: [PATCH 26/61] fix: give every back-end the value of an operator
 expression instead of its text

---
 prophyc/model.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index cd02296..918e4c9 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -481,6 +481,34 @@ def cross_reference(nodes, warn=null_warn):
     return constants
 
 
+def fold_expressions(nodes, constants):
+    """
+    Replaces operator expressions with their values.
+    Target languages understand operators (precedence, division, overflow) in their own ways.
+    """
+
+    def fold(text):
+        if not isinstance(text, six.string_types) or not set(text) & set("+-*/<>|()"):
+            return text
+        try:
+            return str(to_int(text, constants))
+        except calc.ParseError:
+            return text
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            node._value = fold(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                member._value = fold(member.value)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                member.size = fold(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                member.discriminator = fold(member.discriminator)
+
+
 def to_int(x, constants):
     try:
         return int(x)
@@ -620,6 +648,7 @@ def partition(members):
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
+    fold_expressions(nodes, constants)
     evaluate_stiffness_kinds(nodes)
     evaluate_sizes(nodes, warn_emitter)
     return nodes, constants
-- 
2.43.0


From fac1dbe91db776335e9fc63be39b6670fe435982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 27/61] fix: let generated Python use enumerators where it
 doesn't know their names

---
 prophyc/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 918e4c9..9a5afb0 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -485,10 +485,17 @@ def fold_expressions(nodes, constants):
     """
     Replaces operator expressions with their values.
     Target languages understand operators (precedence, division, overflow) in their own ways.
+    Enumerators are replaced too, since generated Python knows them by names neither inside
+    of their enum nor in modules importing it.
     """
+    symbols = (symbol for node in nodes
+               for symbol in (node.defined_symbols() if isinstance(node, Include) else [node]))
+    enumerators = set(member.name for symbol in symbols if isinstance(symbol, Enum) for member in symbol.members)
 
     def fold(text):
-        if not isinstance(text, six.string_types) or not set(text) & set("+-*/<>|()"):
+        if not isinstance(text, six.string_types):
+            return text
+        if text not in enumerators and not set(text) & set("+-*/<>|()"):
             return text
         try:
             return str(to_int(text, constants))
-- 
2.43.0


From 8e3db143127f1dc3670385f1a365290c7a26a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:30 +0000
Subject: [PATCH 28/61] fix: reject dynamic optionals and array elements,
 unusable sizers and values over 32 bits in schemas

---
 prophyc/parsers/prophy.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..415feeb 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -138,6 +138,9 @@ class Parser(object):
             if member.bound:
                 bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))
                 if bound:
+                    self._parser_check(not bound.optional and not bound.is_array,
+                                       "Sizer of '{}' has to be neither optional nor array".format(name),
+                                       line, pos)
                     self._parser_check(self._is_type_sizer_compatible(bound.type_name),
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
@@ -145,6 +148,17 @@ class Parser(object):
                     self._parser_error("Sizer of '{}' has to be defined before the array".format(name),
                                        line, pos)
 
+            self._parser_check(
+                member.kind == model.Kind.FIXED or not (member.size or member.optional),
+                "dynamic type in fixed/limited array or optional field '{}'".format(name),
+                line, pos
+            )
+            self._parser_check(
+                member.kind != model.Kind.UNLIMITED or not member.is_array,
+                "unlimited type in array field '{}'".format(name),
+                line, pos
+            )
+
         for member, line, pos in members[:-1]:
             self._parser_check(
                 not member.greedy and member.kind != model.Kind.UNLIMITED,
@@ -228,7 +242,7 @@ class Parser(object):
         t[0] = [t[1]]
 
     def p_enum_member(self, t):
-        '''enum_member : unique_id EQUALS expression'''
+        '''enum_member : unique_id EQUALS u32_expression'''
         member = model.EnumMember(t[1], str(t[3]))
         self.constdecls[t[1]] = member
         t[0] = member
@@ -351,7 +365,7 @@ class Parser(object):
         t[0] = [t[1]]
 
     def p_union_member(self, t):
-        '''union_member : expression COLON type_spec ID'''
+        '''union_member : u32_expression COLON type_spec ID'''
         t[0] = (model.UnionMember(t[4], t[3][0], str(t[1]), definition=t[3][1]), t.lineno(4), t.lexpos(4))
 
     def p_type_spec_1(self, t):
@@ -400,6 +414,15 @@ class Parser(object):
         )
         t[0] = t[1]
 
+    def p_u32_expression(self, t):
+        '''u32_expression : expression'''
+        self._parser_check(
+            0 <= t[1] <= 0xFFFFFFFF,
+            "value '{}' out of 32-bit unsigned range".format(t[1]),
+            t.lineno(1), t.lexpos(1)
+        )
+        t[0] = t[1]
+
     def p_expression_binop(self, t):
         '''expression : expression '+' expression
                       | expression '-' expression
-- 
2.43.0


From 8305e9c80f894e2141068927e0819fff47d4f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:30 +0000
Subject: [PATCH 29/61] fix: generate C++ printing of enums whose enumerators
 share a value

---
 prophyc/generators/cpp_full.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 5ae9fb0..1650daf 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -84,6 +84,18 @@ def _to_literal(value):
         return value
 
 
+def _get_printable_enumerators(enum):
+    """Out of enumerators with the same value Python codec knows the last one."""
+    def get_value(member):
+        try:
+            return int(member.value, 0)
+        except ValueError:
+            return member.value
+
+    last = dict((get_value(m), m.name) for m in enum.members)
+    return [m for m in enum.members if last[get_value(m)] == m.name]
+
+
 class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
@@ -232,7 +244,7 @@ class _CppTranslator(TranslatorBase):
                     'switch (x)\n' +
                     '{\n' +
                     _indent(
-                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members) +
+                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in _get_printable_enumerators(node)) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From cd0122cac9d789d5aa91e64a3c184676df1b60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:00 +0000
Subject: [PATCH 30/61] fix: report duplicate fields and out of range
 expressions as located schema errors

---
 prophyc/calc.py           | 31 +++++++++++++++++++---
 prophyc/model.py          | 18 ++++++++-----
 prophyc/parsers/prophy.py | 56 +++++++++++++++++++++++++++------------
 3 files changed, 78 insertions(+), 27 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..2baf82b 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -6,6 +6,26 @@ class ParseError(Exception):
     pass
 
 
+MAX_BITS = 1024
+
+
+def check_range(value):
+    if value.bit_length() > MAX_BITS:
+        raise ParseError("expression value over %s bits" % MAX_BITS)
+
+
+def shift_left(value, count):
+    if not 0 <= count <= MAX_BITS:
+        raise ParseError("shift count out of range")
+    return value << count
+
+
+def shift_right(value, count):
+    if not 0 <= count <= MAX_BITS:
+        raise ParseError("shift count out of range")
+    return value >> count
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -39,6 +59,8 @@ class Calc(object):
     @staticmethod
     def t_CONST10(t):
         r"""\d+"""
+        if len(t.value) > MAX_BITS:
+            raise ParseError("number too long")
         t.value = int(t.value)
         return t
 
@@ -74,13 +96,16 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
+            if not p[3]:
+                raise ParseError("division by zero")
             p[0] = p[1] // p[3]
         elif p[2] == '<<':
-            p[0] = p[1] << p[3]
+            p[0] = shift_left(p[1], p[3])
         elif p[2] == '>>':
-            p[0] = p[1] >> p[3]
+            p[0] = shift_right(p[1], p[3])
         elif p[2] == '|':
             p[0] = p[1] | p[3]
+        check_range(p[0])
 
     @staticmethod
     def p_expression_uminus(p):
@@ -108,7 +133,7 @@ class Calc(object):
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
-        raise ParseError("syntax error at '%s'" % p.value)
+        raise ParseError(p and "syntax error at '%s'" % p.value or "unexpected end of expression")
 
 
 calc = Calc()
diff --git a/prophyc/model.py b/prophyc/model.py
index 9a5afb0..fc7e297 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -16,7 +16,8 @@ class ParseError(Exception):
 
 class ModelError(Exception):
     """ General error for model tree construction errors. """
-    pass
+    errors = ()
+    """Optional collection of 2-tuples of location and message."""
 
 
 class Kind:
@@ -667,9 +668,12 @@ class ModelParser(object):
         self.patcher = patcher
         self.emit = emit
 
-    def __call__(self, *parse_args):
-        nodes = self.parser.parse(*parse_args)
-        if self.patcher:
-            self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
-        return nodes
+    def __call__(self, content, path, *parse_args):
+        try:
+            nodes = self.parser.parse(content, path, *parse_args)
+            if self.patcher:
+                self.patcher(nodes)
+            nodes, _ = evaluate_model(nodes, self.emit.warn)
+            return nodes
+        except ModelError as e:
+            raise ParseError(e.errors or [(path, str(e))])
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 415feeb..c2abf5b 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 import ply.lex as lex
 import ply.yacc as yacc
 
-from prophyc import file_processor, model, six
+from prophyc import calc, file_processor, model, six
 
 
 def get_column(input_, pos):
@@ -42,17 +42,17 @@ class Parser(object):
 
     def t_CONST16(self, t):
         r'0x[0-9a-fA-F]+'
-        t.value = int(t.value, 16)
+        t.value = self._to_int(t, 16)
         return t
 
     def t_CONST8(self, t):
         r'0[0-7]+'
-        t.value = int(t.value, 8)
+        t.value = self._to_int(t, 8)
         return t
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
-        t.value = int(t.value)
+        t.value = self._to_int(t, 10)
         return t
 
     t_LBRACKET = r'\['
@@ -125,6 +125,12 @@ class Parser(object):
         if not condition:
             self._parser_error(message, line, pos)
 
+    def _to_int(self, token, base):
+        if len(token.value) > 100:
+            self._parser_error("number too long", token.lexer.lineno, token.lexpos)
+            return 0
+        return int(token.value, base)
+
     def _validate_struct_members(self, members):
         fieldnames = set()
         for i, (member, line, pos) in enumerate(members):
@@ -174,6 +180,14 @@ class Parser(object):
         else:
             return False
 
+    def _add_container(self, node_type, name, members, line):
+        try:
+            node = node_type(name, members)
+            self.typedecls[name] = node
+            self.nodes.append(node)
+        except model.ModelError as e:  # actual raise is postponed till end of parsing
+            self._parser_error(str(e), line, 0)
+
     def p_specification(self, t):
         '''specification : definition_list'''
 
@@ -219,15 +233,17 @@ class Parser(object):
 
     def p_constant_def(self, t):
         '''constant_def : CONST unique_id EQUALS expression SEMI'''
-        node = model.Constant(t[2], str(t[4]))
+        value = t[4]
+        if not -0x8000000000000000 <= value <= 0xFFFFFFFFFFFFFFFF:
+            self._parser_error("value of '{}' out of 64-bit range".format(t[2]), t.lineno(4), t.lexpos(4))
+            value = 0
+        node = model.Constant(t[2], str(value))
         self.constdecls[t[2]] = node
         self.nodes.append(node)
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
-        node = model.Enum(t[2], t[3])
-        self.typedecls[t[2]] = node
-        self.nodes.append(node)
+        self._add_container(model.Enum, t[2], t[3], t.lexer.lineno)
 
     def p_enum_body(self, t):
         '''enum_body : LBRACE enum_member_list RBRACE'''
@@ -257,12 +273,7 @@ class Parser(object):
         '''struct_def : STRUCT unique_id struct_body SEMI'''
 
         self._validate_struct_members(t[3])
-        try:
-            node = model.Struct(t[2], [x for x, _, _ in t[3]])
-            self.typedecls[t[2]] = node
-            self.nodes.append(node)
-        except model.ModelError as e:  # actual raise is postponed till end of parsing
-            self._parser_error(str(e), t.lexer.lineno, 0)
+        self._add_container(model.Struct, t[2], [x for x, _, _ in t[3]], t.lexer.lineno)
 
     def p_struct_body(self, t):
         '''struct_body : LBRACE struct_member_list RBRACE'''
@@ -348,7 +359,11 @@ class Parser(object):
                 line, pos
             )
 
-        node = model.Union(t[2], [x for x, _, _ in t[3]])
+        try:
+            node = model.Union(t[2], [x for x, _, _ in t[3]])
+        except model.ModelError as e:
+            e.errors = self.errors
+            raise
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
@@ -440,15 +455,22 @@ class Parser(object):
             elif t[2] == '/':
                 t[0] = t[1] // t[3]
             elif t[2] == '<<':
-                t[0] = t[1] << t[3]
+                t[0] = calc.shift_left(t[1], t[3])
             elif t[2] == '>>':
-                t[0] = t[1] >> t[3]
+                t[0] = calc.shift_right(t[1], t[3])
+            calc.check_range(t[0])
         except ZeroDivisionError:
             self._parser_error(
                 'division by zero',
                 t.lineno(1), t.lexpos(1)
             )
             t[0] = 0
+        except calc.ParseError as e:
+            self._parser_error(
+                str(e),
+                t.lineno(1), t.lexpos(1)
+            )
+            t[0] = 0
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
-- 
2.43.0


From 75dcebda1834595dd7e80090605ddceb4a90583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:10 +0000
Subject: [PATCH 31/61] fix: sort definitions by every name they use and refuse
 cyclic ones

---
 prophyc/model.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index fc7e297..2c6a6e5 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -99,12 +100,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _find_names(self.value)
 
 
 class EnumMember(Constant):
@@ -166,7 +162,7 @@ class Typedef(_Serializable):
             self.kind = self.lowermost_typedef.kind
 
     def dependencies(self):
-        yield self.type_name
+        return [self.type_name]
 
 
 class StructMember(Typedef):
@@ -190,6 +186,9 @@ class StructMember(Typedef):
         """amount of bytes to add before next field. If field dynamic: negative alignment of next field"""
         self.padding = None
 
+    def dependencies(self):
+        return super(StructMember, self).dependencies() + _find_names(self.size)
+
     @property
     def is_array(self):
         return self.bound or self.size or self.greedy
@@ -233,6 +232,9 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        return super(UnionMember, self).dependencies() + _find_names(self.discriminator)
+
 
 """ Composite kinds """
 
@@ -317,8 +319,8 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
-        for member in self.members:
-            yield member.name
+        own_names = set(member.name for member in self.members)
+        return [dep for dep in super(Enum, self).dependencies() if dep not in own_names]
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -363,6 +365,11 @@ def _check_string(docstring, what_):
     return six.decode_string(docstring)
 
 
+def _find_names(expression):
+    """ Lists names which expression refers to. """
+    return re.findall(r"\b[A-Za-z_]\w*", expression) if isinstance(expression, six.string_types) else []
+
+
 def split_after(nodes, predicate):
     part = []
     for x in nodes:
@@ -384,9 +391,16 @@ def null_warn(_):
 def topological_sort(nodes):
     """Sorts nodes."""
 
+    def get_symbols(node):
+        if isinstance(node, Include):
+            return []
+        if isinstance(node, Enum):
+            return [node.name] + [member.name for member in node.members]
+        return [node.name]
+
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if n.name == dependency:
+            if dependency in get_symbols(n):
                 return i
 
     def model_sort_rotate():
@@ -394,16 +408,18 @@ def topological_sort(nodes):
         for dep in node.dependencies():
             if dep not in known and dep in available:
                 found_index = find_first_dep(dep, index + 1)
-                if found_index:
-                    nodes.insert(index, nodes.pop(found_index))
+                if not found_index or rotations > len(nodes):
+                    raise ModelError("definition of '%s' depends on itself" % node.name)
+                nodes.insert(index, nodes.pop(found_index))
                 return True
-        known.add(node.name)
+        known.update(get_symbols(node))
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = set(symbol for node in nodes for symbol in get_symbols(node))
     for index in range(len(nodes)):
+        rotations = 0
         while model_sort_rotate():
-            pass
+            rotations += 1
 
 
 def _make_types_index(nodes_):
-- 
2.43.0


From b75d1295bff8dfc5d46ca870ba33ff337826be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:21 +0000
Subject: [PATCH 32/61] fix: report malformed isar, patch and undecodable files
 through prophyc errors

---
 prophyc/__init__.py       |  8 +++--
 prophyc/calc.py           |  4 +++
 prophyc/file_processor.py |  9 ++++--
 prophyc/model.py          |  4 ++-
 prophyc/parsers/isar.py   | 65 +++++++++++++++++++++++++++------------
 prophyc/patch.py          | 62 ++++++++++++++++++++-----------------
 6 files changed, 100 insertions(+), 52 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..d6e609c 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -49,7 +49,8 @@ def main(args):
     if not serializers and not opts.void_out:
         emit.error("missing output directives")
 
-    patcher = get_patcher(opts.patch)
+    with error_on_exception(emit):
+        patcher = get_patcher(opts.patch)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
     model_nodes = dict(flatten_included_defs(supplementary_nodes))
@@ -64,7 +65,8 @@ def main(args):
             basename = get_basename(input_file)
             model_nodes[basename] = nodes
 
-    generate_target_files(emit, serializers, model_nodes)
+    with error_on_exception(emit):
+        generate_target_files(emit, serializers, model_nodes)
 
     return model_nodes
 
@@ -160,3 +162,5 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except (model.ModelError, EnvironmentError, UnicodeError) as e:
+        emit.error(str(e))
diff --git a/prophyc/calc.py b/prophyc/calc.py
index 2baf82b..b5da00f 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -125,9 +125,13 @@ class Calc(object):
 
     def p_expression_name(self, p):
         """expression : NAME"""
+        visited = set()
         try:
             p[0] = p[1]
             while not isinstance(p[0], int):
+                if p[0] in visited:
+                    raise LookupError
+                visited.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..8c9040e 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -2,6 +2,8 @@ import codecs
 import os
 from contextlib import contextmanager
 
+from . import model
+
 
 class CyclicIncludeError(Exception):
     def __init__(self, path):
@@ -16,7 +18,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
@@ -81,7 +83,10 @@ class FileProcessor(object):
         self.files[abspath] = None
 
         with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+            try:
+                content = f.read()
+            except UnicodeDecodeError as e:
+                raise model.ParseError([(path, str(e))])
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
diff --git a/prophyc/model.py b/prophyc/model.py
index 2c6a6e5..e1ceca0 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -367,7 +367,9 @@ def _check_string(docstring, what_):
 
 def _find_names(expression):
     """ Lists names which expression refers to. """
-    return re.findall(r"\b[A-Za-z_]\w*", expression) if isinstance(expression, six.string_types) else []
+    if not isinstance(expression, six.string_types):
+        return []
+    return re.findall(r"\b[^\W\d]\w*", expression, re.UNICODE)
 
 
 def split_after(nodes, predicate):
diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..ba71074 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,10 +1,15 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
 from prophyc.file_processor import CyclicIncludeError, FileNotFoundError
 
 
+class IsarError(model.ModelError, ValueError):
+    """ Error for contents of isar xml. """
+
+
 def extract_operator_args(string_, pos):
     brackets = 0
     open_pos = pos
@@ -57,6 +62,20 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+def get_attribute(xml_elem, key):
+    value = xml_elem.get(key)
+    if not value:
+        raise IsarError("Attribute '{}' missing in element '{}'.".format(key, xml_elem.tag))
+    return value
+
+
+def get_name(xml_elem):
+    name = get_attribute(xml_elem, "name")
+    if not re.match(r"[^\W\d]\w*$", name, re.UNICODE):
+        raise IsarError("Name '{}' in element '{}' is not an identifier.".format(name, xml_elem.tag))
+    return name
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -75,8 +94,8 @@ def get_docstr(xml_elem):
 
 def make_constant(xml_elem):
     return model.Constant(
-        xml_elem.get("name"),
-        expand_operators(xml_elem.get("value")),
+        get_name(xml_elem),
+        expand_operators(get_attribute(xml_elem, "value")),
         docstring=get_docstr(xml_elem)
     )
 
@@ -84,15 +103,18 @@ def make_constant(xml_elem):
 def make_typedef(xml_elem):
     if "type" in xml_elem.attrib:
         return model.Typedef(
-            xml_elem.get("name"),
-            xml_elem.get("type"),
+            get_name(xml_elem),
+            get_attribute(xml_elem, "type"),
             docstring=get_docstr(xml_elem)
         )
 
     elif "primitiveType" in xml_elem.attrib and xml_elem.get("name") not in primitive_types.values():
+        primitive_type = xml_elem.get("primitiveType")
+        if primitive_type not in primitive_types:
+            raise IsarError("Unknown primitive type '{}'.".format(primitive_type))
         return model.Typedef(
-            xml_elem.get("name"),
-            primitive_types[xml_elem.get("primitiveType")],
+            get_name(xml_elem),
+            primitive_types[primitive_type],
             docstring=get_docstr(xml_elem)
         )
 
@@ -102,13 +124,13 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise IsarError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
         members = []
         for member in xml_elem:
-            value = member.get('value')
+            value = get_attribute(member, "value")
             try:
                 int_value = int(value, 0)
                 if int_value < 0:
@@ -116,19 +138,19 @@ def make_enum(xml_elem):
             except ValueError:
                 pass
             members.append(model.EnumMember(
-                member.get("name"),
+                get_name(member),
                 expand_operators(value),
                 docstring=get_docstr(member))
             )
 
-        enum = model.Enum(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        enum = model.Enum(get_name(xml_elem), members, docstring=get_docstr(xml_elem))
         check_for_duplicates(enum)
         return enum
 
 
 def make_struct_members(xml_elem, dynamic_array=False):
-    xml_elem_name = xml_elem.get("name")
-    xml_elem_type = xml_elem.get("type")
+    xml_elem_name = get_name(xml_elem)
+    xml_elem_type = get_attribute(xml_elem, "type")
     optional = xml_elem.get("optional")
     optional = bool(optional) and optional.lower() == "true"
     dimension = xml_elem.find("dimension")
@@ -172,7 +194,7 @@ def make_struct(xml_elem, last_member_array_is_dynamic=False):
         for member in xml_elem:
             for sub_ in make_struct_members(member, last_member_array_is_dynamic):
                 members.append(sub_)
-        return model.Struct(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        return model.Struct(get_name(xml_elem), members, docstring=get_docstr(xml_elem))
 
 
 def make_union(xml_elem):
@@ -180,12 +202,12 @@ def make_union(xml_elem):
         members = []
         for member in xml_elem:
             members.append(model.UnionMember(
-                member.get("name"),
-                member.get("type"),
-                member.get("discriminatorValue"),
+                get_name(member),
+                get_attribute(member, "type"),
+                get_attribute(member, "discriminatorValue"),
                 docstring=get_docstr(member),
             ))
-        return model.Union(xml_elem.get('name'), members, docstring=get_docstr(xml_elem))
+        return model.Union(get_name(xml_elem), members, docstring=get_docstr(xml_elem))
 
 
 class IsarParser(object):
@@ -193,14 +215,19 @@ class IsarParser(object):
     def __init__(self, warn=None):
         self.warn = warn
 
-    def parse(self, content, _, process_file):
+    def parse(self, content, path, process_file):
         # by default FileProcessor decodes files while opening in _process_file method,
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
 
         def collect():
-            root = ElementTree.fromstring(content)
+            try:
+                root = ElementTree.fromstring(content)
+            except (ElementTree.ParseError, LookupError, ValueError) as e:
+                location = ':'.join([path] + [str(x) for x in getattr(e, 'position', ())])
+                raise model.ParseError([(location, str(e))])
+
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..9bd1b3d 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -6,12 +6,18 @@ from . import model
 Action = namedtuple("Action", ["action", "params"])
 
 
+class PatchError(model.ModelError):
+    """ Error for rules which can't be applied. """
+
+
 def parse(filename):
     patches = defaultdict(list)
     with codecs.open(filename, "r", encoding="utf-8") as f:
         for line in f.readlines():
             if line.strip():
                 words = line.split()
+                if len(words) < 2:
+                    raise PatchError("Action missing: %s" % line.strip())
                 name, action = words[:2]
                 params = words[2:]
                 patches[name].append(Action(action, params))
@@ -29,22 +35,22 @@ def _apply(node, patches):
     for patch_ in patches:
         action = _actions.get(patch_.action)
         if not action:
-            raise Exception("Unknown action: %s %s" % (node.name, patch_))
+            raise PatchError("Unknown action: %s %s" % (node.name, patch_))
         node = action(node, patch_)
     return node
 
 
 def _type(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, tp = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.type_name = tp
@@ -53,14 +59,14 @@ def _type(node, patch_):
 
 def _insert(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can insert field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can insert field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 3:
-        raise Exception("Change field must have 3 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 3 params: %s %s" % (node.name, patch_))
     index, name, tp = patch_.params
 
     if not _is_int(index):
-        raise Exception("Index is not a number: %s %s" % (node.name, patch_))
+        raise PatchError("Index is not a number: %s %s" % (node.name, patch_))
     index = int(index)
 
     node.members.insert(index, model.StructMember(name, tp))
@@ -69,15 +75,15 @@ def _insert(node, patch_):
 
 def _remove(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can remove field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can remove field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 1:
-        raise Exception("Remove field must have 1 param: %s %s" % (node.name, patch_))
+        raise PatchError("Remove field must have 1 param: %s %s" % (node.name, patch_))
     name, = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     del node.members[i]
     return node
@@ -85,15 +91,15 @@ def _remove(node, patch_):
 
 def _dynamic(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, len_name = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.bound = len_name
@@ -104,15 +110,15 @@ def _dynamic(node, patch_):
 
 def _greedy(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 1:
-        raise Exception("Change field must have 1 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 1 params: %s %s" % (node.name, patch_))
     name, = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.greedy = True
@@ -124,15 +130,15 @@ def _greedy(node, patch_):
 
 def _static(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, size = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     node.members[i].bound = None
     node.members[i].size = None
@@ -146,19 +152,19 @@ def _static(node, patch_):
 
 def _limited(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, len_array = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     sizer_found = len(tuple(x for x in node.members[:i] if x.name == len_array))
     if not sizer_found:
-        raise Exception("Array len member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.bound = len_array
@@ -168,10 +174,10 @@ def _limited(node, patch_):
 
 def _struct(node, patch_):
     if not isinstance(node, model.Union):
-        raise Exception("Can only change union to struct: %s" % node.name)
+        raise PatchError("Can only change union to struct: %s" % node.name)
 
     if len(patch_.params):
-        raise Exception("Change union to struct takes no params: %s" % node.name)
+        raise PatchError("Change union to struct takes no params: %s" % node.name)
 
     def to_struct_member(member):
         return model.StructMember(name=member.name, type_name=member.type_name, definition=member.definition)
@@ -186,10 +192,10 @@ def _rename(node, patch_):
 
     def rename_field(node_, orig_name, new_name):
         if not isinstance(node_, (model.Struct, model.Union)):
-            raise Exception("Can rename fields only in composites: %s %s" % (node_.name, patch_))
+            raise PatchError("Can rename fields only in composites: %s %s" % (node_.name, patch_))
         member = next((x for x in node_.members if x.name == orig_name), None)
         if not member:
-            raise Exception("Member not found: %s %s" % (node_.name, patch_))
+            raise PatchError("Member not found: %s %s" % (node_.name, patch_))
         member.name = new_name
         return node_
 
@@ -199,7 +205,7 @@ def _rename(node, patch_):
     if len(patch_.params) == 2:
         return rename_field(node, patch_.params[0], patch_.params[1])
 
-    raise Exception("Rename must have 1 or 2 params: %s %s" % (node.name, patch_))
+    raise PatchError("Rename must have 1 or 2 params: %s %s" % (node.name, patch_))
 
 
 _actions = {
-- 
2.43.0


From c8ca094991d7c465e4ac0bd5d6a3141b2d1daeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:26 +0000
Subject: [PATCH 33/61] fix: multiply whole expressions of two-dimensional isar
 array sizes

---
 prophyc/parsers/isar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index ba71074..f598a24 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -163,7 +163,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
             size = dimension.get("size", None)
             size2 = dimension.get("size2", None)
             if size2:
-                size = "{}*{}".format(size, size2)
+                size = "*".join(x if re.match(r"\w+$", x) else "({})".format(x) for x in (str(size), size2))
             if optional:
                 yield model.StructMember("has_" + xml_elem_name, "u32", docstring="implicit enabler for optional field")
 
-- 
2.43.0


From fc2197f4b060981f58196542e34775e76b23d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:55 +0000
Subject: [PATCH 34/61] fix: generate C++ of files without definitions so that
 it compiles

---
 prophyc/generators/cpp_full.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 1650daf..4856889 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -235,6 +235,12 @@ namespace detail
 class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
+    @classmethod
+    def _block_post_process(cls, content, base_name, nodes):
+        block = super(_CppTranslator, cls)._block_post_process(content, base_name, nodes)
+        # header of an empty file doesn't open the namespace
+        return block if nodes else block.replace('using namespace prophy::generated;\n\n', '')
+
     def translate_enum(self, node):
         return (
                 'template <>\n' +
-- 
2.43.0


From adc65335373ef69e0f4149c38881b0a189334895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:36 +0000
Subject: [PATCH 35/61] fix: refuse isar, sack and patched definitions breaking
 composability rules

Only the prophy parser validated what it parsed. The other parsers and patches
could deliver structs with missing sizers, duplicate or dynamic members in wrong
places, for which code was generated that couldn't be used.
---
 prophyc/model.py | 77 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index e1ceca0..755b6f3 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -540,7 +540,7 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return val if isinstance(val, int) else calc.eval(x, constants)
 
 
 def evaluate_stiffness_kinds(nodes):
@@ -653,6 +653,78 @@ def evaluate_sizes(nodes, warn=null_warn):
             evaluate_sizes(node.members, warn)
 
 
+def check_composition(nodes, constants):
+    """
+    Refuses definitions breaking composability rules. Parsers which don't validate on their own and patches
+    may deliver such. Requires evaluated nodes, what's not known (e.g. member of unknown type) isn't checked.
+    """
+
+    def fail(node_, member, msg):
+        raise ModelError("%s::%s %s" % (node_.name, member.name, msg))
+
+    def evaluate(text):
+        try:
+            return to_int(text, constants)
+        except calc.ParseError:
+            return None
+
+    def check_u32(node_, member, text):
+        value = evaluate(text)
+        if value is not None and not 0 <= value <= 0xFFFFFFFF:
+            fail(node_, member, "value '%s' out of 32-bit range" % text)
+
+    def is_integer(member):
+        last = member
+        while isinstance(last, Typedef) and last.definition:
+            last = last.definition
+        if not isinstance(last, Typedef):
+            return False
+        return last.type_name not in BUILTIN_SIZES or last.type_name[0] in 'iu'
+
+    def check_sizer(node_, member, preceding):
+        sizer = next((x for x in preceding if x.name == member.bound), None)
+        if not sizer:
+            fail(node_, member, "has no sizer '%s' before it" % member.bound)
+        if sizer.optional or sizer.is_array or not is_integer(sizer):
+            fail(node_, member, "has sizer '%s' which is not an integer" % member.bound)
+
+    def check_struct(node_):
+        node_._check_members_duplication(node_.members)
+        for i, member in enumerate(node_.members):
+            if member.bound:
+                check_sizer(node_, member, node_.members[:i])
+            if member.numeric_size is not None and member.numeric_size <= 0:
+                fail(node_, member, "array has non-positive size '%s'" % member.size)
+            if member.kind != Kind.FIXED and (member.size or member.optional):
+                fail(node_, member, "is fixed, limited or optional, but its type isn't of fixed size")
+            if member.kind == Kind.UNLIMITED and member.is_array:
+                fail(node_, member, "is array of unlimited type")
+            if (member.kind == Kind.UNLIMITED or member.greedy) and member is not node_.members[-1]:
+                fail(node_, member, "is unlimited, but isn't the last one")
+
+    def check_union(node_):
+        node_._check_members_duplication(node_.members)
+        discriminators = set()
+        for member in node_.members:
+            member.calc_wire_stiffness()
+            if member.kind != Kind.FIXED:
+                fail(node_, member, "is dynamic")
+            check_u32(node_, member, member.discriminator)
+            discriminator = evaluate(member.discriminator)
+            if discriminator is not None and discriminator in discriminators:
+                fail(node_, member, "has duplicate discriminator '%s'" % member.discriminator)
+            discriminators.add(discriminator)
+
+    for node in nodes:
+        if isinstance(node, Struct):
+            check_struct(node)
+        elif isinstance(node, Union):
+            check_union(node)
+        elif isinstance(node, Enum):
+            for enumerator in node.members:
+                check_u32(node, enumerator, enumerator.value)
+
+
 def partition(members):
     """
     Splits struct members to parts, each of which ends with dynamic field.
@@ -691,7 +763,8 @@ class ModelParser(object):
             nodes = self.parser.parse(content, path, *parse_args)
             if self.patcher:
                 self.patcher(nodes)
-            nodes, _ = evaluate_model(nodes, self.emit.warn)
+            nodes, constants = evaluate_model(nodes, self.emit.warn)
+            check_composition(nodes, constants)
             return nodes
         except ModelError as e:
             raise ParseError(e.errors or [(path, str(e))])
-- 
2.43.0


From 72ac1aec41fca4bdacf47b4b3bf591d37c7b94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:11 +0000
Subject: [PATCH 36/61] fix: refuse names redefined through nested includes and
 isar names defined twice

Names of indirectly included files ended up in the same C++ scope, so that
redefinitions of them failed to compile.
---
 prophyc/model.py          |  9 +++++++++
 prophyc/parsers/prophy.py | 17 ++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 755b6f3..dbf9d1b 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -662,6 +662,14 @@ def check_composition(nodes, constants):
     def fail(node_, member, msg):
         raise ModelError("%s::%s %s" % (node_.name, member.name, msg))
 
+    def check_names():
+        known = {}
+        for node_ in nodes:
+            for symbol in (node_.defined_symbols() if isinstance(node_, Include) else [node_]):
+                for named in [symbol] + (symbol.members if isinstance(symbol, Enum) else []):
+                    if known.setdefault(named.name, named) is not named:
+                        raise ModelError("name '%s' redefined" % named.name)
+
     def evaluate(text):
         try:
             return to_int(text, constants)
@@ -715,6 +723,7 @@ def check_composition(nodes, constants):
                 fail(node_, member, "has duplicate discriminator '%s'" % member.discriminator)
             discriminators.add(discriminator)
 
+    check_names()
     for node in nodes:
         if isinstance(node, Struct):
             check_struct(node)
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index c2abf5b..760ea6b 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -111,6 +111,7 @@ class Parser(object):
         self.nodes = []
         self.typedecls = {}
         self.constdecls = {}
+        self.included = {}
         self.errors = []
         self.parse_error_prefix = parse_error_prefix
 
@@ -219,6 +220,15 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
+        for symbol in model.Include(stem, nodes).defined_symbols():
+            for named in [symbol] + (symbol.members if isinstance(symbol, model.Enum) else []):
+                declared = self.typedecls.get(named.name) or self.constdecls.get(named.name, named)
+                self._parser_check(
+                    declared is named and self.included.setdefault(named.name, named) is named,
+                    "name '{}' redefined".format(named.name),
+                    t.lineno(3), t.lexpos(3)
+                )
+
         for node in nodes:
             if isinstance(node, model.Constant):
                 self.constdecls[node.name] = node
@@ -243,6 +253,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            t[2] not in [member.name for member in t[3]],
+            "name '{}' redefined".format(t[2]),
+            t.lineno(1), t.lexpos(1)
+        )
         self._add_container(model.Enum, t[2], t[3], t.lexer.lineno)
 
     def p_enum_body(self, t):
@@ -414,7 +429,7 @@ class Parser(object):
     def p_unique_id(self, t):
         '''unique_id : ID'''
         self._parser_check(
-            t[1] not in self.typedecls and t[1] not in self.constdecls,
+            t[1] not in self.typedecls and t[1] not in self.constdecls and t[1] not in self.included,
             "name '{}' redefined".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
-- 
2.43.0


From 35ceb6ff61e30ef14fc1a26cd3b15f22c9d05e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:30 +0000
Subject: [PATCH 37/61] fix: accept sizers whose integer type is defined
 through nested includes

---
 prophyc/parsers/prophy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 760ea6b..8ccab1e 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -174,12 +174,10 @@ class Parser(object):
             )
 
     def _is_type_sizer_compatible(self, typename):
-        if typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}:
-            return True
-        elif typename in self.typedecls and isinstance(self.typedecls[typename], model.Typedef):
-            return self._is_type_sizer_compatible(self.typedecls[typename].type_name)
-        else:
-            return False
+        node = self.typedecls.get(typename)
+        while isinstance(node, model.Typedef):
+            typename, node = node.type_name, node.definition
+        return typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}
 
     def _add_container(self, node_type, name, members, line):
         try:
-- 
2.43.0


From f986acec944377a7f7ca847c64c7ae06ac6eeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:26 +0000
Subject: [PATCH 38/61] fix: apply patch rules only where documented

Rules were applied to includes named like a message, limited accepted fields
which are not fixed arrays, dynamic and static left fields greedy, and insert
and rename accepted names which are not identifiers.
---
 prophyc/patch.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 9bd1b3d..3b5731b 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -1,4 +1,5 @@
 import codecs
+import re
 from collections import namedtuple, defaultdict
 
 from . import model
@@ -27,7 +28,7 @@ def parse(filename):
 def patch(nodes, patch_dict):
     for idx, node in enumerate(nodes):
         patches = patch_dict.get(node.name)
-        if patches:
+        if patches and not isinstance(node, model.Include):
             nodes[idx] = _apply(node, patches)
 
 
@@ -68,6 +69,7 @@ def _insert(node, patch_):
     if not _is_int(index):
         raise PatchError("Index is not a number: %s %s" % (node.name, patch_))
     index = int(index)
+    _check_name(node, patch_, name)
 
     node.members.insert(index, model.StructMember(name, tp))
     return node
@@ -104,6 +106,7 @@ def _dynamic(node, patch_):
     mem = node.members[i]
     mem.bound = len_name
     mem.size = None
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -146,6 +149,7 @@ def _static(node, patch_):
     mem = node.members[i]
     mem.bound = None
     mem.size = size
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -167,6 +171,8 @@ def _limited(node, patch_):
         raise PatchError("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    if not mem.is_fixed:
+        raise PatchError("Not a fixed array: %s %s" % (node.name, patch_))
     mem.bound = len_array
     mem.optional = False
     return node
@@ -186,6 +192,9 @@ def _struct(node, patch_):
 
 
 def _rename(node, patch_):
+    if patch_.params:
+        _check_name(node, patch_, patch_.params[-1])
+
     def rename_node(node_, new_name):
         node_.name = new_name
         return node_
@@ -221,6 +230,11 @@ _actions = {
 }
 
 
+def _check_name(node, patch_, name):
+    if not re.match(r"[^\W\d]\w*$", name, re.UNICODE):
+        raise PatchError("Name is not an identifier: %s %s" % (node.name, patch_))
+
+
 def _is_int(s):
     try:
         int(s)
-- 
2.43.0


From b2c82c9441e24a18d28f63ff7471ba76a1a680f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:28 +0000
Subject: [PATCH 39/61] fix: refuse input files whose outputs would overwrite
 each other

---
 prophyc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index d6e609c..26f4e58 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -59,10 +59,13 @@ def main(args):
     model_parser = model.ModelParser(source_parser, patcher, emit)
     file_processor_ = FileProcessor(model_parser, opts.include_dirs)
 
+    input_nodes = {}
     for input_file in opts.input_files:
         with error_on_exception(emit):
             nodes = file_processor_(input_file)
             basename = get_basename(input_file)
+            if input_nodes.setdefault(basename, nodes) is not nodes:
+                emit.error("outputs of '{}' would overwrite ones of other input file".format(input_file))
             model_nodes[basename] = nodes
 
     with error_on_exception(emit):
-- 
2.43.0


From 7a8e833b7e152aa52e3f5461716e0e946b5f0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:51 +0000
Subject: [PATCH 40/61] fix: represent computed negative enumerators of isar by
 unsigned values

Only literal ones were, others failed in Python runtime.
---
 prophyc/model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index dbf9d1b..f277625 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -107,6 +107,11 @@ class EnumMember(Constant):
     _str_pattern = "{s.name} = {s.value!r};"
     __slots__ = ()
 
+    def eval_int(self, all_constants):
+        """ Enums are unsigned on wire, negative values are represented by respective unsigned ones. """
+        value = super(EnumMember, self).eval_int(all_constants)
+        return value + 0x100000000 if value is not None and value < 0 else value
+
 
 class _Serializable(ModelNode):
     _cls_make_slots = False
@@ -521,12 +526,20 @@ def fold_expressions(nodes, constants):
         except calc.ParseError:
             return text
 
+    def is_negative(text):
+        try:
+            return to_int(text, constants) < 0
+        except calc.ParseError:
+            return False
+
     for node in nodes:
         if isinstance(node, Constant):
             node._value = fold(node.value)
         elif isinstance(node, Enum):
             for member in node.members:
                 member._value = fold(member.value)
+                if is_negative(member.value):
+                    member._value = str(constants[member.name])
         elif isinstance(node, Struct):
             for member in node.members:
                 member.size = fold(member.size)
-- 
2.43.0


From 637b2d6f1e830dfbadd476a8299e846c2b922527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:13 +0000
Subject: [PATCH 41/61] fix: expand isar operators in array sizes and
 discriminators

---
 prophyc/parsers/isar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index f598a24..9159df7 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -160,8 +160,8 @@ def make_struct_members(xml_elem, dynamic_array=False):
         if dimension is None:
             yield model.StructMember(xml_elem_name, xml_elem_type, optional=optional, docstring=comment)
         else:
-            size = dimension.get("size", None)
-            size2 = dimension.get("size2", None)
+            size = expand_operators(dimension.get("size", "")) or None
+            size2 = expand_operators(dimension.get("size2", "")) or None
             if size2:
                 size = "*".join(x if re.match(r"\w+$", x) else "({})".format(x) for x in (str(size), size2))
             if optional:
@@ -204,7 +204,7 @@ def make_union(xml_elem):
             members.append(model.UnionMember(
                 get_name(member),
                 get_attribute(member, "type"),
-                get_attribute(member, "discriminatorValue"),
+                expand_operators(get_attribute(member, "discriminatorValue")),
                 docstring=get_docstr(member),
             ))
         return model.Union(get_name(xml_elem), members, docstring=get_docstr(xml_elem))
-- 
2.43.0


From bd37430e6c0c6f7b6ffa41bf8dc601ed073c33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:41 +0000
Subject: [PATCH 42/61] fix: generate usable Python of typedefs and union arms
 of type byte

---
 prophyc/generators/python.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..2b6c7aa 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -38,7 +38,7 @@ def _form_struct_member(member):
 
 
 def _form_union_member(member):
-    prefixed_type = u"%s.%s" % (libname, member.type_name) if member.type_name in primitive_types else member.type_name
+    prefixed_type = primitive_types.get(member.type_name, member.type_name)
     return u"('%s', %s, %s)" % (member.name, prefixed_type, member.discriminator)
 
 
@@ -101,12 +101,7 @@ else:
 
     @staticmethod
     def translate_typedef(typedef):
-        if typedef.type_name in primitive_types:
-            value = u"{0}.{1}".format(libname, typedef.type_name)
-        else:
-            value = typedef.type_name
-
-        return u"%s = %s" % (typedef.name, value)
+        return u"%s = %s" % (typedef.name, primitive_types.get(typedef.type_name, typedef.type_name))
 
     @staticmethod
     def translate_enum(enum):
-- 
2.43.0


From 2d5dac32f63e3b9599882d834f561a14df4995a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:29 +0000
Subject: [PATCH 43/61] fix: escape comments of isar constants in generated
 Python

---
 prophyc/generators/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 2b6c7aa..1169cbf 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -96,6 +96,7 @@ else:
         content = u"%s = %s" % (constant.name, constant.value)
         doc = constant.docstring
         if doc:
+            doc = doc.replace(u"\\", u"\\\\").replace(u"'", u"\\'")
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
         return content
 
-- 
2.43.0


From 164625dd270f0bf024cd9f0704d22a4c8a3e93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:21 +0000
Subject: [PATCH 44/61] fix: refuse definitions named as builtin types

---
 prophyc/model.py          |  2 ++
 prophyc/parsers/prophy.py | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index f277625..d323e56 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -678,6 +678,8 @@ def check_composition(nodes, constants):
     def check_names():
         known = {}
         for node_ in nodes:
+            if isinstance(node_, (Enum, Struct, Union, Typedef)) and node_.name in BUILTIN_SIZES:
+                raise ModelError("name '%s' is a builtin type" % node_.name)
             for symbol in (node_.defined_symbols() if isinstance(node_, Include) else [node_]):
                 for named in [symbol] + (symbol.members if isinstance(symbol, Enum) else []):
                     if known.setdefault(named.name, named) is not named:
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 8ccab1e..482c944 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -132,6 +132,13 @@ class Parser(object):
             return 0
         return int(token.value, base)
 
+    def _check_type_name(self, name, t):
+        self._parser_check(
+            name not in model.BUILTIN_SIZES,
+            "name '{}' is a builtin type".format(name),
+            t.lineno(1), t.lexpos(1)
+        )
+
     def _validate_struct_members(self, members):
         fieldnames = set()
         for i, (member, line, pos) in enumerate(members):
@@ -256,6 +263,7 @@ class Parser(object):
             "name '{}' redefined".format(t[2]),
             t.lineno(1), t.lexpos(1)
         )
+        self._check_type_name(t[2], t)
         self._add_container(model.Enum, t[2], t[3], t.lexer.lineno)
 
     def p_enum_body(self, t):
@@ -278,6 +286,7 @@ class Parser(object):
 
     def p_typedef_def(self, t):
         '''typedef_def : TYPEDEF type_spec unique_id SEMI'''
+        self._check_type_name(t[3], t)
         node = model.Typedef(t[3], t[2][0], definition=t[2][1])
         self.typedecls[t[3]] = node
         self.nodes.append(node)
@@ -285,6 +294,7 @@ class Parser(object):
     def p_struct_def(self, t):
         '''struct_def : STRUCT unique_id struct_body SEMI'''
 
+        self._check_type_name(t[2], t)
         self._validate_struct_members(t[3])
         self._add_container(model.Struct, t[2], [x for x, _, _ in t[3]], t.lexer.lineno)
 
@@ -349,6 +359,7 @@ class Parser(object):
     def p_union_def(self, t):
         '''union_def : UNION unique_id union_body SEMI'''
 
+        self._check_type_name(t[2], t)
         fieldnames = set()
         for member, line, pos in t[3]:
             self._parser_check(
-- 
2.43.0


From 64b07c92f5eb80f8020bba3c4a90b4b062be2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:21 +0000
Subject: [PATCH 45/61] fix: refuse names and sizes which generated code can't
 have

---
 prophyc/generators/base.py     | 16 ++++++++
 prophyc/generators/cpp.py      | 71 ++++++++++++++++++++++++++++++++--
 prophyc/generators/cpp_full.py | 47 ++++++++++++++++++++--
 prophyc/generators/python.py   | 14 ++++++-
 4 files changed, 140 insertions(+), 8 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..b33aaf6 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -13,6 +13,22 @@ def _write_file(file_path, string):
         f.write(string)
 
 
+def check_names(nodes, reserved):
+    """
+        Checks that names of definitions and of their members mean nothing else in the language generated.
+        Reserved names are given for each type of node or member.
+    """
+
+    def check(named, owner):
+        if named.name in reserved.get(type(named), ()):
+            raise GenerateError("name '{}'{} is reserved in generated code".format(named.name, owner))
+
+    for node in nodes:
+        check(node, "")
+        for member in getattr(node, 'members', None) or ():
+            check(member, " in {}".format(node.name))
+
+
 def _make_path(output_dir, base_name, extension):
     assert extension.startswith(".")
     assert os.path.isdir(output_dir), "Output directory %s doesn't exist." % output_dir
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 96e47e4..5ba9b89 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -15,6 +15,66 @@ primitive_types = {
     'byte': 'uint8_t',
 }
 
+MAX_OBJECT_SIZE = 0x7fffffffffffffff
+
+cpp_keywords = frozenset("""
+    alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
+    const_cast constexpr continue decltype default delete do double dynamic_cast else enum explicit export extern
+    false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or
+    or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert
+    static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned
+    using virtual void volatile wchar_t while xor xor_eq
+    """.split())
+
+cpp_reserved = cpp_keywords | frozenset(primitive_types.values()) | frozenset(["NULL"])
+
+
+def _get_reserved_names():
+    scope = cpp_reserved | frozenset("nullptr_t prophy ptrdiff_t size_t std swap_n_fixed uintptr_t".split())
+    types = scope | frozenset("cast detail swap".split())
+    classes = types | frozenset("align align_ptr alignment bool_t swap_n_dynamic".split())
+    return {
+        model.Constant: scope,
+        model.Typedef: scope,
+        model.Enum: types,
+        model.EnumMember: scope,
+        model.Struct: classes,
+        model.StructMember: cpp_reserved,
+        model.Union: classes,
+        model.UnionMember: cpp_reserved,
+    }
+
+
+reserved_names = _get_reserved_names()
+
+
+def check_size(node):
+    if node.byte_size is None:
+        raise GenerateError('{0} byte size unknown'.format(node.name))
+    if node.byte_size > MAX_OBJECT_SIZE:
+        raise GenerateError('{0} byte size too large'.format(node.name))
+
+
+def check_members(node, own_names):
+    """Names of members mustn't hide types of other members, nor names of members generated on top of them."""
+    types = set(member.type_name for member in node.members)
+    own_names = set(own_names)
+    if isinstance(node, model.Union):
+        own_names.update(['discriminator', node.name], ('discriminator_' + member.name for member in node.members))
+    for member in node.members:
+        if member.name in own_names:
+            raise GenerateError("name '{}' in {} is reserved in generated code".format(member.name, node.name))
+        if member.name in types:
+            raise GenerateError("name '{}' in {} is a type used there".format(member.name, node.name))
+
+
+def _check_struct_members(node):
+    parts = ['part{}'.format(index + 2) for index, _ in enumerate(model.partition(node.members)[1])]
+    check_members(node, parts + ['has_' + member.name for member in node.members if member.optional])
+    for name in [node.name] + [member.type_name for member in node.members]:
+        if name in parts or name == node.name == 'payload':
+            raise GenerateError("name '{}' of a type in {} is reserved in generated code".format(name, node.name))
+
 
 def _indent(string_, spaces):
     indentation = spaces * ' '
@@ -387,6 +447,11 @@ class CppGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, reserved_names)
         for n in nodes:
-            if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
-                raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, (model.Struct, model.Union)):
+                check_size(n)
+            if isinstance(n, model.Struct):
+                _check_struct_members(n)
+            elif isinstance(n, model.Union):
+                check_members(n, [])
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 4856889..ac08727 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.cpp import check_members, check_size, cpp_reserved
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -17,6 +18,31 @@ BUILTIN2C = {
 }
 
 
+def _get_reserved_names():
+    members = cpp_reserved | frozenset("EOF assert encoded_byte_size errno get_byte_size offsetof size_t".split())
+    scope = members | frozenset("nullptr_t prophy ptrdiff_t std stdin uintptr_t".split())
+    types = scope | frozenset("""
+        align align_ptr alignment array big byte_size codec_traits decode decode_int decoder decoder_greedy detail
+        do_decode do_decode_advance do_decode_align do_decode_greedy do_decode_in_place do_decode_resize do_encode
+        do_print encode encode_int encoder endianness generated indent_t int2type is_class_or_union little memchr
+        message message_impl native nearest optional optional_detail print print_byte print_traits printer swap
+        to_literal
+        """.split())
+    return {
+        model.Constant: scope | frozenset(["array"]),
+        model.Typedef: scope | frozenset("decode encode message optional print".split()),
+        model.Enum: types,
+        model.EnumMember: types | frozenset(["x"]),
+        model.Struct: types | frozenset(["E"]),
+        model.StructMember: members,
+        model.Union: types | frozenset(["E", "discriminator"]),
+        model.UnionMember: members,
+    }
+
+
+reserved_names = _get_reserved_names()
+
+
 # flake8: noqa E501
 
 def _indent(text):
@@ -638,6 +664,19 @@ def generate_union_constructor(node):
     )
 
 
+def _get_own_names(node):
+    """Names used in definition of a message class."""
+    yield node.name
+    for m in node.members:
+        if getattr(m, 'optional', False):
+            yield 'optional'
+        definition = m.definition
+        while isinstance(definition, model.Typedef):
+            definition = definition.definition
+        if isinstance(definition, model.Enum) and definition.members:
+            yield definition.members[0].name
+
+
 class CppFullGenerator(GeneratorBase):
     top_level_translators = {
         ".ppf.hpp": _HppTranslator,
@@ -645,9 +684,11 @@ class CppFullGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, reserved_names)
         for n in nodes:
-            if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
-                raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, (model.Struct, model.Union)):
+                check_size(n)
+                check_members(n, _get_own_names(n))
             if isinstance(n, model.Struct):
                 occured = set()
                 for m in n.members:
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 1169cbf..9634a29 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,9 +1,16 @@
+import keyword
+
+from prophyc import model
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase
+from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
-primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
+primitive_types = {x: u"%s.%s" % (libname, x) for x in model.BUILTIN_SIZES}
 primitive_types['byte'] = u'%s.u8' % libname
+reserved_names = dict.fromkeys(
+    [model.Constant, model.Enum, model.EnumMember, model.Typedef, model.Struct, model.Union],
+    frozenset(keyword.kwlist + ["None", "True", "False", libname])
+)
 
 
 def _make_list(repr_function, members):
@@ -158,3 +165,6 @@ class PythonGenerator(GeneratorBase):
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    def check_nodes(self, nodes):
+        check_names(nodes, reserved_names)
-- 
2.43.0


From 2b09a1049253d51cd980c51e2ff5e7a3e9a342f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:24 +0000
Subject: [PATCH 46/61] fix: report C++ definitions which sack mode can't take

Types without prophy counterparts, structs containing themselves, cursor
kinds unknown to the bindings and diagnostics without a file ended the
compiler with internal exceptions.
---
 prophyc/parsers/sack.py | 59 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 3310b10..4b63ae3 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -9,8 +9,15 @@ from prophyc.six import to_bytes
 from .clang import cindex
 
 
-class SackParserError(Exception):
-    pass
+class SackParserError(model.ModelError):
+    """ Error for C++ definitions which can't be expressed in prophy. """
+
+
+def get_kind(cursor_or_type):
+    try:
+        return cursor_or_type.kind
+    except ValueError:
+        return None
 
 
 class SackModelTree(object):
@@ -40,6 +47,7 @@ class Builder(object):
 
     def __init__(self, tree_model):
         self.tree = tree_model
+        self.in_progress = set()
 
     @staticmethod
     def alphanumeric_name(cursor):
@@ -58,42 +66,51 @@ class Builder(object):
         def dive_deeper(method):
             name = Builder.alphanumeric_name(decl)
             if name not in self.tree.known:
+                if name in self.in_progress:
+                    raise SackParserError("definition of '{}' depends on itself".format(name))
+                self.in_progress.add(name)
                 method(decl)
+                self.in_progress.remove(name)
             return name
 
-        if tp.kind is cindex.TypeKind.TYPEDEF:
+        type_kind = get_kind(tp)
+
+        if type_kind is cindex.TypeKind.TYPEDEF:
             return self.get_type_name(decl.underlying_typedef_type)
 
-        elif tp.kind in (cindex.TypeKind.UNEXPOSED, cindex.TypeKind.ELABORATED, cindex.TypeKind.RECORD):
+        elif type_kind in (cindex.TypeKind.UNEXPOSED, cindex.TypeKind.ELABORATED, cindex.TypeKind.RECORD):
+            decl_kind = get_kind(decl)
 
-            if decl.kind in (cindex.CursorKind.STRUCT_DECL, cindex.CursorKind.CLASS_DECL):
+            if decl_kind in (cindex.CursorKind.STRUCT_DECL, cindex.CursorKind.CLASS_DECL):
                 return dive_deeper(self.add_struct)
 
-            elif decl.kind is cindex.CursorKind.UNION_DECL:
+            elif decl_kind is cindex.CursorKind.UNION_DECL:
                 return dive_deeper(self.add_union)
 
-            elif decl.kind is cindex.CursorKind.ENUM_DECL:
+            elif decl_kind is cindex.CursorKind.ENUM_DECL:
                 return self.get_type_name(decl.type)
 
-            elif decl.kind is cindex.CursorKind.TYPEDEF_DECL:
+            elif decl_kind is cindex.CursorKind.TYPEDEF_DECL:
                 return self.get_type_name(decl.underlying_typedef_type)
 
             else:
-                raise SackParserError("Unknown declaration, {} {}".format(tp.spelling, decl.kind))
+                raise SackParserError("Unknown declaration, {} {}".format(tp.spelling.decode(), decl_kind))
 
-        elif tp.kind in (cindex.TypeKind.CONSTANTARRAY, cindex.TypeKind.INCOMPLETEARRAY):
+        elif type_kind in (cindex.TypeKind.CONSTANTARRAY, cindex.TypeKind.INCOMPLETEARRAY):
             return self.get_type_name(tp.element_type)
 
-        elif tp.kind is cindex.TypeKind.ENUM:
+        elif type_kind is cindex.TypeKind.ENUM:
             return dive_deeper(self.add_enum)
 
-        if tp.kind in (cindex.TypeKind.USHORT, cindex.TypeKind.UINT, cindex.TypeKind.ULONG, cindex.TypeKind.ULONGLONG):
+        if type_kind in (cindex.TypeKind.USHORT, cindex.TypeKind.UINT, cindex.TypeKind.ULONG, cindex.TypeKind.ULONGLONG):
             return 'u%d' % (tp.get_size() * 8)
 
-        elif tp.kind in (cindex.TypeKind.SHORT, cindex.TypeKind.INT, cindex.TypeKind.LONG, cindex.TypeKind.LONGLONG):
+        elif type_kind in (cindex.TypeKind.SHORT, cindex.TypeKind.INT, cindex.TypeKind.LONG, cindex.TypeKind.LONGLONG):
             return 'i%d' % (tp.get_size() * 8)
 
-        return self.unambiguous_builtins[tp.kind]
+        if type_kind not in self.unambiguous_builtins:
+            raise SackParserError("Type '{}' has no counterpart in prophy".format(tp.spelling.decode()))
+        return self.unambiguous_builtins[type_kind]
 
     def add_enum(self, cursor):
         def enum_member(cursor):
@@ -121,7 +138,7 @@ class Builder(object):
             return model.StructMember(name, type_name, size=array_len)
 
         members = [struct_member(x) for x in cursor.get_children()
-                   if x.kind is cindex.CursorKind.FIELD_DECL and not x.is_bitfield()]
+                   if get_kind(x) is cindex.CursorKind.FIELD_DECL and not x.is_bitfield()]
         node = model.Struct(Builder.alphanumeric_name(cursor), members)
         self.tree.add_node(node)
 
@@ -132,21 +149,21 @@ class Builder(object):
             return model.UnionMember(name, type_name, str(disc))
 
         members = [union_member(x, i) for i, x in enumerate(cursor.get_children())
-                   if x.kind is cindex.CursorKind.FIELD_DECL]
+                   if get_kind(x) is cindex.CursorKind.FIELD_DECL]
         node = model.Union(Builder.alphanumeric_name(cursor), members)
         self.tree.add_node(node)
 
     def build_model(self, translation_unit):
         for cursor in translation_unit.cursor.get_children():
-            if cursor.kind is cindex.CursorKind.UNEXPOSED_DECL:
+            if get_kind(cursor) is cindex.CursorKind.UNEXPOSED_DECL:
                 for in_cursor in cursor.get_children():
-                    if in_cursor.kind is cindex.CursorKind.STRUCT_DECL:
+                    if get_kind(in_cursor) is cindex.CursorKind.STRUCT_DECL:
                         if in_cursor.spelling and in_cursor.is_definition():
                             self.add_struct(in_cursor)
             if cursor.spelling and cursor.is_definition():
-                if cursor.kind is cindex.CursorKind.STRUCT_DECL:
+                if get_kind(cursor) is cindex.CursorKind.STRUCT_DECL:
                     self.add_struct(cursor)
-                if cursor.kind is cindex.CursorKind.ENUM_DECL:
+                if get_kind(cursor) is cindex.CursorKind.ENUM_DECL:
                     self.add_enum(cursor)
 
 
@@ -269,6 +286,8 @@ class SackParser(object):
                 self.warn(spelling, location)
 
     def _get_location(self, location, target_path):
+        if not location.file:
+            return target_path.decode()
         location_file = location.file.name.decode()
         target_file_name = os.path.basename(target_path.decode())
         if os.path.basename(location_file) == target_file_name:
-- 
2.43.0


From ffdcdaa8245ed4ff1d36bafe29c93302de1337da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:24 +0000
Subject: [PATCH 47/61] fix: check names before evaluating definitions

A typedef naming itself next to another definition of that name made size
evaluation loop forever. Constants used as types, and enums and unions
without members, ended the compiler with internal exceptions.
---
 prophyc/model.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index d323e56..be0c504 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -481,7 +481,8 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
-        if not found:
+        if not found or isinstance(found, Constant):
+            found = None
             warn("type '%s' not found" % node_.type_name)
         node_.definition = found
 
@@ -651,7 +652,7 @@ def evaluate_sizes(nodes, warn=null_warn):
     def evaluate_union_size(node_):
         node_.alignment = max(DISC_SIZE, node_.members and max(x.alignment for x in node_.members) or 1)
         node_.byte_size = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment
-        node_.byte_size = int((node_.byte_size + node_.alignment - 1) / node_.alignment) * node_.alignment
+        node_.byte_size = (node_.byte_size + node_.alignment - 1) // node_.alignment * node_.alignment
 
     for node in nodes:
         if isinstance(node, Struct):
@@ -666,6 +667,18 @@ def evaluate_sizes(nodes, warn=null_warn):
             evaluate_sizes(node.members, warn)
 
 
+def check_names(nodes):
+    """Checks that every name means one thing."""
+    known = {}
+    for node in nodes:
+        if isinstance(node, (Enum, Struct, Union, Typedef)) and node.name in BUILTIN_SIZES:
+            raise ModelError("name '%s' is a builtin type" % node.name)
+        for symbol in (node.defined_symbols() if isinstance(node, Include) else [node]):
+            for named in [symbol] + (symbol.members if isinstance(symbol, Enum) else []):
+                if known.setdefault(named.name, named) is not named:
+                    raise ModelError("name '%s' redefined" % named.name)
+
+
 def check_composition(nodes, constants):
     """
     Refuses definitions breaking composability rules. Parsers which don't validate on their own and patches
@@ -675,16 +688,6 @@ def check_composition(nodes, constants):
     def fail(node_, member, msg):
         raise ModelError("%s::%s %s" % (node_.name, member.name, msg))
 
-    def check_names():
-        known = {}
-        for node_ in nodes:
-            if isinstance(node_, (Enum, Struct, Union, Typedef)) and node_.name in BUILTIN_SIZES:
-                raise ModelError("name '%s' is a builtin type" % node_.name)
-            for symbol in (node_.defined_symbols() if isinstance(node_, Include) else [node_]):
-                for named in [symbol] + (symbol.members if isinstance(symbol, Enum) else []):
-                    if known.setdefault(named.name, named) is not named:
-                        raise ModelError("name '%s' redefined" % named.name)
-
     def evaluate(text):
         try:
             return to_int(text, constants)
@@ -726,6 +729,8 @@ def check_composition(nodes, constants):
                 fail(node_, member, "is unlimited, but isn't the last one")
 
     def check_union(node_):
+        if not node_.members:
+            raise ModelError("union '%s' has no arms" % node_.name)
         node_._check_members_duplication(node_.members)
         discriminators = set()
         for member in node_.members:
@@ -738,13 +743,14 @@ def check_composition(nodes, constants):
                 fail(node_, member, "has duplicate discriminator '%s'" % member.discriminator)
             discriminators.add(discriminator)
 
-    check_names()
     for node in nodes:
         if isinstance(node, Struct):
             check_struct(node)
         elif isinstance(node, Union):
             check_union(node)
         elif isinstance(node, Enum):
+            if not node.members:
+                raise ModelError("enum '%s' has no enumerators" % node.name)
             for enumerator in node.members:
                 check_u32(node, enumerator, enumerator.value)
 
@@ -787,6 +793,7 @@ class ModelParser(object):
             nodes = self.parser.parse(content, path, *parse_args)
             if self.patcher:
                 self.patcher(nodes)
+            check_names(nodes)
             nodes, constants = evaluate_model(nodes, self.emit.warn)
             check_composition(nodes, constants)
             return nodes
-- 
2.43.0


From fff459790b79548778fc967c54f8a06a72188735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:36 +0000
Subject: [PATCH 48/61] fix: keep paths out of names of unnamed C++ types

Output of sack mode depended on the way the input file was spelled on the
command line and on where it was.
---
 prophyc/parsers/sack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 4b63ae3..190d7b1 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -58,6 +58,8 @@ class Builder(object):
             name = name.replace('enum ', '', 1)
         elif name.startswith('union '):
             name = name.replace('union ', '', 1)
+        # names of unnamed types have paths of their files
+        name = re.sub(r'( at )[^()]*[/\\]', r'\1', name)
         return re.sub('[^0-9a-zA-Z_]+', '__', name)
 
     def get_type_name(self, tp):
-- 
2.43.0


From 98527b930d375607dea272f67891f6f16dc95b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:32 +0000
Subject: [PATCH 49/61] fix: refuse isar and sack constants outside of 64 bits

Generated C++ silently got another value (0 for 2 to the 64th) than the
Python module. The prophy parser refuses such constants already.
---
 prophyc/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index be0c504..6eff32e 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -753,6 +753,10 @@ def check_composition(nodes, constants):
                 raise ModelError("enum '%s' has no enumerators" % node.name)
             for enumerator in node.members:
                 check_u32(node, enumerator, enumerator.value)
+        elif isinstance(node, Constant):
+            value = evaluate(node.value)
+            if value is not None and not -0x8000000000000000 <= value <= 0xFFFFFFFFFFFFFFFF:
+                raise ModelError("value of '%s' out of 64-bit range" % node.name)
 
 
 def partition(members):
-- 
2.43.0


From c51f1bfdb9fa6aa7329f3c963cc78aa3da308cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:12 +0000
Subject: [PATCH 50/61] fix: refuse isar counter names which are not
 identifiers

The name given by variableSizeFieldName went into generated code as it was.
---
 prophyc/parsers/isar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 9159df7..f5733df 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -69,13 +69,16 @@ def get_attribute(xml_elem, key):
     return value
 
 
-def get_name(xml_elem):
-    name = get_attribute(xml_elem, "name")
+def check_name(xml_elem, name):
     if not re.match(r"[^\W\d]\w*$", name, re.UNICODE):
         raise IsarError("Name '{}' in element '{}' is not an identifier.".format(name, xml_elem.tag))
     return name
 
 
+def get_name(xml_elem):
+    return check_name(xml_elem, get_attribute(xml_elem, "name"))
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -178,7 +181,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
             elif "isVariableSize" in dimension.attrib:
                 type_ = dimension.get("variableSizeFieldType", "u32")
                 sizer_name = dimension.get("variableSizeFieldName", xml_elem_name + "_len")
-                yield model.StructMember(sizer_name, type_, docstring=comment)
+                yield model.StructMember(check_name(dimension, sizer_name), type_, docstring=comment)
                 size_ = None if dynamic_array else size
                 yield model.StructMember(xml_elem_name, xml_elem_type, bound=sizer_name, size=size_, docstring=comment)
 
-- 
2.43.0


From b927cc5d5aed83a399b929bde1dc5f458461fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:26 +0000
Subject: [PATCH 51/61] fix: decode arrays of more than 65536 elements when the
 data holds them

---
 prophy/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/generators.py b/prophy/generators.py
index 7725cf3..75f74bb 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -395,7 +395,7 @@ def build_container_length_field(sizer_item_type, container_name, bound_shift):
         @staticmethod
         def _decode(data, pos, endianness):
             value, size = sizer_item_type._decode(data, pos, endianness)
-            array_guard = 65536
+            array_guard = max(65536, len(data) - pos)
             if value > array_guard:
                 raise ProphyError("decoded array length over %s" % array_guard)
             value -= bound_shift
-- 
2.43.0


From c75a7043f07575a644f52edae430d7e8f69524a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:13 +0000
Subject: [PATCH 52/61] fix: refuse the name sys in python output, where it
 hides the module of includes that follow

---
 prophyc/generators/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 9634a29..7fccef0 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -9,7 +9,7 @@ primitive_types = {x: u"%s.%s" % (libname, x) for x in model.BUILTIN_SIZES}
 primitive_types['byte'] = u'%s.u8' % libname
 reserved_names = dict.fromkeys(
     [model.Constant, model.Enum, model.EnumMember, model.Typedef, model.Struct, model.Union],
-    frozenset(keyword.kwlist + ["None", "True", "False", libname])
+    frozenset(keyword.kwlist + ["None", "True", "False", libname, "sys"])
 )
 
 
-- 
2.43.0


From 754bde741371a8539b8dc6e2bcfe131707c799e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:32 +0000
Subject: [PATCH 53/61] fix: refuse python output of includes whose file name
 cannot be imported

---
 prophyc/generators/python.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 7fccef0..9bd351d 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,8 +1,9 @@
 import keyword
+import re
 
 from prophyc import model
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
 primitive_types = {x: u"%s.%s" % (libname, x) for x in model.BUILTIN_SIZES}
@@ -13,6 +14,18 @@ reserved_names = dict.fromkeys(
 )
 
 
+def _module_name(include):
+    return include.name.split("/")[-1]
+
+
+def _check_module_names(nodes):
+    for node in nodes:
+        if isinstance(node, model.Include) and any(node.defined_symbols()):
+            name = _module_name(node)
+            if not re.match(r"[^\W\d]\w*\Z", name, re.UNICODE) or name in keyword.kwlist:
+                raise GenerateError("included file '{}' has no name of a module".format(node.name))
+
+
 def _make_list(repr_function, members):
     if not members:
         return u"[]"
@@ -81,7 +94,7 @@ import {0}
             return u""
 
         def translate(relative_import_indicator):
-            statement_begin = u"from %s%s import " % (relative_import_indicator, include.name.split("/")[-1])
+            statement_begin = u"from %s%s import " % (relative_import_indicator, _module_name(include))
             symbols = u", ".join(included)
             if len(statement_begin) + len(symbols) <= 80:
                 return statement_begin + symbols
@@ -168,3 +181,4 @@ class PythonGenerator(GeneratorBase):
 
     def check_nodes(self, nodes):
         check_names(nodes, reserved_names)
+        _check_module_names(nodes)
-- 
2.43.0


From 8c8875bb0da5b60ccb36b904eb3e0b6f604cb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:05 +0000
Subject: [PATCH 54/61] fix: keep include guards of headers apart when file
 names hold other characters than identifiers do

---
 prophyc/generators/base.py     | 9 ++++++++-
 prophyc/generators/cpp.py      | 6 +++---
 prophyc/generators/cpp_full.py | 6 +++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index b33aaf6..08af44d 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -1,5 +1,6 @@
 import codecs
 import os
+import re
 
 from prophyc import model
 
@@ -29,6 +30,11 @@ def check_names(nodes, reserved):
             check(member, " in {}".format(node.name))
 
 
+def _macro_name(base_name):
+    """ Makes file name usable as a part of macro name. """
+    return re.sub(r"[^A-Za-z0-9_]", lambda match: "_%x_" % ord(match.group()), base_name)
+
+
 def _make_path(output_dir, base_name, extension):
     assert extension.startswith(".")
     assert os.path.isdir(output_dir), "Output directory %s doesn't exist." % output_dir
@@ -113,7 +119,8 @@ class TranslatorBase(TranslatorAbc):
     @classmethod
     def _block_post_process(cls, content, base_name, nodes):
         if cls.block_template:
-            return cls.block_template.format(content=content, base_name=base_name, nodes=nodes)
+            macro_name = _macro_name(base_name)
+            return cls.block_template.format(content=content, base_name=base_name, macro_name=macro_name, nodes=nodes)
         else:
             return content
 
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 5ba9b89..7f8442b 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -422,12 +422,12 @@ class _CppSwapTranslator(TranslatorBase):
 
 
 HEADER_TEMPLATE = """\
-#ifndef _PROPHY_GENERATED_{base_name}_HPP
-#define _PROPHY_GENERATED_{base_name}_HPP
+#ifndef _PROPHY_GENERATED_{macro_name}_HPP
+#define _PROPHY_GENERATED_{macro_name}_HPP
 
 #include <prophy/prophy.hpp>
 
-{content}#endif  /* _PROPHY_GENERATED_{base_name}_HPP */
+{content}#endif  /* _PROPHY_GENERATED_{macro_name}_HPP */
 """
 
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index ac08727..89a4f02 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -202,8 +202,8 @@ namespace generated
 
 
 HPP_HEADER_TEMPLATE = """\
-#ifndef _PROPHY_GENERATED_FULL_{base_name}_HPP
-#define _PROPHY_GENERATED_FULL_{base_name}_HPP
+#ifndef _PROPHY_GENERATED_FULL_{macro_name}_HPP
+#define _PROPHY_GENERATED_FULL_{macro_name}_HPP
 
 #include <stdint.h>
 #include <numeric>
@@ -217,7 +217,7 @@ HPP_HEADER_TEMPLATE = """\
 #include <prophy/detail/mpl.hpp>
 
 {content}
-#endif  /* _PROPHY_GENERATED_FULL_{base_name}_HPP */
+#endif  /* _PROPHY_GENERATED_FULL_{macro_name}_HPP */
 """
 
 
-- 
2.43.0


From c5b57ecb11a418568c499486335cfeabd7a6dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:53 +0000
Subject: [PATCH 55/61] fix: sort definitions named r8 or r16 like any others

The dependency sort took r8 and r16 for builtin types, which they are not.
Definitions using types of these names were written ahead of them.
---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 6eff32e..c977891 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -421,7 +421,7 @@ def topological_sort(nodes):
                 return True
         known.update(get_symbols(node))
 
-    known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
+    known = set(BUILTIN_SIZES)
     available = set(symbol for node in nodes for symbol in get_symbols(node))
     for index in range(len(nodes)):
         rotations = 0
-- 
2.43.0


From cb042ac609af11d7be8ec694c8459fe1c428cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:17 +0000
Subject: [PATCH 56/61] fix: refuse member names of the Python runtime and
 private names in python output

Members named like methods of messages (encode, copy_from) replaced them, so
that messages could not be encoded. Definitions named with two leading
underscores were not found by the classes using them.
---
 prophyc/generators/python.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 9bd351d..0647cbd 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -12,6 +12,15 @@ reserved_names = dict.fromkeys(
     [model.Constant, model.Enum, model.EnumMember, model.Typedef, model.Struct, model.Union],
     frozenset(keyword.kwlist + ["None", "True", "False", libname, "sys"])
 )
+reserved_names.update(dict.fromkeys([model.StructMember, model.UnionMember], frozenset("""
+    encode decode copy_from validate_copy_from get_descriptor get_discriminated set_field discriminator
+    add_sizers add_repeated_property add_scalar_property add_composite_property
+    add_union_scalar_property add_union_composite_property substitute_len_field
+    validate_and_fix_sizer_name validate_sizer_type validate_bound_shift
+    _descriptor _fields _discriminated _discriminator_type _padding_byte _generated _is_prophy_object
+    _ALIGNMENT _BOUND _DYNAMIC _OPTIONAL _PARTIAL_ALIGNMENT _SIZE _UNLIMITED
+    _copy_implementation _decode_impl _get_padding _get_padding_size _get_discriminated_field
+    """.split())))
 
 
 def _module_name(include):
@@ -26,6 +35,16 @@ def _check_module_names(nodes):
                 raise GenerateError("included file '{}' has no name of a module".format(node.name))
 
 
+def _check_underscored_names(nodes):
+    """ Python changes names with two leading underscores inside of classes, and keeps __x__ ones to itself. """
+    for node in nodes:
+        if isinstance(node, model.Include):
+            continue
+        for named in [node] + list(getattr(node, "members", ())):
+            if re.match(r"__" if named is node else r"__.*__\Z", named.name):
+                raise GenerateError("name '{}' is reserved in generated code".format(named.name))
+
+
 def _make_list(repr_function, members):
     if not members:
         return u"[]"
@@ -181,4 +200,5 @@ class PythonGenerator(GeneratorBase):
 
     def check_nodes(self, nodes):
         check_names(nodes, reserved_names)
+        _check_underscored_names(nodes)
         _check_module_names(nodes)
-- 
2.43.0


From d502820ed4d0d45c3ea1355315feff9bb8bb91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:10 +0000
Subject: [PATCH 57/61] fix: write sizes and discriminators as numbers where
 generated code hides their names

Constants of isar may be named like members of a struct or like names
which generated C++ code uses (E, x, pos, encode). Array sizes and union
discriminators told by such names did not compile or meant another value.
---
 prophyc/generators/cpp.py      | 20 ++++++++++++++++++--
 prophyc/generators/cpp_full.py | 33 ++++++++++++++++++++++-----------
 prophyc/model.py               | 12 ++++++++----
 3 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7f8442b..f35cf93 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -76,6 +76,19 @@ def _check_struct_members(node):
             raise GenerateError("name '{}' of a type in {} is reserved in generated code".format(name, node.name))
 
 
+def get_array_size(member, hidden):
+    """Size of array as written in generated code: a number where name of constant means something else."""
+    return member.numeric_size if member.size in hidden and member.numeric_size else member.size
+
+
+def _get_hidden_names(struct):
+    """Names which mean something else than a constant in definition or swap of struct."""
+    names = set(['payload']) | reserved_names[model.Struct]
+    for member in struct.members:
+        names.update([member.name, 'has_' + member.name])
+    return names
+
+
 def _indent(string_, spaces):
     indentation = spaces * ' '
     return '\n'.join(indentation + x if x else x for x in string_.split('\n'))
@@ -183,7 +196,7 @@ class _HppDefinitionsTranslator(TranslatorBase):
             typename = primitive_types.get(member.type_name, member.type_name)
             if member.is_array:
                 annotation = build_annotation(member)
-                size = member.size or 1
+                size = get_array_size(member, hidden) or 1
                 if annotation:
                     field = '{0} {1}[{2}]; /// {3}\n'.format(typename, member.name, size, annotation)
                 else:
@@ -212,6 +225,7 @@ class _HppDefinitionsTranslator(TranslatorBase):
             )
             return _indent(generated, 4)
 
+        hidden = _get_hidden_names(struct)
         main, parts = model.partition(struct.members)
         padder = _Padder()
         blocks = '\n'.join(
@@ -332,6 +346,8 @@ class _CppSwapTranslator(TranslatorBase):
     block_template = SOURCE_TEMPLATE
 
     def translate_struct(self, struct):
+        hidden = _get_hidden_names(struct)
+
         def gen_member(member, delimiters=[]):
             if member.is_array:
                 is_dynamic = member.kind == model.Kind.DYNAMIC
@@ -344,7 +360,7 @@ class _CppSwapTranslator(TranslatorBase):
                         swap_mode, _member_access_statement(member), bound)
                 elif not member.bound and member.size:
                     return 'swap_n_{0}({1}, {2})'.format(
-                        swap_mode, _member_access_statement(member), member.size)
+                        swap_mode, _member_access_statement(member), get_array_size(member, hidden))
             else:
                 if member.optional:
                     preamble = 'swap(&payload->has_{0});\nif (payload->has_{0}) '.format(member.name)
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 89a4f02..34ba089 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,7 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
 from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
-from prophyc.generators.cpp import check_members, check_size, cpp_reserved
+from prophyc.generators.cpp import check_members, check_size, cpp_reserved, get_array_size
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -385,14 +385,21 @@ class _CppTranslator(TranslatorBase):
         )
 
 
+def _get_hidden_names(node):
+    """Names which mean something else than a constant in message class or in its codec."""
+    names = set(m.name for m in node.members)
+    return names | reserved_names[model.Struct] | set('E end indent out pos x'.split())
+
+
 def generate_struct_encode(node):
+    hidden = _get_hidden_names(node)
     text = ''
     bound = {m.bound: m for m in node.members if m.bound}
     delimiters = {bound[m.name].name: (m, _get_cpp_builtin_type(m)) for m in node.members if m.name in bound}
 
     for m in node.members:
         if m.is_fixed:
-            text += 'pos = do_encode<E>(pos, x.{0}.data(), {1});\n'.format(m.name, m.size)
+            text += 'pos = do_encode<E>(pos, x.{0}.data(), {1});\n'.format(m.name, get_array_size(m, hidden))
         elif m.is_dynamic:
             d, dcpptype = delimiters[m.name]
             text += 'pos = do_encode<E>(pos, x.{0}.data(), {1}(x.{0}.size()));\n'.format(m.name, dcpptype)
@@ -400,7 +407,7 @@ def generate_struct_encode(node):
             d, dcpptype = delimiters[m.name]
             dcpptype = _get_cpp_builtin_type(d)
             text += ('do_encode<E>(pos, x.{0}.data(), {2}(std::min(x.{0}.size(), size_t({1}))));\n'
-                     'pos = pos + {3};\n').format(m.name, m.size, dcpptype, m.byte_size)
+                     'pos = pos + {3};\n').format(m.name, get_array_size(m, hidden), dcpptype, m.byte_size)
 
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
@@ -414,7 +421,7 @@ def generate_struct_encode(node):
             else:
                 text += (
                     'pos = do_encode<E>(pos, {2}(std::min(x.{0}.size(), size_t({1}))));\n'
-                        .format(b.name, b.size, mcpptype)
+                        .format(b.name, get_array_size(b, hidden), mcpptype)
                 )
         else:
             text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
@@ -427,11 +434,12 @@ def generate_struct_encode(node):
 
 
 def generate_struct_decode(node):
+    hidden = _get_hidden_names(node)
     text = []
     bound = {m.bound: m for m in node.members if m.bound}
     for m in node.members:
         if m.is_fixed:
-            text.append('do_decode<E>(x.{0}.data(), {1}, pos, end)'.format(m.name, m.size))
+            text.append('do_decode<E>(x.{0}.data(), {1}, pos, end)'.format(m.name, get_array_size(m, hidden)))
         elif m.is_dynamic:
             text.append('do_decode<E>(x.{0}.data(), x.{0}.size(), pos, end)'.format(m.name))
         elif m.is_limited:
@@ -447,7 +455,7 @@ def generate_struct_decode(node):
             if b.is_dynamic:
                 text.append('do_decode_resize<E, {1}>(x.{0}, pos, end)'.format(b.name, mcpptype))
             else:
-                text.append('do_decode_resize<E, {2}>(x.{0}, pos, end, {1})'.format(b.name, b.size, mcpptype))
+                text.append('do_decode_resize<E, {2}>(x.{0}, pos, end, {1})'.format(b.name, get_array_size(b, hidden), mcpptype))
         else:
             text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
         if m.padding:
@@ -459,16 +467,17 @@ def generate_struct_decode(node):
 
 
 def generate_struct_print(node):
+    hidden = _get_hidden_names(node)
     text = ''
     bound = {m.bound: m for m in node.members if m.bound}
     for m in node.members:
         if m.is_array:
             if m.is_fixed:
-                inner = 'x.{0}.data(), size_t({1})'.format(m.name, m.size)
+                inner = 'x.{0}.data(), size_t({1})'.format(m.name, get_array_size(m, hidden))
             elif m.is_dynamic:
                 inner = 'x.{0}.data(), x.{0}.size()'.format(m.name)
             elif m.is_limited:
-                inner = 'x.{0}.data(), std::min(x.{0}.size(), size_t({1}))'.format(m.name, m.size)
+                inner = 'x.{0}.data(), std::min(x.{0}.size(), size_t({1}))'.format(m.name, get_array_size(m, hidden))
             elif m.greedy:
                 inner = 'x.{0}.data(), x.{0}.size()'.format(m.name)
             if m.type_name == 'byte':
@@ -518,16 +527,17 @@ def generate_struct_get_byte_size(node):
 
 
 def generate_struct_fields(node):
+    hidden = _get_hidden_names(node)
     bound = {m.bound: m for m in node.members if m.bound}
     text = ''
     for m in node.members:
         if m.is_fixed:
-            text += 'array<{0}, {1}> {2};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.size, m.name)
+            text += 'array<{0}, {1}> {2};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), get_array_size(m, hidden), m.name)
         elif m.is_dynamic:
             text += 'std::vector<{0}> {1};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.name)
         elif m.is_limited:
             text += 'std::vector<{0}> {1}; /// limit {2}\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.name,
-                                                                   m.size)
+                                                                   get_array_size(m, hidden))
         elif m.greedy:
             text += 'std::vector<{0}> {1}; /// greedy\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.name)
         elif m.optional:
@@ -540,6 +550,7 @@ def generate_struct_fields(node):
 
 
 def generate_struct_constructor(node):
+    hidden = _get_hidden_names(node)
     def add_to_default(lst, m, init):
         if init is not None:
             lst.append('{0}({1})'.format(m.name, init))
@@ -554,7 +565,7 @@ def generate_struct_constructor(node):
         init = _get_initializer(m)
         if m.is_fixed:
             add_to_default(default_ctor, m, '')
-            add_to_full(full_ctor, True, m, 'array<{0}, %s>' % m.size)
+            add_to_full(full_ctor, True, m, 'array<{0}, %s>' % get_array_size(m, hidden))
         elif m.is_dynamic:
             add_to_full(full_ctor, True, m, 'std::vector<{0}>')
         elif m.is_limited:
diff --git a/prophyc/model.py b/prophyc/model.py
index c977891..7a2d7f8 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -512,21 +512,25 @@ def fold_expressions(nodes, constants):
     Target languages understand operators (precedence, division, overflow) in their own ways.
     Enumerators are replaced too, since generated Python knows them by names neither inside
     of their enum nor in modules importing it.
+    So are all discriminators, since members of generated C++ unions may hide what their names mean.
     """
     symbols = (symbol for node in nodes
                for symbol in (node.defined_symbols() if isinstance(node, Include) else [node]))
     enumerators = set(member.name for symbol in symbols if isinstance(symbol, Enum) for member in symbol.members)
 
-    def fold(text):
+    def evaluate(text):
         if not isinstance(text, six.string_types):
             return text
-        if text not in enumerators and not set(text) & set("+-*/<>|()"):
-            return text
         try:
             return str(to_int(text, constants))
         except calc.ParseError:
             return text
 
+    def fold(text):
+        if isinstance(text, six.string_types) and text not in enumerators and not set(text) & set("+-*/<>|()"):
+            return text
+        return evaluate(text)
+
     def is_negative(text):
         try:
             return to_int(text, constants) < 0
@@ -546,7 +550,7 @@ def fold_expressions(nodes, constants):
                 member.size = fold(member.size)
         elif isinstance(node, Union):
             for member in node.members:
-                member.discriminator = fold(member.discriminator)
+                member.discriminator = evaluate(member.discriminator)
 
 
 def to_int(x, constants):
-- 
2.43.0


From 3cd8c3fe0a7feff1499acd69c9bef2f047dac072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:19 +0000
Subject: [PATCH 58/61] fix: refuse names which clash with array, optional,
 discriminators and paddings of generated code

A member named array beside a fixed array, a typedef named array, a union
named like one of its discriminators and a member named like a padding
were accepted, and generated C++ code did not compile.
---
 prophyc/generators/cpp.py      | 30 +++++++++++++++++++-----------
 prophyc/generators/cpp_full.py | 10 ++++++----
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index f35cf93..7fc044a 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,3 +1,5 @@
+import re
+
 from prophyc import model
 from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
 
@@ -55,14 +57,18 @@ def check_size(node):
         raise GenerateError('{0} byte size too large'.format(node.name))
 
 
-def check_members(node, own_names):
-    """Names of members mustn't hide types of other members, nor names of members generated on top of them."""
+def check_members(node, generated, others=()):
+    """Names of members mustn't hide types of other members or names generated on top of them, nor be hidden by those."""
     types = set(member.type_name for member in node.members)
-    own_names = set(own_names)
+    generated = set(generated)
     if isinstance(node, model.Union):
-        own_names.update(['discriminator', node.name], ('discriminator_' + member.name for member in node.members))
+        generated.update(['discriminator'], ('discriminator_' + member.name for member in node.members))
+        types.add(node.name)
+    for name in types:
+        if name in generated:
+            raise GenerateError("name '{}' of a type in {} is reserved in generated code".format(name, node.name))
     for member in node.members:
-        if member.name in own_names:
+        if member.name in generated or member.name in others:
             raise GenerateError("name '{}' in {} is reserved in generated code".format(member.name, node.name))
         if member.name in types:
             raise GenerateError("name '{}' in {} is a type used there".format(member.name, node.name))
@@ -70,10 +76,11 @@ def check_members(node, own_names):
 
 def _check_struct_members(node):
     parts = ['part{}'.format(index + 2) for index, _ in enumerate(model.partition(node.members)[1])]
-    check_members(node, parts + ['has_' + member.name for member in node.members if member.optional])
-    for name in [node.name] + [member.type_name for member in node.members]:
-        if name in parts or name == node.name == 'payload':
-            raise GenerateError("name '{}' of a type in {} is reserved in generated code".format(name, node.name))
+    optionals = ['has_' + member.name for member in node.members if member.optional]
+    paddings = [member.name for member in node.members if re.match('_padding[0-9]+$', member.name)]
+    check_members(node, parts + optionals, paddings)
+    if node.name in parts or node.name == 'payload':
+        raise GenerateError("name '{}' of a type is reserved in generated code".format(node.name))
 
 
 def get_array_size(member, hidden):
@@ -84,8 +91,9 @@ def get_array_size(member, hidden):
 def _get_hidden_names(struct):
     """Names which mean something else than a constant in definition or swap of struct."""
     names = set(['payload']) | reserved_names[model.Struct]
-    for member in struct.members:
-        names.update([member.name, 'has_' + member.name])
+    for index, member in enumerate(struct.members):
+        names.update([member.name, 'has_' + member.name, 'part{}'.format(index + 2)])
+        names.update('_padding{}'.format(3 * index + offset) for offset in range(3))
     return names
 
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 34ba089..055bd48 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -29,8 +29,8 @@ def _get_reserved_names():
         to_literal
         """.split())
     return {
-        model.Constant: scope | frozenset(["array"]),
-        model.Typedef: scope | frozenset("decode encode message optional print".split()),
+        model.Constant: scope | frozenset("array optional".split()),
+        model.Typedef: scope | frozenset("array decode encode message optional print".split()),
         model.Enum: types,
         model.EnumMember: types | frozenset(["x"]),
         model.Struct: types | frozenset(["E"]),
@@ -387,7 +387,7 @@ class _CppTranslator(TranslatorBase):
 
 def _get_hidden_names(node):
     """Names which mean something else than a constant in message class or in its codec."""
-    names = set(m.name for m in node.members)
+    names = set(m.name for m in node.members) | set('_{}'.format(i + 1) for i in range(len(node.members)))
     return names | reserved_names[model.Struct] | set('E end indent out pos x'.split())
 
 
@@ -681,6 +681,8 @@ def _get_own_names(node):
     for m in node.members:
         if getattr(m, 'optional', False):
             yield 'optional'
+        if getattr(m, 'is_fixed', False):
+            yield 'array'
         definition = m.definition
         while isinstance(definition, model.Typedef):
             definition = definition.definition
@@ -699,7 +701,7 @@ class CppFullGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)):
                 check_size(n)
-                check_members(n, _get_own_names(n))
+                check_members(n, [], set(_get_own_names(n)))
             if isinstance(n, model.Struct):
                 occured = set()
                 for m in n.members:
-- 
2.43.0


From 83062d9c4315b4cf07c49af23cec905980a523b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:17 +0000
Subject: [PATCH 59/61] fix: let add() take a field named self

Elements with a field named self could not be added with its value, since
the name was taken by the first parameter of the method.
---
 prophy/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/container.py b/prophy/container.py
index f9a5968..79ef492 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -162,7 +162,10 @@ class bound_composite_array(base_array):
     def __init__(self):
         super(bound_composite_array, self).__init__()
 
-    def add(self, **attributes):
+    def add(*args, **attributes):
+        if len(args) != 1:
+            raise TypeError("add() takes only named arguments")
+        self = args[0]  # not a named parameter, since there may be a field with this name
         if self._max_len and len(self) == self._max_len:
             raise ProphyError("exceeded array limit")
 
-- 
2.43.0


From 709415bd82ccc7b1e3e840abbff796bb461a1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:54 +0000
Subject: [PATCH 60/61] fix: refuse structs without members in C++ full codec,
 which doesn't compile

---
 prophyc/generators/cpp_full.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 055bd48..a9d9571 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -703,6 +703,8 @@ class CppFullGenerator(GeneratorBase):
                 check_size(n)
                 check_members(n, [], set(_get_own_names(n)))
             if isinstance(n, model.Struct):
+                if not n.members:
+                    raise GenerateError("struct '{}' has no members".format(n.name))
                 occured = set()
                 for m in n.members:
                     if m.bound:
-- 
2.43.0


From 87fe7a2c8a6da7e18f0e20d6059c6b15889c8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:55 +0000
Subject: [PATCH 61/61] fix: refuse members hiding methods of C++ full
 messages, whose users don't compile

---
 prophyc/generators/cpp_full.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index a9d9571..cd00940 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -20,6 +20,7 @@ BUILTIN2C = {
 
 def _get_reserved_names():
     members = cpp_reserved | frozenset("EOF assert encoded_byte_size errno get_byte_size offsetof size_t".split())
+    methods = frozenset("decode encode print".split())
     scope = members | frozenset("nullptr_t prophy ptrdiff_t std stdin uintptr_t".split())
     types = scope | frozenset("""
         align align_ptr alignment array big byte_size codec_traits decode decode_int decoder decoder_greedy detail
@@ -34,9 +35,9 @@ def _get_reserved_names():
         model.Enum: types,
         model.EnumMember: types | frozenset(["x"]),
         model.Struct: types | frozenset(["E"]),
-        model.StructMember: members,
+        model.StructMember: members | methods,
         model.Union: types | frozenset(["E", "discriminator"]),
-        model.UnionMember: members,
+        model.UnionMember: members | methods,
     }
 
 
-- 
2.43.0

