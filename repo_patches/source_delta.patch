From 78631b3635d8afb21ae4bad3be7e1e07142e985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 01/45] fix: compute manifest tree height with exact integer
 arithmetic

---
 ccnpy/flic/tree/OptimizerResult.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/OptimizerResult.py b/ccnpy/flic/tree/OptimizerResult.py
index b9991de..4ef0b30 100755
--- a/ccnpy/flic/tree/OptimizerResult.py
+++ b/ccnpy/flic/tree/OptimizerResult.py
@@ -66,17 +66,23 @@ class OptimizerResult:
         """
         if self._indirect_per_node == 1:
             # a chain
-            return self.total_nodes()
+            return max(0, self.total_nodes() - 1)
 
         if self._indirect_per_node == 0:
             # a tree with data only at the leaves
             # we need _num_data_objects leaf pointers, so that happens at
             return int(math.ceil(math.log(self._num_data_objects, self._direct_per_node)))
 
+        # The smallest h such that a full k-ary tree of height h has at least n nodes.  This uses
+        # integer arithmetic because the floating point logarithm may be just over an exact integer.
         k = self._indirect_per_node
         n = self.total_nodes()
-        arg = (k-1) * n + 1
-        return int(math.ceil(math.log(arg, self._indirect_per_node) - 1))
+        height = 0
+        capacity = 1
+        while capacity < n:
+            height += 1
+            capacity = capacity * k + 1
+        return height
 
     def _calculate_num_leaf_nodes(self):
         num_internal_direct = self._num_internal_nodes * self._direct_per_node
-- 
2.43.0


From 9ff0b9aea32395f7c6b5e4727d2ac729e98d25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/45] fix: keep non-root manifests within max_packet_size
 when they carry names, expiry times or sizes

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 41 +++++++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..e5f75da 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -64,13 +64,11 @@ class ManifestSizeCalculator:
         # +1 because we already have 1 hash in the manifest
         num_hashes = int(slack / hash_value_len) + 1
 
-        # Now validate that it works
-        packet = self._build_manifest_packet(num_hashes, hv)
-        length = len(packet)
-        if length > self._max_packet_size:
-            raise ValueError(
-                "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
-                (length, num_hashes, hash_value_len, self._max_packet_size))
+        # Now validate that it works with the name, expiry time, and sizes a manifest will really have
+        packet = self._build_largest_packet(num_hashes, hv)
+        while len(packet) > self._max_packet_size and num_hashes > 1:
+            num_hashes -= 1
+            packet = self._build_largest_packet(num_hashes, hv)
 
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
 
@@ -108,6 +106,35 @@ class ManifestSizeCalculator:
 
         return packet
 
+    def _build_largest_packet(self, num_hashes, hv):
+        """
+        The largest non-root manifest for the given number of pointers.
+
+        We use total bytes for both the direct and indirect sizes, which might reserve more than is necessary
+        if there is only one hash group.
+        """
+        tree_options = self._manifest_factory.tree_options()
+        hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct=num_hashes, max_indirect=1)
+        for i in range(num_hashes - 1):
+            hgb.prepend_direct(hv, leaf_size=self._total_bytes if i == 0 else 0)
+        hgb.prepend_indirect(hv, subtree_size=self._total_bytes)
+
+        indirect_start_segment_id = direct_start_segment_id = None
+        if self._name_ctx.manifest_schema_impl.uses_name_id():
+            indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
+        if self._name_ctx.data_schema_impl.uses_name_id():
+            direct_start_segment_id = StartSegmentId(SchemaImpl._MAX_CHUNK_ID)
+
+        hash_groups = hgb.hash_groups(include_leaf_size=tree_options.add_group_leaf_size,
+                                      include_subtree_size=tree_options.add_group_subtree_size,
+                                      indirect_start_segment_id=indirect_start_segment_id,
+                                      direct_start_segment_id=direct_start_segment_id)
+
+        return self._manifest_factory.build_packet(source=hash_groups,
+                                                   node_subtree_size=self._total_bytes,
+                                                   name=self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID),
+                                                   expiry_time=tree_options.manifest_expiry_time)
+
     def _build_single_hash_group(self, indirect_ptrs, direct_ptrs, nc_id):
         # We use total bytes for the subtree size and leaf size.  This might end up reserving one one more byte
         # than necessary if it overflows.
-- 
2.43.0


From c4057073f66924bfdc9abd469cd90f92a18c20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 03/45] fix: never report a negative number of interior nodes

---
 ccnpy/flic/tree/TreeOptimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d5750f5..f691fdc 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -86,7 +86,8 @@ class TreeOptimizer:
             else:
                 return 1
 
-        k = math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1)))
+        # if everything fits in one leaf node, there are no interior nodes
+        k = max(0, math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1))))
         return k
 
     @staticmethod
-- 
2.43.0


From 79c559543297ff52ed928df8cdb1301130a4cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 04/45] fix: compute manifest ids with integer arithmetic

---
 ccnpy/flic/tree/ManifestIdFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestIdFactory.py b/ccnpy/flic/tree/ManifestIdFactory.py
index 107c70f..626a0a3 100644
--- a/ccnpy/flic/tree/ManifestIdFactory.py
+++ b/ccnpy/flic/tree/ManifestIdFactory.py
@@ -36,7 +36,7 @@ class ManifestIdFactory:
         if self._tree_degree == 1:
             return h
         assert self._tree_degree > 1
-        return int((pow(self._tree_degree, (h+1))-1) / (self._tree_degree-1) - 1)
+        return (pow(self._tree_degree, (h+1))-1) // (self._tree_degree-1) - 1
 
     def get_next_id(self, height) -> int:
         next_id = self._next_ids[height]
-- 
2.43.0


From b0e7a5b3a3ff3954548f402740db7d180a9360bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 05/45] fix: keep the millisecond value of a timestamp when it
 is parsed and serialized again

---
 ccnpy/core/Timestamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..79d68d7 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,8 +75,8 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
-        return msec
+        # round, do not truncate: n / 1000.0 * 1000 may be just under n
+        return round(self.timestamp() * 1000)
 
     def datetime(self):
         try:
-- 
2.43.0


From 6f55e1ab2385a44cfde23ebeb5c4595ac64e2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 06/45] fix: compare objects by type and wire encoding

---
 ccnpy/core/ContentObject.py            | 2 +-
 ccnpy/core/FixedHeader.py              | 2 +-
 ccnpy/core/KeyLink.py                  | 2 +-
 ccnpy/core/Link.py                     | 2 +-
 ccnpy/core/Name.py                     | 2 +-
 ccnpy/core/Packet.py                   | 2 +-
 ccnpy/core/PayloadType.py              | 2 +-
 ccnpy/core/Timestamp.py                | 2 +-
 ccnpy/core/Tlv.py                      | 7 +------
 ccnpy/core/TlvType.py                  | 4 ++--
 ccnpy/core/ValidationAlg.py            | 2 +-
 ccnpy/core/ValidationPayload.py        | 2 +-
 ccnpy/flic/tlvs/GroupData.py           | 2 +-
 ccnpy/flic/tlvs/Locator.py             | 2 +-
 ccnpy/flic/tlvs/Locators.py            | 2 +-
 ccnpy/flic/tlvs/NcSchema.py            | 2 +-
 ccnpy/flic/tlvs/Node.py                | 2 +-
 ccnpy/flic/tlvs/NodeData.py            | 2 +-
 ccnpy/flic/tlvs/Pointers.py            | 2 +-
 ccnpy/flic/tlvs/SuffixComponentType.py | 2 +-
 ccnpy/flic/tlvs/Vendor.py              | 2 +-
 21 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..98eace9 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -164,7 +164,7 @@ class ContentObject(TlvType):
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __len__(self):
         """
diff --git a/ccnpy/core/FixedHeader.py b/ccnpy/core/FixedHeader.py
index 2e4e81e..b64864e 100755
--- a/ccnpy/core/FixedHeader.py
+++ b/ccnpy/core/FixedHeader.py
@@ -51,7 +51,7 @@ class FixedHeader:
                 DisplayFormatter.hexlify(self._fields), self._header_length)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
+        if isinstance(other, self.__class__) and self.__dict__ == other.__dict__:
             return True
         return False
 
diff --git a/ccnpy/core/KeyLink.py b/ccnpy/core/KeyLink.py
index 38a439d..74f2464 100755
--- a/ccnpy/core/KeyLink.py
+++ b/ccnpy/core/KeyLink.py
@@ -31,7 +31,7 @@ class KeyLink(TlvType):
         self._tlv = Tlv(self.class_type(), link)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "KeyLink: {link: %r}" % self._link
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..55069fc 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,7 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..63095e5 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,7 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, Name) and self._tlv == other._tlv
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..8869353 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -90,7 +90,7 @@ class Packet:
         return array.array("B", byte_list)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "{Packet: {%r, %r, %r, %r}}" % (self._header, self._body, self._validation_alg, self._validation_payload)
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..114b354 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,7 +50,7 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 79d68d7..ddb330e 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,7 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return self.timestamp() == other.timestamp()
+        return isinstance(other, Timestamp) and self._tlv == other._tlv
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..a5955fb 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,7 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        return isinstance(other, Tlv) and self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..a295f8d 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -132,7 +132,7 @@ class IntegerTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, IntegerTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __hash__(self):
         return hash(self._tlv)
@@ -185,7 +185,7 @@ class OctetTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, OctetTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..4934068 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,7 +76,7 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __len__(self):
         return len(self._tlv)
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..5201de9 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,7 +31,7 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
-        return self.payload() == other.payload()
+        return isinstance(other, ValidationPayload) and self._tlv == other._tlv
 
     def __repr__(self):
         return "ValPld: %r" % DisplayFormatter.hexlify(self._payload)
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..aa63d68 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,7 +76,7 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return ("GroupData: {%r, %r, %r, %r, %r, %r}" %
diff --git a/ccnpy/flic/tlvs/Locator.py b/ccnpy/flic/tlvs/Locator.py
index d8bf315..a62483e 100755
--- a/ccnpy/flic/tlvs/Locator.py
+++ b/ccnpy/flic/tlvs/Locator.py
@@ -64,7 +64,7 @@ class Locator(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Locator: %r" % self._link
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..76953ae 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,7 +69,7 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
+        if isinstance(other, self.__class__) and self.__dict__ == other.__dict__:
             return True
         return False
 
diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..a7d9661 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -32,7 +32,7 @@ class NcSchema(TlvType, ABC):
     Generic supertype of the name constructor schemas
     """
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..975cdaa 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -113,7 +113,7 @@ class Node(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
+        if isinstance(other, self.__class__) and self.__dict__ == other.__dict__:
             return True
         return False
 
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..c6e9ca3 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,7 +95,7 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "NodeData: {%r, %r, %r, %r, %r}" % (self._subtree_size, self._subtree_digest, self._locators, self._nc_defs, self._vendors)
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..4238cd5 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,7 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..e0851f5 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,7 +43,7 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, self.__class__) and self.__dict__ == other.__dict__
 
     def value(self):
         return self._value
diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..e71c5d3 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,7 +46,7 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
+        if isinstance(other, self.__class__) and self.__dict__ == other.__dict__:
             return True
         return False
 
-- 
2.43.0


From fad9ad78860cf0187c16be8e9f0c1d2aff369560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 07/45] fix: iterating a TLV, link or pointer list does not
 change it

---
 ccnpy/core/HashValue.py     | 11 +----------
 ccnpy/core/Link.py          | 13 +------------
 ccnpy/core/Timestamp.py     | 11 +----------
 ccnpy/core/Tlv.py           | 11 +----------
 ccnpy/flic/tlvs/Pointers.py | 11 +----------
 5 files changed, 5 insertions(+), 52 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..7840b0d 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,7 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 55069fc..92646b9 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,8 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
 
         self._wire_format = array.array("B", [])
         if self._name is not None:
@@ -78,16 +76,7 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index ddb330e..bbc9e16 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -49,16 +49,7 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index a5955fb..3594982 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,7 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         return isinstance(other, Tlv) and self._wire_format == other._wire_format
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 4238cd5..41a0ea7 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -60,16 +60,7 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0


From 792a78d76e34539b863dc1e7bfa89166a14d3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 08/45] fix: following a link by name in a packet directory no
 longer fails with NameError

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From a7c892560f97a55273f2d8c27894e445b5492ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 09/45] fix: a traversal rejects packets that do not match the
 hash pointer

---
 ccnpy/flic/tree/Traversal.py | 10 +++++++++-
 ccnpy/flic/tree/TreeIO.py    |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index ba8842c..8431a69 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -86,6 +86,7 @@ class Traversal:
         nc_cache = Traversal.NameConstructorCache()
         root_packet = self._packet_input.get(name=root_name, hash_restriction=hash_restriction)
         self.logger.debug('Traversal root packet: %s', root_packet)
+        self._check_hash_restriction(packet=root_packet, hash_restriction=hash_restriction)
 
         self._validator.validate_packet(packet=root_packet)
         self.preorder(packet=root_packet, nc_cache=nc_cache)
@@ -212,4 +213,11 @@ class Traversal:
         schema_impl = nc_cache.cache[nc_id]
         interest_name = schema_impl.get_name(segment_id)
         self.logger.debug('fetch_packet: %s, %s', interest_name, hash_value)
-        return self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        packet = self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        self._check_hash_restriction(packet=packet, hash_restriction=hash_value)
+        return packet
+
+    @staticmethod
+    def _check_hash_restriction(packet: Optional[Packet], hash_restriction: Optional[HashValue]):
+        if packet is not None and hash_restriction is not None and packet.content_object_hash() != hash_restriction:
+            raise ValueError(f'Packet hash {packet.content_object_hash()} does not match hash restriction {hash_restriction}')
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..79bbf6d 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,6 +268,8 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
+                if packet.content_object_hash() != link.digest():
+                    raise ValueError(f'Link {link_path} is for hash {link.digest()}, but found packet hash {packet.content_object_hash()}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From d5a922980ae15e8fc271b3c4d41395185c9a1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 10/45] fix: wrap and unwrap RSA-OAEP keys with a KDF that has
 no KdfInfo

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..6f4b7fe 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
-- 
2.43.0


From 7be3d343307274422a511631fce13bbf284d64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/45] fix: RsaOaepDecryptor.decrypt_node called its security
 context

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From 9e558ae6d98788c136926eb04044d522d168af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 12/45] fix: the decryptor cache returned a stale or mismatched
 decryptor

---
 ccnpy/flic/tree/DecryptorCache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..2a2982d 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -37,11 +37,16 @@ class DecryptorCache:
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
         # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
+        # RsaOaepDecryptor has its own cache, so only remember the AeadCtx decryptors
+        if isinstance(security_ctx, RsaOaepCtx):
+            return self._oaep_decryptor
+
         key_num = security_ctx.key_number()
         if key_num == self._last_key_num:
             return self._last_decryptor
-        self._last_key_num = key_num
+        # if this raises an exception, keep the last good pair
         self._last_decryptor = self._create(security_ctx)
+        self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-- 
2.43.0


From cbdcdfd4e7d1f18af13225451ef7bb179c6343ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 13/45] fix: decrypt_manifest returns None when the AES key is
 not in the keystore

---
 ccnpy/apps/packet_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..4393f4e 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,6 +80,9 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
-- 
2.43.0


From 6ff6df9a85c194ed00b2b935ff8307c485ad967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 14/45] fix: create and parse RSA validation algorithms with an
 embedded public key or key link

---
 ccnpy/core/ValidationAlg.py | 15 +++++++--------
 ccnpy/crypto/RsaKey.py      | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 4934068..7988dfa 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -113,7 +113,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         """
         :param keyid: The keyid to include in the ValidationAlg (HashValue)
         :param public_key: A crypto.RsaKey with a public key to embed in the ValidationAlg (RsaKey)
-        :param key_link: A Link to include in the ValidationAlg (Link)
+        :param key_link: A Link or KeyLink to include in the ValidationAlg
         :param signature_time: A datetime when the signature was created (uses now if None) (SignatureTime)
         """
         ValidationAlg.__init__(self)
@@ -128,10 +128,10 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         tlvs.append(KeyId(keyid))
 
         if public_key is not None:
-            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.der()))
+            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.public_key_der()))
 
         if key_link is not None:
-            tlvs.append(Tlv(KeyLink.class_type(), key_link))
+            tlvs.append(key_link if isinstance(key_link, KeyLink) else KeyLink(key_link))
 
         if signature_time is None:
             signature_time = datetime.now(UTC)
@@ -189,12 +189,11 @@ class ValidationAlg_RsaSha256(ValidationAlg):
             elif inner_tlv.type() == SignatureTime.class_type():
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
-                der = inner_tlv.value()
-                # TODO: convert from DER to Public Key
-                raise RuntimeError("Not implemented")
+                # deferred because of a circular import
+                from ..crypto.RsaKey import RsaKey
+                public_key = RsaKey.from_public_key_der(inner_tlv.value())
             elif inner_tlv.type() == KeyLink.class_type():
-                # TODO: process a LINK type
-                raise RuntimeError("Not implemented")
+                key_link = KeyLink.parse(inner_tlv)
             offset += len(inner_tlv)
         return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
 
diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..22a3956 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -31,9 +31,6 @@ from ..core.HashValue import HashValue
 
 
 class RsaKey:
-    """
-    TODO: Need a way to create an RSA key from the DER encoded public key
-    """
     logger = logging.getLogger(__name__)
     _SHA256_OVERHEAD = 66 #RSA OAEP overhead for sha 256 hash
 
@@ -281,6 +278,19 @@ class RsaKey:
             pem = key_file.read()
             return cls(pem, password)
 
+    @classmethod
+    def from_public_key_der(cls, der):
+        """
+        :param der: The DER encoded public key, as from `public_key_der()` (bytes or an array)
+        :return: An RsaKey that can only verify
+        """
+        public_key = serialization.load_der_public_key(bytes(der), backend=default_backend())
+        if not isinstance(public_key, rsa.RSAPublicKey):
+            raise ValueError("The DER encoded public key is not an RSA key")
+        return cls(pem_key=public_key.public_bytes(
+                encoding=serialization.Encoding.PEM,
+                format=serialization.PublicFormat.SubjectPublicKeyInfo))
+
     def keyid(self) -> HashValue:
         """
         sha256 of the public key in DER format returned in a ccnpy.HashValue
-- 
2.43.0


From 933b809c4eeecd0d1a67af57f40ea2496a74ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 15/45] fix: parsing an RSA validation algorithm without a
 signature time does not add the current time

---
 ccnpy/core/ValidationAlg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 7988dfa..324061c 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -104,6 +104,8 @@ class ValidationAlg_RsaSha256(ValidationAlg):
     __T_PUBLICKEYLOC = 0x000A
     __T_PUBLICKEY = 0x000B
 
+    # Used when parsing, where a missing signature time must not turn into the current time
+    __NO_SIGNATURE_TIME = object()
 
     @classmethod
     def class_type(cls):
@@ -136,7 +138,9 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         if signature_time is None:
             signature_time = datetime.now(UTC)
 
-        if isinstance(signature_time, datetime):
+        if signature_time is self.__NO_SIGNATURE_TIME:
+            signature_time = None
+        elif isinstance(signature_time, datetime):
             signature_time = SignatureTime.from_datetime(signature_time)
         elif not isinstance(signature_time, SignatureTime):
             raise TypeError("signature_time must be None (for now), a datetime (UTC), or a SignatureTime")
@@ -179,7 +183,8 @@ class ValidationAlg_RsaSha256(ValidationAlg):
             raise ValueError("Incorrect TLV type %r" % tlv.type())
 
         # Now parse the body for the inner TLVs
-        keyid = public_key = key_link = signature_time = None
+        keyid = public_key = key_link = None
+        signature_time = cls.__NO_SIGNATURE_TIME
         offset = 0
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
-- 
2.43.0


From 0ebdcfebd2d61dbf908218f89f323b0b736b3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 16/45] fix: encrypt manifests with the KDF derived key when a
 KDF is configured

---
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py |  9 +++----
 ccnpy/flic/aeadctx/AeadImpl.py       | 36 +++++++++++++++++-----------
 ccnpy/flic/tlvs/KdfAlg.py            |  6 +++++
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..b9b9534 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -178,10 +178,11 @@ class RsaOaepImpl(AeadImpl):
             if not (mode.is_aes_ccm_128() or mode.is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
diff --git a/ccnpy/flic/aeadctx/AeadImpl.py b/ccnpy/flic/aeadctx/AeadImpl.py
index a359fa5..9937c7d 100755
--- a/ccnpy/flic/aeadctx/AeadImpl.py
+++ b/ccnpy/flic/aeadctx/AeadImpl.py
@@ -14,6 +14,7 @@
 import logging
 import math
 from array import array
+from typing import Optional
 
 from .AeadData import AeadData
 from .AeadParameters import AeadParameters
@@ -21,6 +22,7 @@ from ..tlvs.AeadCtx import AeadCtx
 from ..tlvs.AeadMode import AeadMode
 from ..tlvs.AuthTag import AuthTag
 from ..tlvs.EncryptedNode import EncryptedNode
+from ..tlvs.KdfData import KdfData
 from ..tlvs.Manifest import Manifest
 from ..tlvs.Node import Node
 from ..tlvs.SecurityCtx import AeadSecurityCtx
@@ -46,21 +48,25 @@ class AeadImpl:
         self._params = params
         self.logger.debug(self)
 
-    def  _derive_key(self, key: AeadKey) -> AeadKey:
-        if self._params.kdf_data is None:
+    def  _derive_key(self, key: AeadKey, kdf_data: Optional[KdfData]) -> AeadKey:
+        """
+        :param key: The key derivation key
+        :param kdf_data: The KDF to use, from the security context.  If None, use `key` as is.
+        """
+        if kdf_data is None:
             return key
-        assert self._params.kdf_data.kdf_info() is not None
 
+        kdf_info = kdf_data.kdf_info()
         mode = AeadMode.from_key(key)
         fixed_info = (b'FLIC'
                       + self._params.key_number.serialize().tobytes()
                       + mode.serialize().tobytes()
-                      + self._params.kdf_data.kdf_info().serialize().tobytes())
-        derived_bytes = KDF.derive(kdf_id=self._params.kdf_data.kdf_alg().value(),
-                                     input_key=key.key(),
+                      + (b'' if kdf_info is None else kdf_info.serialize().tobytes()))
+        derived_bytes = KDF.derive(kdf_id=kdf_data.kdf_alg().identifier(),
+                                     input_key=bytes(key.key()),
                                      length=math.ceil(len(key) / 8),
                                      info=fixed_info,
-                                     salt=self._params.kdf_salt
+                                     salt=self._params.kdf_salt_bytes
                                      )
         if isinstance(key, AeadGcm):
             return AeadGcm(derived_bytes)
@@ -141,9 +147,10 @@ class AeadImpl:
         iv = self._iv_from_nonce(security_ctx.nonce().value())
 
         plaintext = node.serialized_value()
-        ciphertext, a = self._params.key.encrypt(iv=iv,
-                                          plaintext=plaintext,
-                                          associated_data=security_ctx.serialize())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        ciphertext, a = key.encrypt(iv=iv,
+                                    plaintext=plaintext,
+                                    associated_data=security_ctx.serialize())
 
         encrypted_node = EncryptedNode(ciphertext)
         auth_tag = AuthTag(a)
@@ -194,10 +201,11 @@ class AeadImpl:
             if not (security_ctx.aead_data().mode().is_aes_ccm_128() or security_ctx.aead_data().mode().is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
diff --git a/ccnpy/flic/tlvs/KdfAlg.py b/ccnpy/flic/tlvs/KdfAlg.py
index 1301bdf..774976f 100755
--- a/ccnpy/flic/tlvs/KdfAlg.py
+++ b/ccnpy/flic/tlvs/KdfAlg.py
@@ -39,6 +39,12 @@ class KdfAlg(IntegerTlvType):
             value = value.number
         super().__init__(value)
 
+    def identifier(self) -> HpkeKdfIdentifiers:
+        for x in HpkeKdfIdentifiers:
+            if x.number == self._value:
+                return x
+        raise ValueError(f"Unsupported KDF algorithm: {self._value}")
+
     def __repr__(self):
         return f"KdfAlg ({self._value})"
 
-- 
2.43.0


From 0a6427bf697fb5ed55963cf31197cc6395ebcc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 17/45] fix: the default --key-num is the same in the manifest
 writer and readers

---
 ccnpy/apps/cli_utils.py       | 4 ++++
 ccnpy/apps/manifest_writer.py | 4 ----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..9d899dd 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -103,6 +104,9 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
 
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
+    if args.key_num is None and key is not None:
+        # The writer and the readers must come up with the same default: the left 8 bytes of a sha256
+        args.key_num = KeyNumber(int.from_bytes(hashlib.sha256(args.enc_key).digest()[0:8], byteorder='big'))
     params = AeadParameters(
         key=key,
         key_number=args.key_num,
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From b8b6c239036eb8c861e461dcb391852094bcfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 18/45] fix: accept a string password for an encrypted PEM key

---
 ccnpy/crypto/RsaKey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 22a3956..bb75994 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -66,6 +66,9 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            # such as from the command line
+            password = password.encode()
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From 0fbcc90cfbf90b430b4a664483d38618e4fda7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 19/45] fix: manifest_reader --hash takes a content object hash

---
 ccnpy/apps/manifest_reader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..d3665e5 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -17,6 +17,7 @@ import logging
 import sys
 from abc import ABC, abstractmethod
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
@@ -70,7 +71,7 @@ class ManifestDirectoryReader(ManifestReader):
         """
         super().__init__()
         self._root_name = Name.from_uri(args.name)
-        self._root_hash = args.hash_restriction
+        self._root_hash = self._parse_hash(args.hash_restriction)
         self._dir = args.in_dir
         self._keystore = keystore
         self._reader = TreeIO.PacketDirectoryReader(self._dir)
@@ -88,6 +89,15 @@ class ManifestDirectoryReader(ManifestReader):
             self._writer.close()
             self._writer = None
 
+    @staticmethod
+    def _parse_hash(value):
+        """
+        :param value: A sha256 content object hash in hex, with or without a leading '0x'
+        """
+        if value is None or isinstance(value, HashValue):
+            return value
+        return HashValue.create_sha256(bytes.fromhex(value.removeprefix('0x')))
+
     @staticmethod
     def _create_writer(args):
         if args.output_file_name is None:
@@ -120,7 +130,7 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, help='Content object hash of the root manifest (hex)', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From e6e848a71a02b0bdec77f25eb0752d52b104fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 20/45] fix: Pad.parse could not parse a Pad

---
 ccnpy/core/Pad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..ce784e8 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,10 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(tlv.length())
-- 
2.43.0


From 30edb0294dc7c127ce3ef24443dc464f281e5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 21/45] fix: Vendor.parse rejects a value that is too short for
 a PEN

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index e71c5d3..7b3d964 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -67,7 +67,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From d667f068f7b2f713f04f9f349df7f85e8cebbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 22/45] fix: a name constructor schema with protocol flags
 could not be created

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index a7d9661..735dab7 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From b76658a1597738b04650b2a5e6ccbf1113dfb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 23/45] fix: refuse integers that do not fit in 8 bytes instead
 of truncating them

---
 ccnpy/core/Tlv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 3594982..2699570 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -185,6 +185,9 @@ class Tlv(Serializable):
 
 
         """
+        if n > 0xFFFFFFFFFFFFFFFF:
+            raise ValueError(f"{n} does not fit in 8 bytes")
+
         if n < 0x100:
             byte_array = [n]
         elif n < 0x10000:
@@ -208,6 +211,9 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
+        if n > 0xFFFFFFFFFFFFFFFF:
+            raise ValueError(f"{n} does not fit in 8 bytes")
+
         byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                       (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         return array.array("B", byte_array)
-- 
2.43.0


From 11d39833339e1e2180725c3130dc3b4537d7b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 24/45] fix: an embedded public key of an unsupported kind is
 rejected with ValueError

---
 ccnpy/crypto/RsaKey.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index bb75994..4c2731f 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -19,7 +19,7 @@ import logging
 import math
 from typing import Optional
 
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives import serialization
@@ -287,7 +287,10 @@ class RsaKey:
         :param der: The DER encoded public key, as from `public_key_der()` (bytes or an array)
         :return: An RsaKey that can only verify
         """
-        public_key = serialization.load_der_public_key(bytes(der), backend=default_backend())
+        try:
+            public_key = serialization.load_der_public_key(bytes(der), backend=default_backend())
+        except UnsupportedAlgorithm as e:
+            raise ValueError(f"The DER encoded public key is not supported: {e}")
         if not isinstance(public_key, rsa.RSAPublicKey):
             raise ValueError("The DER encoded public key is not an RSA key")
         return cls(pem_key=public_key.public_bytes(
-- 
2.43.0


From ec946eb4b04d5b9431552990d8c7d00a4c075004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 25/45] fix: printing a name with a segment that is not UTF-8
 raised UnicodeDecodeError

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 63095e5..8564051 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,7 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            return f"Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}"
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From fc7944f3114d89f89721d2ccaf400a728a3a1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 26/45] fix: group subtree sizes left out the sub-manifests
 unless node subtree sizes were also on

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 ++
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..50e3e69 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,6 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
+    # The number of application data bytes under the node, if known
+    subtree_size: Optional[int] = None
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From 7767556cdcc6b497f765bb260d27ab6ce0dbc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 27/45] fix: a manifest tree deeper than about 490 levels could
 not be traversed (RecursionError)

---
 ccnpy/flic/tree/Traversal.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index 8431a69..15a59b3 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -12,7 +12,7 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 import logging
-from typing import Optional, Dict, List
+from typing import Optional, Dict, Iterator, List, Tuple
 
 from .DecryptorCache import DecryptorCache
 from .ManifestGraph import ManifestGraph
@@ -100,11 +100,30 @@ class Traversal:
         :param nc_cache: The name constructor cache.  It may be modified as we traverse down branches.
         :return:
         """
-        self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
-
         if nc_cache is None:
             nc_cache = Traversal.NameConstructorCache()
 
+        # This is not recursive, because a manifest tree may be deeper than the python recursion limit
+        stack = [iter([(packet, nc_cache)])]
+        while len(stack) > 0:
+            try:
+                child = next(stack[-1], None)
+            except Exception as e:
+                print(f'Error {e} processing the manifest at depth {len(stack) - 2}')
+                raise
+            if child is None:
+                stack.pop()
+            else:
+                stack.append(self._visit(*child))
+
+    def _visit(self, packet: Packet, nc_cache: NameConstructorCache) -> Iterator[Tuple[Packet, NameConstructorCache]]:
+        """
+        Visit one packet of the tree.
+
+        :return: An iterator over the children of the packet, which is empty for a Data content object.
+        """
+        self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
+
         if not isinstance(packet, Packet):
             raise TypeError("node must be ccnpy.Packet")
 
@@ -121,11 +140,7 @@ class Traversal:
             self.logger.debug("Preorder: %s", manifest)
 
             nc_cache = self._update_nc_cache(nc_cache=nc_cache, manifest=manifest)
-            try:
-                self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
-            except Exception as e:
-                print(f'Error {e} processing {manifest}')
-                raise
+            return self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
 
         elif body.payload_type().is_data():
             self.logger.debug("Traversal: %s", body)
@@ -134,6 +149,7 @@ class Traversal:
                 self._manifest_graph.add_data(data_hash=packet.content_object_hash(), name=packet.body().name())
 
             self._write_data(body.payload())
+            return iter([])
 
         else:
             raise ValueError("Unsupported payload type: %r" % body)
@@ -143,7 +159,7 @@ class Traversal:
             self.logger.debug('Traversal save %d bytes', len(payload.value()))
             self._data_writer.write(payload.value())
 
-    def _visit_children(self, parent_packet: Packet, manifest: Manifest, nc_cache: NameConstructorCache):
+    def _visit_children(self, parent_packet: Packet, manifest: Manifest, nc_cache: NameConstructorCache) -> Iterator[Tuple[Packet, NameConstructorCache]]:
         """
         A child may be a direct pointer to local data or an indirect pointer to another
         manifest.  In the pre-order traversal, we do not distinguish (nor can we) between these.
@@ -168,7 +184,7 @@ class Traversal:
             self.logger.debug('visit_children: child %s', packet)
 
             self._validator.validate_packet(packet=packet)
-            self.preorder(packet=packet, nc_cache=nc_cache)
+            yield packet, nc_cache
 
         if self.logger.isEnabledFor(logging.DEBUG):
             packet_id = DisplayFormatter.hexlify(parent_packet.content_object_hash().value())
-- 
2.43.0


From c25bf53994781e0ada3e9351cd256c65bf981063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:40 +0000
Subject: [PATCH 28/45] fix: pointers made by a hash group builder changed when
 more pointers were added

---
 ccnpy/flic/tlvs/Pointers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 41a0ea7..dd536dd 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -44,7 +44,8 @@ class Pointers(TlvType):
         if hash_values is None or not isinstance(hash_values, list):
             raise TypeError("hash_values must be a non-empty list of ccnpy.HashValue")
 
-        self._hash_values = hash_values
+        # A copy, because a HashGroupBuilder (or another caller) may add to its list afterwards
+        self._hash_values = list(hash_values)
         self._tlv = Tlv(self.class_type(), self._hash_values)
 
     def __len__(self):
-- 
2.43.0


From 244fd1549ffde7d1810606736c2cd08f83bee9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:43 +0000
Subject: [PATCH 29/45] fix: get_next_name of a segmented name constructor
 raised TypeError

---
 ccnpy/flic/name_constructor/SchemaImpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/name_constructor/SchemaImpl.py b/ccnpy/flic/name_constructor/SchemaImpl.py
index 58b2c4c..3f8115e 100644
--- a/ccnpy/flic/name_constructor/SchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SchemaImpl.py
@@ -54,7 +54,7 @@ class SchemaImpl(ABC):
         counter to track the generated names.
         """
         next_chunk_id = self._get_and_increment_next_chunk_id()
-        return self.get_name(chunk_id=next_chunk_id)
+        return self.get_name(next_chunk_id)
 
     def nc_id(self) -> NcId:
         return self._nc_id
-- 
2.43.0


From 9e98b33b7575e2a2c775992625c0ed6bb2217cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 30/45] fix: ManifestFactory.build_packet signs with the signer
 it is given

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From 7f5cef6acba23ba86b4f720f5a811441d5bf99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:28 +0000
Subject: [PATCH 31/45] fix: iterating a node with very many empty hash groups
 raised RecursionError

---
 ccnpy/flic/tlvs/Node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 975cdaa..eea710b 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -49,13 +49,13 @@ class Node(TlvType):
             self._ptr_index = 0
 
         def __next__(self):
+            # not recursive, because a node may have many empty hash groups
+            while self._group_index < len(self._groups) and self._ptr_index >= len(self._groups[self._group_index].pointers()):
+                self._ptr_index = 0
+                self._group_index += 1
             if self._group_index >= len(self._groups):
                 raise StopIteration
             hg = self._groups[self._group_index]
-            if self._ptr_index >= len(hg.pointers()):
-                self._ptr_index = 0
-                self._group_index += 1
-                return self.__next__()
             value = hg.pointers()[self._ptr_index]
             if hg.group_data() is None or hg.group_data().nc_id() is None:
                 raise ValueError("Every hash group must have a group data and NcId")
-- 
2.43.0


From 6269591d39ac0644b7f193d5bffba00cd2019af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 32/45] fix: a packet directory returned a file that does not
 have the hash it was asked for

---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 79bbf6d..20cd70e 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -241,6 +241,8 @@ class TreeIO:
             # ccnx does not use forwarding hint
             path = self.to_path(hash_restriction)
             p = Packet.load(path)
+            if p.content_object_hash() != hash_restriction:
+                raise ValueError(f'File {path} is for hash {hash_restriction}, but found packet hash {p.content_object_hash()}')
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
-- 
2.43.0


From 323dc35b8ffce195af8c65b7788ebd91fa2747c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:36 +0000
Subject: [PATCH 33/45] fix: link files of names with reserved characters could
 not be written or took each other's place

---
 ccnpy/flic/tree/TreeIO.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 20cd70e..80d3f92 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -13,12 +13,12 @@
 #  limitations under the License.
 
 import os
+import re
 import socket
 from abc import ABC
 from array import array
 from pathlib import PurePath, Path
 from typing import Optional, Dict
-from urllib.parse import urlparse
 
 from .SizedPointer import SizedPointer
 from ..tlvs.Locators import Locators
@@ -39,9 +39,11 @@ class TreeIO:
 
     @staticmethod
     def get_link_name(name: Name) -> str:
-        url = urlparse(name.as_uri())
-        filename = url.path
-        safename=filename.replace('/','~')
+        def escape(component) -> str:
+            # characters that separate components or are not allowed in a file name
+            return re.sub(r'[\x00-\x1f/~%]', lambda m: f'%{ord(m.group()):02X}', repr(component))
+
+        safename = '~' + '~'.join(escape(name.component(i)) for i in range(name.count()))
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
-- 
2.43.0


From 03d1d7e3d1e46e0e3592b629e241cc24ab5946ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 34/45] fix: following a link returned a packet of another name

---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 80d3f92..6a0adad 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -274,6 +274,8 @@ class TreeIO:
                 packet = Packet.load(hash_path)
                 if packet.content_object_hash() != link.digest():
                     raise ValueError(f'Link {link_path} is for hash {link.digest()}, but found packet hash {packet.content_object_hash()}')
+                if packet.body().name() != name:
+                    raise ValueError(f'Link {link_path} leads to {packet.body().name()}, but the request name is {name}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 7d57c1ba9c7a387ad43d48c2a1b42ed3dad293b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:32 +0000
Subject: [PATCH 35/45] fix: packets whose hashes start with the same three
 bytes were one node of the manifest graph

---
 ccnpy/flic/tree/ManifestGraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 700ec69..fed7efa 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -113,7 +113,7 @@ class ManifestGraph:
     def _create_graph(self):
         self._graph = nx.DiGraph()
         for entry in self._entries.values():
-            entry_name = self._hash_to_name(entry.parent)
+            entry_name = self._hash_to_node(entry.parent)
             if entry.is_data:
                 options = {
                     'color': 'green',
@@ -130,7 +130,7 @@ class ManifestGraph:
                 }
             self._graph.add_node(entry_name, **options)
             for child_hash in entry.children:
-                child_name = self._hash_to_name(child_hash)
+                child_name = self._hash_to_node(child_hash)
                 self._graph.add_edge(entry_name, child_name, weight=0.2)
 
     def plot(self):
@@ -181,6 +181,11 @@ class ManifestGraph:
 
         plt.show()
 
+    @staticmethod
+    def _hash_to_node(hash_value: HashValue) -> str:
+        # the whole hash, because two packets may share the first few bytes
+        return DisplayFormatter.hexlify(hash_value.value())
+
     @staticmethod
     def _hash_to_name(hash_value: HashValue) -> str:
         # only include the first 4 bytes
-- 
2.43.0


From 10235522e80d079ca93de3601716fecd663e87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 36/45] fix: a packet with an empty name could not be added to
 the manifest graph

---
 ccnpy/flic/tree/ManifestGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index fed7efa..a44ee5c 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -64,7 +64,7 @@ class ManifestGraph:
 
     @classmethod
     def _label_from_name(cls, hash_value: HashValue, name: Name):
-        if name is not None:
+        if name is not None and name.count() > 0:
             last_segment = name.component(name.count()-1)
             if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
                 return str(last_segment.value_as_number())
-- 
2.43.0


From 7f37690f8d6492a0280be8768384e3b43c3edb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:42 +0000
Subject: [PATCH 37/45] fix: a node with a hash group without pointers can be
 printed and traversed

---
 ccnpy/flic/tlvs/Node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index eea710b..507fa43 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -50,7 +50,7 @@ class Node(TlvType):
 
         def __next__(self):
             # not recursive, because a node may have many empty hash groups
-            while self._group_index < len(self._groups) and self._ptr_index >= len(self._groups[self._group_index].pointers()):
+            while self._group_index < len(self._groups) and self._ptr_index >= self._count(self._groups[self._group_index]):
                 self._ptr_index = 0
                 self._group_index += 1
             if self._group_index >= len(self._groups):
@@ -66,6 +66,11 @@ class Node(TlvType):
             self._ptr_index += 1
             return result
 
+        @staticmethod
+        def _count(hg: HashGroup) -> int:
+            # a hash group may have no pointers
+            return 0 if hg.pointers() is None else len(hg.pointers())
+
         def _get_segment_id(self, hg: HashGroup, offset: int) -> Optional[int]:
             gd = hg.group_data()
             if gd is not None and gd.start_segment_id() is not None:
@@ -166,6 +171,8 @@ class Node(TlvType):
         """
         hash_values = []
         for hg in self._hash_groups:
+            if hg.pointers() is None:
+                continue
             for hv in hg.pointers():
                 hash_values.append(hv)
         return hash_values
-- 
2.43.0


From b4f80c0fc93730f692ac3ed731dc212f6d10adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:42 +0000
Subject: [PATCH 38/45] fix: printing an AEAD mode that is not supported does
 not fail

---
 ccnpy/flic/tlvs/AeadMode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/AeadMode.py b/ccnpy/flic/tlvs/AeadMode.py
index 2f79b5b..768a763 100755
--- a/ccnpy/flic/tlvs/AeadMode.py
+++ b/ccnpy/flic/tlvs/AeadMode.py
@@ -39,7 +39,7 @@ class AeadMode(IntegerTlvType):
             return "AES-CCM-128"
         if self._value == self.__AEAD_AES_256_CCM:
             return "AES-CCM-256"
-        raise ValueError("Unsupported mode %r" % self._value)
+        return "Unsupported"
 
     @classmethod
     def class_type(cls):
-- 
2.43.0


From 443fb65b8a548924b1186d56d89b8abb03268149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:58 +0000
Subject: [PATCH 39/45] fix: a manifest content object without payload is
 refused with a parse error

---
 ccnpy/flic/tlvs/Manifest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..9400545 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -38,8 +38,10 @@ class Manifest:
     def from_content_object(cls, content_object: ContentObject):
         if not isinstance(content_object, ContentObject):
             raise TypeError("content_object must be ContentObject")
-        if not content_object.payload_type().is_manifest():
+        if not content_object.is_manifest():
             raise ValueError("Payload is not of type Manifest")
+        if content_object.payload() is None:
+            raise ParseError("The content object has no payload")
 
         try:
             return cls.deserialize(content_object.payload().value())
-- 
2.43.0


From ede773040ad0c88e10c3eb480bb801769b755697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 40/45] fix: a content object without payload, or with one that
 is no manifest or link, can be printed

---
 ccnpy/core/ContentObject.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index 98eace9..48211a8 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -24,7 +24,6 @@ from .Payload import Payload
 from .PayloadType import PayloadType
 from .Tlv import Tlv
 from .TlvType import TlvType
-from ..exceptions.ParseError import ParseError
 
 
 class ContentObject(TlvType):
@@ -146,15 +145,22 @@ class ContentObject(TlvType):
                                             self._final_chunk_id])
 
     def __repr__(self):
-        if self.is_manifest():
+        if self._payload is None:
+            payload = None
+        elif self.is_manifest():
             from ccnpy.flic.tlvs.Manifest import Manifest
             try:
                 payload = Manifest.deserialize(self._payload.value())
-            except ParseError as e:
+            except (RuntimeError, ValueError, TypeError, AssertionError):
+                # it is not a manifest, so show the bytes
                 payload = self._payload.value()
 
         elif self.is_link():
-            payload = Link.deserialize(self._payload.value())
+            try:
+                payload = Link.deserialize(self._payload.value())
+            except (RuntimeError, ValueError, TypeError, AssertionError):
+                # it is not a link, so show the bytes
+                payload = self._payload.value()
         else:
             if self.USE_BRIEF_OUTPUT:
                 payload = f'(payload {len(self._payload)} bytes)'
-- 
2.43.0


From df14701ba596a433177f45c188df1550d81003e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 41/45] fix: a data packet without payload type or payload can
 be read in a traversal

---
 ccnpy/flic/tree/Traversal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index 15a59b3..0c9b6b7 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -132,7 +132,7 @@ class Traversal:
         if not isinstance(body, ContentObject):
             raise TypeError("body of the packet must be ccnpy.ContentObject")
 
-        if body.payload_type().is_manifest():
+        if body.is_manifest():
             manifest = self._manifest_from_content_object(body)
             if self._build_graph:
                 self._manifest_graph.add_manifest(hash_value=packet.content_object_hash(), node=manifest.node(), name=packet.body().name())
@@ -142,7 +142,8 @@ class Traversal:
             nc_cache = self._update_nc_cache(nc_cache=nc_cache, manifest=manifest)
             return self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
 
-        elif body.payload_type().is_data():
+        elif body.payload_type() is None or body.payload_type().is_data():
+            # a content object without payload type is data
             self.logger.debug("Traversal: %s", body)
 
             if self._build_graph:
@@ -155,7 +156,7 @@ class Traversal:
             raise ValueError("Unsupported payload type: %r" % body)
 
     def _write_data(self, payload):
-        if self._data_writer is not None:
+        if self._data_writer is not None and payload is not None:
             self.logger.debug('Traversal save %d bytes', len(payload.value()))
             self._data_writer.write(payload.value())
 
-- 
2.43.0


From 4ee73f3528cb192e666f44fde34adaaf31a397ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:33 +0000
Subject: [PATCH 42/45] fix: refuse a time before 1970 instead of encoding it
 as one far in the future

---
 ccnpy/core/Tlv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 2699570..36d1f38 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -211,7 +211,7 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
-        if n > 0xFFFFFFFFFFFFFFFF:
+        if not 0 <= n <= 0xFFFFFFFFFFFFFFFF:
             raise ValueError(f"{n} does not fit in 8 bytes")
 
         byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
-- 
2.43.0


From 34a9e52f4e29f667c63d0d805a25f21a551ad560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:12 +0000
Subject: [PATCH 43/45] fix: link files of names that are not text are their
 own, whether the name was made or parsed

---
 ccnpy/flic/tree/TreeIO.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 6a0adad..bed5ecb 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -27,6 +27,7 @@ from ...core.HashValue import HashValue
 from ...core.Link import Link
 from ...core.Name import Name
 from ...core.Packet import Packet, PacketWriter, PacketReader
+from ...core.Tlv import Tlv
 from ...crypto.Crc32c import Crc32cSigner
 from ...crypto.Signer import Signer
 
@@ -40,8 +41,17 @@ class TreeIO:
     @staticmethod
     def get_link_name(name: Name) -> str:
         def escape(component) -> str:
+            number = component.value_as_number()
+            if component.is_name_segment():
+                # a byte that is not UTF-8 is escaped, like the characters below
+                text = 'Name=' + bytes(component.value()).decode('UTF-8', errors='surrogateescape')
+            elif ((component.is_chunk_id_segment() or component.is_manifest_id_segment()) and number.bit_length() <= 64
+                    and bytes(component.value()) == Tlv.number_to_array(number).tobytes()):
+                text = repr(component)
+            else:
+                text = f'{component.type()}={bytes(component.value()).hex()}'
             # characters that separate components or are not allowed in a file name
-            return re.sub(r'[\x00-\x1f/~%]', lambda m: f'%{ord(m.group()):02X}', repr(component))
+            return re.sub(r'[\x00-\x1f/~%\udc80-\udcff]', lambda m: f'%{ord(m.group()) & 0xFF:02X}', text)
 
         safename = '~' + '~'.join(escape(name.component(i)) for i in range(name.count()))
         return f'{safename}.link'
-- 
2.43.0


From 48cccc3abb11fbe581bb1246d5557f3508b72751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:46 +0000
Subject: [PATCH 44/45] fix: resume the graph when the size of a manifest
 cannot be found, so it still shows the next tree

---
 ccnpy/flic/ManifestTree.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..4b96c4a 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -142,9 +142,11 @@ class ManifestTree:
     def _calculate_optimal_tree(self, file_metadata: FileMetadata, manifest_factory: ManifestFactory) -> TreeParameters:
         if self._manifest_graph is not None:
             self._manifest_graph.pause()
-        optimized_params = TreeParameters.create_optimized_tree(file_metadata=file_metadata,
-                                                                manifest_factory=manifest_factory,
-                                                                name_ctx=self._name_ctx)
-        if self._manifest_graph is not None:
-            self._manifest_graph.resume()
+        try:
+            optimized_params = TreeParameters.create_optimized_tree(file_metadata=file_metadata,
+                                                                    manifest_factory=manifest_factory,
+                                                                    name_ctx=self._name_ctx)
+        finally:
+            if self._manifest_graph is not None:
+                self._manifest_graph.resume()
         return optimized_params
-- 
2.43.0


From 7b8a0d1fb78830dcf97bb42dc799583a80f8fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:50 +0000
Subject: [PATCH 45/45] fix: keep the characters that are cut between packets
 on standard output

---
 ccnpy/apps/manifest_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index d3665e5..8d93ac7 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 
 import argparse
+import codecs
 import logging
 import sys
 from abc import ABC, abstractmethod
@@ -41,6 +42,8 @@ class ManifestReader(ABC):
 class StdOutWrapper:
     def __init__(self):
         self._out = sys.stdout
+        # a character may begin in one packet and end in the next
+        self._decoder = codecs.getincrementaldecoder('utf-8')(errors='ignore')
 
     def __enter__(self):
         return self
@@ -52,7 +55,7 @@ class StdOutWrapper:
 
     def write(self, value):
         if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
+            value = self._decoder.decode(value.tobytes())
         self._out.write(value)
 
 class ManifestNetworkReader(ManifestReader):
-- 
2.43.0

