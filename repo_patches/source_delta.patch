From 2f6da93093331587bdc7d0f1e221b6246a567eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 001/231] fix: allow removal of a part which has no
 relationships

---
 resqpy/model/_forestry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..712c224 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -499,7 +499,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # part is not involved in any relationships
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
-- 
2.43.0


From af6df16563cdc830b3df250ae08d16b0befbde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 002/231] fix: record soft relationships for parts which have
 no other relationships

---
 resqpy/model/_forestry.py | 5 ++---
 resqpy/model/_xml.py      | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 712c224..ff48d10 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -214,9 +214,8 @@ def _add_uuid_soft_relations(model, uuid_int, part):
                 if relation_uuid_str is None:
                     return  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 9d66a93d4410430228d1abfa42e1fa2b9fb8fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 003/231] fix: part removal tolerates missing relationship
 parts and clears all of a relative's relationships

---
 resqpy/model/_forestry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ff48d10..797ec36 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -477,15 +477,16 @@ def _remove_part(model, part_name, remove_relationship_part):
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
             for relative in related_parts:
-                (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
-                rel_root = rel_tree.getroot()
-                for child in rel_root:
+                rel_root = m_c._root_for_part(model, rqet.rels_part_name_for_part(relative), is_rels = True)
+                if rel_root is None:  # eg. relative was created by copy_part()
+                    continue
+                for child in list(rel_root):
                     if rqet.stripped_of_prefix(child.tag) != 'Relationship':
                         continue
                     if child.attrib['Target'] == part_name:
                         rel_root.remove(child)
             rels_part_name = rqet.rels_part_name_for_part(part_name)
-        model.rels_forest.pop(rels_part_name)
+        model.rels_forest.pop(rels_part_name, None)
     _del_uuid_to_part(model, part_name)
     _del_uuid_relations(model, part_name)
     model.parts_forest.pop(part_name)
-- 
2.43.0


From cce9691fd07737dcc094fb2946bbcdf0ddf021a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 004/231] fix: supporting representation change when a
 representation has no other relationships

---
 resqpy/model/_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index 53da272..d16bf18 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -47,16 +47,16 @@ def _change_uuid_in_supporting_representation_reference(model, node, old_uuid, n
         return False
 
     uuid_node_int = rqet.uuid_for_part_root(node).int
-    relations = model.uuid_rels_dict[uuid_node_int]
+    relations = model.uuid_rels_dict.setdefault(uuid_node_int, (set(), set(), set()))
     if old_uuid.int in relations[0]:
         relations[0].remove(old_uuid.int)
     relations[0].add(new_uuid.int)
 
-    relations = model.uuid_rels_dict[old_uuid.int]
-    if uuid_node_int in relations[1]:
+    relations = model.uuid_rels_dict.get(old_uuid.int)
+    if relations is not None and uuid_node_int in relations[1]:
         relations[1].remove(uuid_node_int)
 
-    relations = model.uuid_rels_dict[new_uuid.int]
+    relations = model.uuid_rels_dict.setdefault(new_uuid.int, (set(), set(), set()))
     relations[1].add(uuid_node_int)
 
     uuid_node.text = str(new_uuid)
-- 
2.43.0


From 4ee79208be69b4892ef2a38720813984ba07e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 005/231] fix: part removal also clears relationships known
 only to the relationship xml

---
 resqpy/model/_forestry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 797ec36..e852c33 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -476,6 +476,9 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
+            rels_root = m_c._root_for_part(model, rqet.rels_part_name_for_part(part_name), is_rels = True)
+            if rels_root is not None:  # include any relatives known only to the relationship xml
+                related_parts = set(related_parts) | {child.attrib.get('Target') for child in rels_root}
             for relative in related_parts:
                 rel_root = m_c._root_for_part(model, rqet.rels_part_name_for_part(relative), is_rels = True)
                 if rel_root is None:  # eg. relative was created by copy_part()
-- 
2.43.0


From 80d4653aac8916065d5d4f33ad7d224ba67c62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 006/231] fix: soft relationship superseded when supporting
 representation reference changed

---
 resqpy/model/_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index d16bf18..8c03153 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -51,6 +51,7 @@ def _change_uuid_in_supporting_representation_reference(model, node, old_uuid, n
     if old_uuid.int in relations[0]:
         relations[0].remove(old_uuid.int)
     relations[0].add(new_uuid.int)
+    relations[2].discard(new_uuid.int)  # no longer only softly related
 
     relations = model.uuid_rels_dict.get(old_uuid.int)
     if relations is not None and uuid_node_int in relations[1]:
@@ -58,6 +59,7 @@ def _change_uuid_in_supporting_representation_reference(model, node, old_uuid, n
 
     relations = model.uuid_rels_dict.setdefault(new_uuid.int, (set(), set(), set()))
     relations[1].add(uuid_node_int)
+    relations[2].discard(uuid_node_int)
 
     uuid_node.text = str(new_uuid)
     if new_title:
-- 
2.43.0


From f1c34b309663216c839f95d91068cb04ff577c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 007/231] fix: escape special characters in attribute values
 when writing xml

---
 resqpy/olio/xml_et.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/xml_et.py b/resqpy/olio/xml_et.py
index 2e2d5a0..c1ddf38 100644
--- a/resqpy/olio/xml_et.py
+++ b/resqpy/olio/xml_et.py
@@ -701,6 +701,7 @@ def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
     attrib_list = []
     type_pre_colon = None
     for key, val in root.attrib.items():
+        val = val.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
         colon_attrib_key, pre_colon_attrib = colon_prefixed(key)
         if pre_colon_attrib and pre_colon_attrib not in ns_keys:
             attrib_ns_list.append(pre_colon_attrib)
-- 
2.43.0


From 7f0fb707c8a93687f3be7f103024604cbbc663d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 008/231] fix: filtering of parts by epc sub-directory

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..67b0a4f 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From 9fa83a3a2ff5f589ce4c9594f348f9e7d182c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 009/231] fix: filtering of an empty parts list yields an empty
 list, not all parts

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 67b0a4f..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
-- 
2.43.0


From 0ecaf5909b094767a108e9913e916531032364d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 010/231] fix: h5_clear_filename_cache()

---
 resqpy/model/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index a46f921..81ba310 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -1493,7 +1493,7 @@ class Model():
     def h5_clear_filename_cache(self):
         """Clears the cached filenames associated with all ext uuids."""
 
-        m_h._h5_clear_filename_cache(self)
+        m_h.h5_clear_filename_cache(self)
 
     def create_root(self):
         """Initialises an empty main xml tree for model.
-- 
2.43.0


From 7727e8872eff1bc598efba81469ec07414e1f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 011/231] fix: rock fluid unit feature refers to its boundary
 features by their actual type

---
 resqpy/organize/rock_fluid_unit_feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/organize/rock_fluid_unit_feature.py b/resqpy/organize/rock_fluid_unit_feature.py
index 3344102..323b521 100644
--- a/resqpy/organize/rock_fluid_unit_feature.py
+++ b/resqpy/organize/rock_fluid_unit_feature.py
@@ -99,7 +99,7 @@ class RockFluidUnitFeature(BaseResqpy):
         self.model.create_ref_node('FluidBoundaryTop',
                                    self.model.title_for_root(top_boundary_root),
                                    top_boundary_root.attrib['uuid'],
-                                   content_type = 'obj_BoundaryFeature',
+                                   content_type = rqet.node_type(top_boundary_root),
                                    root = rfuf)
 
         base_boundary_root = self.base_boundary_feature.root
@@ -107,7 +107,7 @@ class RockFluidUnitFeature(BaseResqpy):
         self.model.create_ref_node('FluidBoundaryBottom',
                                    self.model.title_for_root(base_boundary_root),
                                    base_boundary_root.attrib['uuid'],
-                                   content_type = 'obj_BoundaryFeature',
+                                   content_type = rqet.node_type(base_boundary_root),
                                    root = rfuf)
 
         if add_as_part:
-- 
2.43.0


From 710193a6bb63cd2236dc0c7f476850b3a698ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 012/231] fix: relationship of a mesh to the mesh it takes xy
 values from

---
 resqpy/surface/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..69cf5b1 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -298,7 +298,7 @@ class Mesh(rqsb.BaseSurface):
 
         p_node = self.__create_xml_basics(g2d_node)
 
-        ref_root = None
+        ref_root = self.model.root_for_uuid(self.ref_uuid) if self.flavour == 'ref&z' else None
 
         if self.flavour == 'regular':
             self.__create_xml_regular(p_node)
-- 
2.43.0


From d55729b2549876b32a710519d7a0013295a34c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 013/231] fix: sorting by type of parts which are in different
 epc sub-directories

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 84e9f3d..f210983 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -798,7 +798,7 @@ def _filtered_by_extra(model, parts_list, extra):
 
 def _sorted_parts_list(model, parts_list, sort_by):
     if sort_by == 'type':
-        sorted_list = sorted(parts_list)
+        sorted_list = sorted(parts_list, key = lambda part: (str(_type_of_part(model, part)), part))
     elif sort_by in ['newest', 'oldest']:
         sorted_list = _sort_parts_list_by_timestamp(model, parts_list)
         if sort_by == 'oldest':
-- 
2.43.0


From 32f7188adedb81372ebfd03112a020a8b7146681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 014/231] fix: relationships of parts which are in an epc
 sub-directory

---
 resqpy/model/_forestry.py | 2 +-
 resqpy/model/_xml.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index e852c33..e650a2d 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -326,7 +326,7 @@ def _load_relationships(epc, model, epc_subdir, names):
     for name in names:
         if _exclude(name, epc_subdir):
             continue
-        if name.startswith('_rels/'):
+        if name.startswith('_rels/') or '/_rels/' in name:
             load_success = _load_part(model, epc, name, is_rels = True)
             if not load_success:
                 _fell_part(model, name)
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index 8c03153..b5f8a8d 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -581,14 +581,14 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
 
     uuid_a = node_a.attrib['uuid']
     obj_type_a = rqet.stripped_of_prefix(rqet.content_type(node_a.attrib[ns['xsi'] + 'type']))
-    part_name_a = rqet.part_name_for_object(obj_type_a, uuid_a)
+    part_name_a = model.part_for_uuid(uuid_a) or rqet.part_name_for_object(obj_type_a, uuid_a)
     rel_part_name_a = rqet.rels_part_name_for_part(part_name_a)
     (rel_uuid_a, rel_tree_a) = model.rels_forest[rel_part_name_a]
     rel_root_a = rel_tree_a.getroot()
 
     uuid_b = node_b.attrib['uuid']
     obj_type_b = rqet.stripped_of_prefix(rqet.content_type(node_b.attrib[ns['xsi'] + 'type']))
-    part_name_b = rqet.part_name_for_object(obj_type_b, uuid_b)
+    part_name_b = model.part_for_uuid(uuid_b) or rqet.part_name_for_object(obj_type_b, uuid_b)
     rel_part_name_b = rqet.rels_part_name_for_part(part_name_b)
     (rel_uuid_b, rel_tree_b) = model.rels_forest[rel_part_name_b]
     rel_root_b = rel_tree_b.getroot()
-- 
2.43.0


From e260bf004dbe7ece2f32cf98223a46eb0cbcf5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 015/231] fix: reading of packed boolean arrays element by
 element, and of reshaped byte arrays

---
 resqpy/model/_hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 82e2ce0..29c94a6 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -234,7 +234,7 @@ def _h5_array_element(model,
         object.__dict__[array_attribute] = np.zeros(required_shape, dtype = dtype)
         if shape_tuple == required_shape:
             object.__dict__[array_attribute][:] = h5_root[h5_key_pair[1]]
-        elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
+        elif (shape_tuple[:-1] == required_shape[:-1] and ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
             object.__dict__[array_attribute][:] = a[..., :required_shape[-1]]
@@ -255,6 +255,12 @@ def _h5_array_element(model,
             # todo: handle unpacking of a single bit into a bool?
             if shape_tuple == required_shape:
                 result = h5_root[h5_key_pair[1]][tuple(index)]
+            elif (shape_tuple[:-1] == tuple(required_shape[:-1]) and ('bool' in str(dtype) or 'uint8' in str(dtype)) and
+                  8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):  # packed bits
+                index = tuple(index)
+                head = index[:len(shape_tuple) - 1]
+                a = np.unpackbits(h5_root[h5_key_pair[1]][head], axis = -1).astype(bool)[..., :required_shape[-1]]
+                result = a if len(index) < len(shape_tuple) else a[index[-1]]
             else:
                 index = reshaped_index(index, required_shape, shape_tuple)
                 result = h5_root[h5_key_pair[1]][tuple(index)]
-- 
2.43.0


From b627070ed8140090ef003192c0c399167b1cf695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 016/231] fix: consolidation of geologic time series

---
 resqpy/olio/consolidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..eb65890 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -90,7 +90,7 @@ class Consolidation:
         elif obj_type.endswith('Crs'):
             immigrant_obj = rqc.Crs(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'TimeSeries':
-            immigrant_obj = rqt.TimeSeries(immigrant_model, uuid = immigrant_uuid)
+            immigrant_obj = rqt.any_time_series(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'StringTableLookup':
             immigrant_obj = rqp.StringLookup(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'PropertyKind':
@@ -108,7 +108,7 @@ class Consolidation:
             elif obj_type.endswith('Crs'):
                 resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
             elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
+                resident_obj = rqt.any_time_series(self.model, uuid = resident_uuid)
             elif obj_type == 'StringTableLookup':
                 resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
             elif obj_type == 'PropertyKind':
-- 
2.43.0


From 338d654697a32342d38fba1b62a45f995d9c9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 017/231] fix: copied part's direct references not also
 recorded as soft relationships

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index e650a2d..81163ff 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -234,6 +234,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)  # a direct reference supersedes a soft relationship
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -241,6 +242,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
-- 
2.43.0


From 91fc7192bb4ad78ca5d9c68fda3279dda137967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 018/231] fix: direction of relationships of copied parts

---
 resqpy/model/_forestry.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 81163ff..ff70328 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -663,16 +663,16 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
     # log.debug(f'copying {len(relatives[0])} referenced parts for uuid: {uuid} of type: {model.type_of_uuid(uuid)}')
     for ref_uuid_int in relatives[0]:  # using dict in other model instead of duplicated xml
         if ref_uuid_int in model.uuid_part_dict:
-            m_x._create_reciprocal_relationship(model, root_node, 'sourceObject',
-                                                m_c._root_for_uuid(model, ref_uuid_int), 'destinationObject')
+            m_x._create_reciprocal_relationship(model, root_node, 'destinationObject',
+                                                m_c._root_for_uuid(model, ref_uuid_int), 'sourceObject')
             continue
         if not force:
             referred_part = m_c._part_for_uuid(other_model, bu.uuid_from_int(ref_uuid_int))
             if m_c._type_of_part(other_model, referred_part) == 'obj_EpcExternalPartReference':
                 continue
             if referred_part in m_c._list_of_parts(model):
-                m_x._create_reciprocal_relationship(model, root_node, 'sourceObject',
-                                                    m_c._root_for_part(model, referred_part), 'destinationObject')
+                m_x._create_reciprocal_relationship(model, root_node, 'destinationObject',
+                                                    m_c._root_for_part(model, referred_part), 'sourceObject')
                 continue
             resident_part = _copy_part_from_other_model(model,
                                                         other_model,
@@ -707,11 +707,11 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-    for source_flag in [True, False]:
+    for related_mode in range(3):  # references, referenced by, soft relationships
         other_related_parts = m_c._parts_list_filtered_by_related_uuid(other_model,
                                                                        m_c._list_of_parts(other_model),
                                                                        resident_uuid,
-                                                                       uuid_is_source = source_flag)
+                                                                       related_mode = related_mode)
         for related_part in other_related_parts:
             if not force and (related_part in model.parts_forest):
                 resident_related_part = related_part
@@ -730,10 +730,10 @@ def _copy_relationships_for_present_targets(model, other_model, consolidate, for
             related_node = m_c._root_for_part(model, resident_related_part)
             assert related_node is not None
 
-            if source_flag:
-                sd_a, sd_b = 'sourceObject', 'destinationObject'
+            if related_mode == 0:
+                sd_a, sd_b = 'destinationObject', 'sourceObject'
             else:
-                sd_b, sd_a = 'sourceObject', 'destinationObject'
+                sd_a, sd_b = 'sourceObject', 'destinationObject'
             m_x._create_reciprocal_relationship(model, root_node, sd_a, related_node, sd_b)
 
 
-- 
2.43.0


From e4fad6bdf8574fb08efd9c58da37c91810e1c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 019/231] fix: copying of parts which are in an epc
 sub-directory of the other model

---
 resqpy/model/_forestry.py | 18 +++++++-----------
 resqpy/model/_model.py    |  3 +++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ff70328..a3b693d 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -601,7 +601,8 @@ def _copy_part_from_other_model(model,
         _copy_referenced_parts(model, other_model, realization, consolidate, force, cut_refs_to_uuids, cut_node_types,
                                self_h5_file_name, h5_uuid, other_h5_file_name, root_node, uuid, hdf5_copy_needed)
 
-        _add_uuid_relations(model, uuid.int, part)
+        # note: part name in this model may differ from that in the other model, if an epc sub-directory is involved
+        _add_uuid_relations(model, uuid.int, m_c._part_for_uuid(model, uuid))
 
         resident_uuid = uuid
 
@@ -670,10 +671,6 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
             referred_part = m_c._part_for_uuid(other_model, bu.uuid_from_int(ref_uuid_int))
             if m_c._type_of_part(other_model, referred_part) == 'obj_EpcExternalPartReference':
                 continue
-            if referred_part in m_c._list_of_parts(model):
-                m_x._create_reciprocal_relationship(model, root_node, 'destinationObject',
-                                                    m_c._root_for_part(model, referred_part), 'sourceObject')
-                continue
             resident_part = _copy_part_from_other_model(model,
                                                         other_model,
                                                         referred_part,
@@ -687,7 +684,7 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
                                                         other_h5_file_name = other_h5_file_name,
                                                         hdf5_copy_needed = hdf5_copy_needed,
                                                         uuid_int = ref_uuid_int)
-            if resident_part == referred_part:
+            if resident_part is not None and rqet.uuid_in_part_name(resident_part).int == ref_uuid_int:
                 continue
         if consolidate and model.consolidation is not None and ref_uuid_int in model.consolidation.map:
             resident_uuid_int = model.consolidation.map[ref_uuid_int]
@@ -713,16 +710,15 @@ def _copy_relationships_for_present_targets(model, other_model, consolidate, for
                                                                        resident_uuid,
                                                                        related_mode = related_mode)
         for related_part in other_related_parts:
-            if not force and (related_part in model.parts_forest):
-                resident_related_part = related_part
-            else:
+            # note: parts are matched by uuid as part names may differ between models, due to epc sub-directories
+            resident_related_part = m_c._part_for_uuid(model, rqet.uuid_in_part_name(related_part))
+            if force or resident_related_part is None:
                 if consolidate:
                     resident_related_uuid = model.consolidation.equivalent_uuid_for_part(related_part,
                                                                                          immigrant_model = other_model)
                     if resident_related_uuid is None:
                         continue
-                    resident_related_part = rqet.part_name_for_object(m_c._type_of_part(other_model, related_part),
-                                                                      resident_related_uuid)
+                    resident_related_part = m_c._part_for_uuid(model, resident_related_uuid)
                     if resident_related_part is None:
                         continue
                 else:
diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index 81ba310..0e250b7 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -2111,6 +2111,9 @@ class Model():
         # check whether already existing in this model
         if part in self.parts_forest.keys():
             return part
+        resident_part = self.part_for_uuid(rqet.uuid_in_part_name(part))
+        if resident_part is not None and os.path.basename(resident_part) == os.path.basename(part):
+            return resident_part  # same part but in a different epc sub-directory
 
         if m_c._type_of_part(other_model, part) == 'obj_EpcExternalPartReference':
             return None
-- 
2.43.0


From 46240beb7990eaad6320c9eef316e36d2b50f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 020/231] fix: setting of string in string lookup table

---
 resqpy/property/string_lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..a7fbe64 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -114,11 +114,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
@@ -132,7 +132,7 @@ class StringLookup(BaseResqpy):
         :meta common:
         """
 
-        if key < self.min_index or key > self.max_index:
+        if self.min_index is None or key < self.min_index or key > self.max_index:
             return None
         if self.stored_as_list:
             return self.str_list[key]
-- 
2.43.0


From 71b0e1cc7d76273753d77b757551e7cb1ebe3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 021/231] fix: mean dip written to xml of fault interpretation

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From b29e73a5e3766f6df4fc3cb25f9c0d4d440f6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 022/231] fix: domain of geobody interpretation when loaded
 from xml

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..a046898 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 34f22c6038795c57162ef284085a4b87539ecce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 023/231] fix: rock fluid unit feature loads boundary features
 as objects of their own class

---
 resqpy/organize/rock_fluid_unit_feature.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resqpy/organize/rock_fluid_unit_feature.py b/resqpy/organize/rock_fluid_unit_feature.py
index 323b521..3c550f8 100644
--- a/resqpy/organize/rock_fluid_unit_feature.py
+++ b/resqpy/organize/rock_fluid_unit_feature.py
@@ -4,6 +4,7 @@ import resqpy.olio.uuid as bu
 import resqpy.olio.xml_et as rqet
 import resqpy.organize
 import resqpy.organize.boundary_feature as obf
+import resqpy.organize.fluid_boundary_feature as fbf
 import resqpy.organize._utils as ou
 from resqpy.olio.base import BaseResqpy
 from resqpy.olio.xml_namespaces import curly_namespace as ns
@@ -69,14 +70,20 @@ class RockFluidUnitFeature(BaseResqpy):
         feature_root = self.model.referenced_node(feature_ref_node)
         feature_uuid = rqet.uuid_for_part_root(feature_root)
         assert feature_uuid is not None, 'rock fluid top boundary feature missing from model'
-        self.top_boundary_feature = obf.BoundaryFeature(self.model, uuid = feature_uuid)
+        self.top_boundary_feature = self._boundary_feature(feature_uuid)
 
         feature_ref_node = rqet.find_tag(self.root, 'FluidBoundaryBottom')
         assert feature_ref_node is not None
         feature_root = self.model.referenced_node(feature_ref_node)
         feature_uuid = rqet.uuid_for_part_root(feature_root)
         assert feature_uuid is not None, 'rock fluid bottom boundary feature missing from model'
-        self.base_boundary_feature = obf.BoundaryFeature(self.model, uuid = feature_uuid)
+        self.base_boundary_feature = self._boundary_feature(feature_uuid)
+
+    def _boundary_feature(self, feature_uuid):
+        # returns a boundary feature object of a class matching the type of the part with the given uuid
+        if self.model.type_of_uuid(feature_uuid, strip_obj = True) == 'FluidBoundaryFeature':
+            return fbf.FluidBoundaryFeature(self.model, uuid = feature_uuid)
+        return obf.BoundaryFeature(self.model, uuid = feature_uuid)
 
     def create_xml(self, add_as_part = True, add_relationships = True, originator = None, reuse = True):
         """Creates a rock fluid unit feature organisational xml node from this rock fluid unit feature object."""
-- 
2.43.0


From fdc39b634fd2349dc94383d0d5207f6884780f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 024/231] fix: catalogue check of part with more than one
 reference to the same part

---
 resqpy/model/_catalogue.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index f210983..3d61dcd 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -890,7 +890,6 @@ def _check_catalogue_dictionaries(model, referred_parts_must_be_present, check_x
                 assert len(ref_nodes) == 0
                 continue
             ref_uuid_ints_from_dict = relatives[0]
-            assert len(ref_nodes) == len(ref_uuid_ints_from_dict)
             ref_node_uuid_ints = []
             for ref_node in ref_nodes:
                 uuid_str = rqet.find_tag_text(ref_node, 'UUID')
-- 
2.43.0


From f9df0c56c12a44d0ff61f0136f0cc03a33f5661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 025/231] fix: crs equivalence takes rotation units into
 account

---
 resqpy/crs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..f57ef5e 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -314,12 +314,18 @@ class Crs(BaseResqpy):
             return False
         if self.null_transform and other_crs.null_transform:
             return True
+        other_rotation = other_crs.rotation
+        if other_crs.rotation_units != self.rotation_units:
+            other_rotation = wam.convert(other_rotation,
+                                         other_crs.rotation_units,
+                                         self.rotation_units,
+                                         quantity = 'plane angle')
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(self.rotation, other_rotation, abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 8a30beabc86ffdaef8f328c9054700fc6311a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 026/231] fix: reuse continues beyond existing objects which
 are not compatible with the class

---
 resqpy/olio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/base.py b/resqpy/olio/base.py
index bc9c26a..b0ade1b 100644
--- a/resqpy/olio/base.py
+++ b/resqpy/olio/base.py
@@ -111,7 +111,7 @@ class BaseResqpy(metaclass = ABCMeta):
             try:
                 other = self.__class__(self.model, uuid = other_uuid)
             except Exception:
-                return False
+                continue  # existing object is not compatible with this class, so not a candidate for reuse
             if self == other:
                 logger.debug(f'reusing equivalent resqml object with uuid {other_uuid}')
                 self.uuid = other_uuid  # NB: change of uuid for this object
-- 
2.43.0


From 4c53ddff35864f297bd56d021842d4fdfa1f15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 027/231] fix: equivalence of interpretation objects when xml
 not yet created, allowing reuse

---
 resqpy/organize/earth_model_interpretation.py      | 5 +----
 resqpy/organize/generic_interpretation.py          | 2 +-
 resqpy/organize/geobody_boundary_interpretation.py | 5 +----
 resqpy/organize/geobody_interpretation.py          | 5 +----
 resqpy/organize/horizon_interpretation.py          | 5 +----
 resqpy/organize/wellbore_interpretation.py         | 9 +++------
 resqpy/rq_import/_add_surfaces.py                  | 2 +-
 resqpy/strata/_geologic_unit_interpretation.py     | 5 +----
 8 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/resqpy/organize/earth_model_interpretation.py b/resqpy/organize/earth_model_interpretation.py
index a6b8a4f..3732fbf 100644
--- a/resqpy/organize/earth_model_interpretation.py
+++ b/resqpy/organize/earth_model_interpretation.py
@@ -65,10 +65,7 @@ class EarthModelInterpretation(BaseResqpy):
                 return False
         elif other.organization_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_boundary_interpretation.py b/resqpy/organize/geobody_boundary_interpretation.py
index 256b224..89f6aac 100644
--- a/resqpy/organize/geobody_boundary_interpretation.py
+++ b/resqpy/organize/geobody_boundary_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyBoundaryInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during)):
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index a046898..12c67a3 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -86,10 +86,7 @@ class GeobodyInterpretation(BaseResqpy):
                 return False
         elif other.geobody_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/horizon_interpretation.py b/resqpy/organize/horizon_interpretation.py
index 19bfdf1..f4c7757 100644
--- a/resqpy/organize/horizon_interpretation.py
+++ b/resqpy/organize/horizon_interpretation.py
@@ -79,10 +79,7 @@ class HorizonInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during) or
diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..7221452 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -87,12 +87,9 @@ class WellboreInterpretation(BaseResqpy):
                 return False
         elif other.wellbore_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-            if self.domain != other.domain:
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
+            return False
+        if self.domain != other.domain:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/rq_import/_add_surfaces.py b/resqpy/rq_import/_add_surfaces.py
index e2d6fdb..902b5ae 100644
--- a/resqpy/rq_import/_add_surfaces.py
+++ b/resqpy/rq_import/_add_surfaces.py
@@ -109,7 +109,7 @@ def _add_single_surface(model, surf_file, surface_file_format, surface_role, qua
         feature = rqo.GeneticBoundaryFeature(model, kind = 'horizon', feature_name = short_name)
         feature.create_xml()
         interp = rqo.HorizonInterpretation(model, genetic_boundary_feature = feature, domain = 'depth')
-        interp_root = interp.create_xml()
+        interp_root = interp.create_xml(reuse = False)  # each imported surface has its own interpretation
         surface.set_represented_interpretation_root(interp_root)
 
     surface.create_xml(add_as_part = True, add_relationships = True, title = short_name, originator = None)
diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1eade6d..c9b8773 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -119,10 +119,7 @@ class GeologicUnitInterpretation(BaseResqpy):
                 return False
         elif other.geologic_unit_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not rqo.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From f13ffb1e4feb57622bff5aa8e122486b67ae81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 028/231] fix: re-pointing of all references to a consolidated
 object

---
 resqpy/model/_forestry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index a3b693d..1a3414e 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -692,15 +692,15 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
             # find referring node for ref_uuid_int and modify its reference to resident_uuid_int
             if reference_node_dict is None:
                 ref_nodes = rqet.list_obj_references(root_node)
-                reference_node_dict = {}
+                reference_node_dict = {}  # maps to a list of nodes, as there can be more than one reference to an object
                 for ref_node in ref_nodes:
                     uuid_node = rqet.find_tag(ref_node, 'UUID')
                     uuid_int = bu.uuid_from_string(uuid_node.text).int
-                    reference_node_dict[uuid_int] = uuid_node
-            uuid_node = reference_node_dict[ref_uuid_int]
-            uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
-            reference_node_dict.pop(ref_uuid_int)
-            reference_node_dict[resident_uuid_int] = uuid_node
+                    reference_node_dict.setdefault(uuid_int, []).append(uuid_node)
+            uuid_nodes = reference_node_dict.pop(ref_uuid_int, [])  # empty if references have been cut
+            for uuid_node in uuid_nodes:
+                uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
+            reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-- 
2.43.0


From c801c0def050e6448227c35aa1fd3214af145c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 029/231] fix: soft relationships of consolidated parts
 retained when copying from another model

---
 resqpy/model/_forestry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 1a3414e..1e13300 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -611,7 +611,8 @@ def _copy_part_from_other_model(model,
         root_node = m_c._root_for_uuid(model, resident_uuid)
 
     # copy relationships where target part is present in this model – this part is source, then destination
-    _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node)
+    # note: relationships in the other model are those of the original uuid, which can differ from the resident uuid
+    _copy_relationships_for_present_targets(model, other_model, consolidate, force, uuid, resident_uuid, root_node)
 
     return m_c._part_for_uuid(model, resident_uuid)
 
@@ -703,11 +704,14 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
             reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
-def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-    for related_mode in range(3):  # references, referenced by, soft relationships
+def _copy_relationships_for_present_targets(model, other_model, consolidate, force, uuid, resident_uuid, root_node):
+    # if part has been consolidated, the references made by the resident equivalent stand, and any referring parts deal
+    # with their own references, so only soft relationships are relevant
+    consolidated = not bu.matching_uuids(uuid, resident_uuid)
+    for related_mode in range(2 if consolidated else 0, 3):  # references, referenced by, soft relationships
         other_related_parts = m_c._parts_list_filtered_by_related_uuid(other_model,
                                                                        m_c._list_of_parts(other_model),
-                                                                       resident_uuid,
+                                                                       uuid,
                                                                        related_mode = related_mode)
         for related_part in other_related_parts:
             # note: parts are matched by uuid as part names may differ between models, due to epc sub-directories
@@ -725,6 +729,8 @@ def _copy_relationships_for_present_targets(model, other_model, consolidate, for
                     continue
             related_node = m_c._root_for_part(model, resident_related_part)
             assert related_node is not None
+            if related_node is root_node:  # both ends of relationship have been consolidated to the same part
+                continue
 
             if related_mode == 0:
                 sd_a, sd_b = 'destinationObject', 'sourceObject'
-- 
2.43.0


From 7c2bb51b71f9a22a2eaa8e5c5add2d992cbeee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 030/231] fix: finding of resident node for reference to
 consolidated object

---
 resqpy/model/_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index b5f8a8d..105fc0d 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -112,7 +112,7 @@ def _referenced_node(model, ref_node, consolidate = False):
         resident_uuid_int = model.consolidation.map[uuid.int]
         if resident_uuid_int is None:
             return None
-        resident_uuid = bu.uuid_for_int(resident_uuid_int)
+        resident_uuid = bu.uuid_from_int(resident_uuid_int)
         node = model.root_for_part(model.part_for_uuid(resident_uuid))
         if node is not None:
             # patch resident uuid and title into ref node!
-- 
2.43.0


From cc91be7efccf769865e1ce77c11d5fcd392c13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 031/231] fix: hdf5 reference of copied part when its arrays
 are already in the hdf5 file

---
 resqpy/model/_forestry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 1e13300..0bec200 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -582,9 +582,10 @@ def _copy_part_from_other_model(model,
         if hdf5_copy_needed:
             # copy hdf5 data
             hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            hdf5_count = whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
             # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            _copy_part_hdf5_setup(model, hdf5_count, h5_uuid, root_node)
+            # note: needed even if the data was already present in the hdf5 file, eg. for a part that has been removed
+            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
         # NB. assumes ext part is already established when sharing a common hdf5 file
 
         # cut references to objects to be excluded
-- 
2.43.0


From c84d32a10dd84ca17ab6cb7d8f82ccd68893cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 032/231] fix: failed copying of a part leaves no partial copy
 in the model, allowing another attempt

---
 resqpy/model/_forestry.py | 56 ++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 0bec200..9ed5121 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -577,30 +577,38 @@ def _copy_part_from_other_model(model,
         root_node = _duplicate_node(model, other_root, add_to_rels_dict = False)  # adds duplicated node as part
         assert root_node is not None
 
-        _set_realization_index_node_if_required(realization, root_node)  # todo: handle extra metadata realization
-
-        if hdf5_copy_needed:
-            # copy hdf5 data
-            hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
-            # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            # note: needed even if the data was already present in the hdf5 file, eg. for a part that has been removed
-            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
-        # NB. assumes ext part is already established when sharing a common hdf5 file
-
-        # cut references to objects to be excluded
-        if cut_refs_to_uuids:
-            rqet.cut_obj_references(root_node, cut_refs_to_uuids)
-
-        if cut_node_types:
-            rqet.cut_nodes_of_types(root_node, cut_node_types)
-
-        if model.uuid_rels_dict.get(uuid.int) is None:
-            model.uuid_rels_dict[uuid.int] = (set(), set(), set())
-
-        # recursively copy in referenced parts where they don't already exist in this model
-        _copy_referenced_parts(model, other_model, realization, consolidate, force, cut_refs_to_uuids, cut_node_types,
-                               self_h5_file_name, h5_uuid, other_h5_file_name, root_node, uuid, hdf5_copy_needed)
+        try:
+
+            _set_realization_index_node_if_required(realization, root_node)  # todo: handle extra metadata realization
+
+            if hdf5_copy_needed:
+                # copy hdf5 data
+                hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
+                whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+                # create relationship with hdf5 if needed and modify h5 file uuid in xml references
+                # note: needed even if the data was already present in the hdf5 file, eg. for a part that has been removed
+                _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
+            # NB. assumes ext part is already established when sharing a common hdf5 file
+
+            # cut references to objects to be excluded
+            if cut_refs_to_uuids:
+                rqet.cut_obj_references(root_node, cut_refs_to_uuids)
+
+            if cut_node_types:
+                rqet.cut_nodes_of_types(root_node, cut_node_types)
+
+            if model.uuid_rels_dict.get(uuid.int) is None:
+                model.uuid_rels_dict[uuid.int] = (set(), set(), set())
+
+            # recursively copy in referenced parts where they don't already exist in this model
+            _copy_referenced_parts(model, other_model, realization, consolidate, force, cut_refs_to_uuids, cut_node_types,
+                                   self_h5_file_name, h5_uuid, other_h5_file_name, root_node, uuid, hdf5_copy_needed)
+
+        except Exception:
+            # do not leave a partially copied part in the model: caller might try again, eg. after a BlockingIOError
+            if not force:
+                _remove_part(model, m_c._part_for_uuid(model, uuid), True)
+            raise
 
         # note: part name in this model may differ from that in the other model, if an epc sub-directory is involved
         _add_uuid_relations(model, uuid.int, m_c._part_for_uuid(model, uuid))
-- 
2.43.0


From e73613bf441d96791ead1140912d49680fd70b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 033/231] fix: type of relationship between mesh and property
 in multiprocessing wrapper

---
 resqpy/multi_processing/wrappers/mesh_mp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/wrappers/mesh_mp.py b/resqpy/multi_processing/wrappers/mesh_mp.py
index 2141bdc..95ff8a6 100644
--- a/resqpy/multi_processing/wrappers/mesh_mp.py
+++ b/resqpy/multi_processing/wrappers/mesh_mp.py
@@ -75,7 +75,7 @@ def mesh_from_regular_grid_column_property_wrapper(
         mesh.write_hdf5()
         mesh.create_xml()
         uuid_list.append(mesh.uuid)
-        model.create_reciprocal_relationship_uuids(mesh.uuid, "sourceObject", prop_uuid, "detinationObject")
+        model.create_reciprocal_relationship_uuids(mesh.uuid, "sourceObject", prop_uuid, "destinationObject")
 
     model.store_epc(quiet = True)
 
-- 
2.43.0


From 203bc8d15c731847d2ce0c2b7aa04ff84dfa54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 034/231] fix: closest timestamp when first timestamp is the
 latest one before the given time

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 4b22049b9ffc6b1e957699a83dde2642c8f2dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 035/231] fix: simplified and cleaned form of geologic
 timestamps

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..182dbff 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From 58f0f8065ac2a89253b55930d9fbcd3db213a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 036/231] fix: merging of geologic time series

---
 resqpy/time_series/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 182dbff..ca91523 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -109,7 +109,7 @@ def merge_timeseries_from_uuid(model, timeseries_uuid_iter):
 
         timeserieslist.append(singlets)
         # alltimestamps.update( set(singlets.timestamps) )
-        alltimestamps.update(set(singlets.datetimes()))
+        alltimestamps.update(set(singlets.datetimes() if timeframe == 'human' else singlets.timestamps))
 
     sortedtimestamps = sorted(list(alltimestamps), reverse = reverse)
 
-- 
2.43.0


From 4021c85e7b50b791ef2f150d7d7339848c4b3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 037/231] fix: days since start is None for an index out of
 range, as for other durations

---
 resqpy/time_series/_time_series.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index dacd61e..c26baec 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -175,7 +175,10 @@ class TimeSeries(ats.AnyTimeSeries):
 
     def days_since_start(self, index):
         """Returns the number of days between the start of the time series and the indexed timestamp."""
-        return self.duration_since_start(index).duration.days
+        delta = self.duration_since_start(index)
+        if delta is None:
+            return None
+        return delta.duration.days
 
     def step_duration(self, index):
         """Returns the duration of the time step between the indexed timestamp and preceding one.
-- 
2.43.0


From 9ca59a4a704e53fcccc09810e436eefbc98f9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 038/231] fix: ordering of timestamps by time rather than
 alphabetically

---
 resqpy/time_series/_any_time_series.py |  5 ++++-
 resqpy/time_series/_functions.py       |  9 +++------
 resqpy/time_series/_time_series.py     | 22 ++++++++++++++++++----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/resqpy/time_series/_any_time_series.py b/resqpy/time_series/_any_time_series.py
index df1d2af..ac730e5 100644
--- a/resqpy/time_series/_any_time_series.py
+++ b/resqpy/time_series/_any_time_series.py
@@ -42,7 +42,10 @@ class AnyTimeSeries(BaseResqpy):
             else:
                 assert self.timeframe == 'human'
                 self.timestamps.append(dt_text)  # todo: trim and check timestamp
-            self.timestamps.sort()
+        self._sort_timestamps()
+
+    def _sort_timestamps(self):
+        self.timestamps.sort()
 
     def is_equivalent(self, other_ts):
         """Performs partial equivalence check on two time series (derived class methods finish the work)."""
diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index ca91523..9cc257f 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -74,12 +74,9 @@ def time_series_from_list(timestamp_list, parent_model = None, title = None):
         time_series = GeologicTimeSeries(parent_model = parent_model, title = title)
         time_series.timestamps = sorted_timestamps
     else:
-        sorted_timestamps = sorted(timestamp_list)
-        time_series = TimeSeries(parent_model = parent_model,
-                                 first_timestamp = cleaned_timestamp(sorted_timestamps[0]),
-                                 title = title)
-        for raw_timestamp in sorted_timestamps[1:]:
-            timestamp = cleaned_timestamp(raw_timestamp)
+        sorted_timestamps = sorted([cleaned_timestamp(t) for t in timestamp_list])
+        time_series = TimeSeries(parent_model = parent_model, first_timestamp = sorted_timestamps[0], title = title)
+        for timestamp in sorted_timestamps[1:]:
             time_series.add_timestamp(timestamp)
     return time_series
 
diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index c26baec..41df5fc 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -109,8 +109,9 @@ class TimeSeries(ats.AnyTimeSeries):
         :meta common:
         """
         check_timestamp(timestamp)
+        date_time = _datetime(timestamp)
         index = len(self.timestamps) - 1
-        while (index >= 0) and (self.timestamps[index] > timestamp):
+        while (index >= 0) and (_datetime(self.timestamps[index]) > date_time):
             index -= 1
         if index < 0:
             return None
@@ -122,8 +123,9 @@ class TimeSeries(ats.AnyTimeSeries):
         :meta common:
         """
         check_timestamp(timestamp)
+        date_time = _datetime(timestamp)
         index = 0
-        while (index < len(self.timestamps)) and (self.timestamps[index] < timestamp):
+        while (index < len(self.timestamps)) and (_datetime(self.timestamps[index]) < date_time):
             index += 1
         if index >= len(self.timestamps):
             return None
@@ -212,7 +214,7 @@ class TimeSeries(ats.AnyTimeSeries):
         else:
             last = self.last_timestamp()
             if last is not None:
-                assert (new_timestamp > self.last_timestamp())
+                assert (_datetime(new_timestamp) > _datetime(last))
             self.timestamps.append(new_timestamp)
 
     def extend_by_duration(self, duration):
@@ -228,7 +230,14 @@ class TimeSeries(ats.AnyTimeSeries):
 
     def datetimes(self):
         """Returns the timestamps as a list of python-datetime objects."""
-        return [dt.datetime.fromisoformat(t.rstrip('Z')) for t in self.timestamps]
+        return [_datetime(t) for t in self.timestamps]
+
+    def _sort_timestamps(self):
+        # sorts by time rather than alphabetically, as the level of detail can vary between timestamps
+        try:
+            self.timestamps.sort(key = _datetime)
+        except (TypeError, ValueError):
+            super()._sort_timestamps()
 
 
 def check_timestamp(timestamp):
@@ -238,6 +247,11 @@ def check_timestamp(timestamp):
     _ = dt.datetime.fromisoformat(timestamp)
 
 
+def _datetime(timestamp):
+    # returns datetime object for an iso format timestamp string, which may have a trailing Z
+    return dt.datetime.fromisoformat(timestamp.rstrip('Z'))
+
+
 def colloquial_date(timestamp, usa_date_format = False):
     """Returns date string in format DD/MM/YYYY (or MM/DD/YYYY if usa_date_format is True)."""
     if timestamp.endswith('Z'):
-- 
2.43.0


From 14c544dead8dd9ab16d2d5639c48161a09b13e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 039/231] fix: draping to surface in a different crs does not
 alter the points of the surface

---
 resqpy/derived_model/_drape_to_surface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..b4f217a 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -109,14 +109,6 @@ def drape_to_surface(epc_file,
         scaled_surf.vertical_rescale_points(scaling_factor = scaling_factor)
         surface = scaled_surf
 
-    # check that surface and grid use same crs; if not, convert to same
-    surface_crs = rqc.Crs(surface.model, surface.crs_uuid)
-    if source_grid.crs is None:
-        source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
-    if surface_crs != source_grid.crs:
-        surface.triangles_and_points()
-        surface_crs.convert_array_to(source_grid.crs, surface.points)
-
     # take a copy of the grid
     log.debug('copying grid')
     grid = rqdm_cg.copy_grid(source_grid, model)
@@ -139,7 +131,15 @@ def drape_to_surface(epc_file,
 
     # access triangulated surface as triangle node indices into array of points
     log.debug('fetching surface points and triangle corner indices')
-    t, p = surface.triangles_and_points()  # will pick up cached crs converted copy if appropriate
+    t, p = surface.triangles_and_points()
+
+    # check that surface and grid use same crs; if not, convert copy of points to grid crs
+    surface_crs = rqc.Crs(surface.model, surface.crs_uuid)
+    if source_grid.crs is None:
+        source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
+    if surface_crs != source_grid.crs:
+        p = p.copy()
+        surface_crs.convert_array_to(source_grid.crs, p)
 
     # compute intersections of all pillars with all triangles (sparse array returned with NaN for no intersection)
     log.debug('computing intersections of all pillars with all triangles')
-- 
2.43.0


From f8be3fd361128d8f5dfef87f7833a8e928948801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 040/231] fix: finding faces for surface in a different crs
 does not alter the points of the surface

---
 resqpy/grid_surface/_find_faces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..153c34b 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -94,6 +94,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
+        p = p.copy()
         s_crs.convert_array_to(grid.crs, p)
     triangles = p[t]
     assert triangles.size > 0, "no triangles in surface"
-- 
2.43.0


From 8d6738e02a1e548f30ee6e7e10afde072cc31b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 041/231] fix: use of local rather than global xyz box of grid,
 when compared with local coordinates

---
 resqpy/derived_model/_extract_box_for_well.py | 2 +-
 resqpy/grid/_defined_geometry.py              | 2 +-
 resqpy/grid_surface/_trajectory_intersects.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 573cb75..51185ff 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -146,7 +146,7 @@ def extract_box_for_well(epc_file = None,
         traj_box = np.empty((2, 3))
         traj_box[0] = np.amin(trajectory.control_points, axis = 0)
         traj_box[1] = np.amax(trajectory.control_points, axis = 0)
-        grid_box = source_grid.xyz_box(lazy = False)
+        grid_box = source_grid.xyz_box(lazy = False, local = True)
         if not bx.boxes_overlap(traj_box, grid_box):
             log.error('no overlap of xyz boxes for trajectory and grid for trajectory uuid: ' + str(trajectory.uuid))
             return None, None
diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..7b0dc7c 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -295,7 +295,7 @@ def set_geometry_is_defined(grid,
 
     points[np.where(np.repeat(np.expand_dims(nan_mask, axis = nan_mask.ndim), 3, axis = -1))] = np.nan
 
-    surround_z = grid.xyz_box(lazy = False)[1 if grid.z_inc_down() else 0, 2]
+    surround_z = grid.xyz_box(lazy = False, local = True)[1 if grid.z_inc_down() else 0, 2]
 
     pillar_defined_mask = np.logical_not(np.all(nan_mask, axis = 0)).flatten()
     primary_count = (grid.nj + 1) * (grid.ni + 1)
diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..bda745f 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -269,7 +269,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     if is_regular:
         interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
         surface = rqs.Surface(grid.model)
-        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
+        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box(local = True))
     elif grid.has_split_coordinate_lines and not heal_faults:
         surface = rqgs.generate_torn_surface_for_layer_interface(grid,
                                                                  k0 = k0,
-- 
2.43.0


From 809746d6197500276f7f28623a62d3e86d6c82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 042/231] fix: switching of xy axes when neither of the axis
 orders is easting northing

---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index f57ef5e..e8d1e6f 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -543,13 +543,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From 3288b9211426d08ec3a1353b1db55d791e30b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 043/231] fix: combining polylines of differing crs does not
 alter the coordinates of the original polylines

---
 resqpy/lines/_polyline_set.py | 2 +-
 resqpy/surface/_pointset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..c394523 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -519,7 +519,7 @@ class PolylineSet(rql_c._BasePolyline):
             else:
                 curr_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 if not curr_crs.is_equivalent(master_crs):
-                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                     self.coordinates = np.concatenate((self.coordinates, shifted))
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly.coordinates))
diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 8a55ee0..e53bad1 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -213,7 +213,7 @@ class PointSet(rqsb.BaseSurface):
             assert master_crs is not None
             assert poly_coords is not None
             if not curr_crs.is_equivalent(master_crs):
-                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                 poly_coords = concat_polyset_points(poly.isclosed, shifted, poly_coords)
             else:
                 poly_coords = concat_polyset_points(poly.isclosed, poly.coordinates, poly_coords)
-- 
2.43.0


From 4684b0f3a5515f9798a76a1ef42269126e67e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 044/231] fix: masking out of null values of zero, and not a
 number, in property arrays

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..b24708d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,8 +1697,8 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            null_mask = np.isnan(simple_array) if np.isnan(exclude_value) else (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
-- 
2.43.0


From 7aaa5934be49ab8c5f7a509092c1fc01e1fc2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 045/231] fix: discrete and string lookup arguments when adding
 a similar property to imported list

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index b24708d..3538632 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2381,7 +2381,7 @@ class PropertyCollection():
         args = {}
         args['keyword'] = get_arg(keyword, get_arg(title, similar.title))
         assert args['keyword'] is not None
-        args['discrete'] = get_arg(uom, not similar.is_continuous())
+        args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
         args['null_value'] = get_arg(null_value, similar.null_value())
@@ -2395,7 +2395,7 @@ class PropertyCollection():
         args['const_value'] = const_value  # NB. not inherited
         args['points'] = get_arg(points, similar.is_points())
         args['time_series_uuid'] = get_arg(time_series_uuid, similar.time_series_uuid())
-        args['string_lookup_uuid'] = get_arg(time_series_uuid, similar.string_lookup_uuid())
+        args['string_lookup_uuid'] = get_arg(string_lookup_uuid, similar.string_lookup_uuid())
         em = similar.extra_metadata if hasattr(similar, 'extra_metadata') else {}
         args['source_info'] = get_arg(source_info, em.get('source'))
 
-- 
2.43.0


From 0bf8a389680b0b28d4230aadc7d499c319c97ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 046/231] fix: relationship with hdf5 external part for
 expanded constant property arrays

---
 resqpy/property/property_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 3538632..516723b 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2725,7 +2725,8 @@ class PropertyCollection():
             sl_root = None
         pcxml._create_xml_add_as_part(self, add_as_part, p_uuid, p_node, add_relationships, support_root,
                                       property_kind_uuid, related_time_series_node, sl_root, discrete,
-                                      string_lookup_uuid, const_value, ext_uuid, d_or_c_text)
+                                      string_lookup_uuid, None if expand_const_arrays else const_value, ext_uuid,
+                                      d_or_c_text)
 
         return p_node
 
-- 
2.43.0


From e5c1d035243be1dfd93ff087c3528849137b6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 047/231] fix: shape of constant property arrays when count is
 greater than one

---
 resqpy/property/_collection_create_xml.py     | 4 ++--
 resqpy/property/_collection_get_attributes.py | 2 ++
 resqpy/property/property_collection.py        | 9 +++++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..64b1e76 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -85,13 +85,13 @@ def _create_xml_property_kind(collection, p_node, find_local_property_kinds, pro
 
 
 def _create_xml_patch_node(collection, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                           expand_const_arrays, hdf5_type, xsd_type, null_value):
+                           expand_const_arrays, hdf5_type, xsd_type, null_value, count = 1):
     # create patch node
     const_count = None
     if const_value is not None and not expand_const_arrays:
         s_shape = collection.supporting_shape(indexable_element = indexable_element, direction = direction)
         assert s_shape is not None
-        const_count = np.prod(np.array(s_shape, dtype = int))
+        const_count = np.prod(np.array(s_shape, dtype = int)) * count
     else:
         const_value = None
     _ = collection.model.create_patch(p_uuid,
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..2acd8dd 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -632,6 +632,8 @@ def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_a
     shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                         direction = _part_direction(collection, part))
     assert shape is not None
+    if collection.count_for_part(part) > 1:
+        shape.append(collection.count_for_part(part))
     a = np.full(shape, const_value, dtype = float if collection.continuous_for_part(part) else int)
     setattr(collection, cached_array_name, a)
 
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 516723b..6b5dde7 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1866,6 +1866,8 @@ class PropertyCollection():
             shape = self.supporting_shape(indexable_element = self.indexable_for_part(part),
                                           direction = pcga._part_direction(self, part))
             assert shape is not None
+            if self.count_for_part(part) > 1:
+                shape.append(self.count_for_part(part))
             return shape, (float if self.continuous_for_part(part) else int)
 
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
@@ -2466,7 +2468,10 @@ class PropertyCollection():
                 cached_name = rqp_c._cache_name_for_uuid(uuid)
                 assert self.support is not None
                 #  note: will not handle direction dependent shapes or points
-                shape = self.supporting_shape(indexable_element = entry[14])
+                shape = self.supporting_shape(indexable_element = entry[14],
+                                              direction = entry[12] if entry[11] == 'direction' else None)
+                if entry[15] > 1:
+                    shape.append(entry[15])
                 value = float(entry[17]) if isinstance(entry[17], str) else entry[17]
                 self.__dict__[cached_name] = np.full(shape, value, dtype = dtype)
             else:
@@ -2711,7 +2716,7 @@ class PropertyCollection():
         property_kind_uuid = pcxml._create_xml_property_kind(self, p_node, find_local_property_kinds, property_kind,
                                                              uom, discrete, property_kind_uuid)
         pcxml._create_xml_patch_node(self, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                                     expand_const_arrays, hdf5_type, xsd_type, null_value)
+                                     expand_const_arrays, hdf5_type, xsd_type, null_value, count)
         pcxml._create_xml_facet_node(facet_type, facet, p_node)
 
         pcxml._create_xml_property_min_max(self, property_array, const_value, discrete, add_min_max, p_node, min_value,
-- 
2.43.0


From f3079e0d6bbd752e97dd43d162faa067124c6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 048/231] fix: packing of a boolean array does not affect
 arrays later in imported list

---
 resqpy/property/property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 6b5dde7..318700e 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2478,10 +2478,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = entry[3]
             tail = 'points_patch0' if entry[18] else 'values_patch0'
+            entry_dtype = dtype
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                entry_dtype = 'pack'
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = entry_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 4461b0cdcfbaffe3155d28f0445d39cdc2a12ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 049/231] fix: shape and type of points property

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 318700e..c08a26c 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1877,9 +1877,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From 45c7571d6ac8a8fa09633c0496060ea1fe97010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 050/231] fix: masked values remain masked, and have no
 influence, when normalizing a property array

---
 resqpy/property/property_collection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index c08a26c..af1bb85 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2170,9 +2170,13 @@ class PropertyCollection():
             return None, min_value, max_value
 
         n_prop = p_array.astype(float)
+        if masked:
+            n_prop.harden_mask()  # preserve mask when values are assigned
         # todo: for discrete p_array, set n_prop to nan where p_array == null value
         if use_logarithm:
             n_prop, min_value, max_value = pcga._normalized_part_array_use_logarithm(min_value, n_prop, masked)
+            if masked:
+                n_prop.harden_mask()
             if min_value == np.nan or max_value == np.nan:
                 return None, min_value, max_value
 
-- 
2.43.0


From 1a24b20431d3f6487ac0f05fad847a462dee464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 051/231] fix: loading of boolean property arrays when count is
 greater than one

---
 resqpy/property/_collection_get_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 2acd8dd..35192f3 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -613,6 +613,8 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
     if use_pack and ('bool' in str_dtype or 'uint8' in str_dtype):
         required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                                      direction = _part_direction(collection, part))
+        if required_shape is not None and collection.count_for_part(part) > 1:
+            required_shape.append(collection.count_for_part(part))
 
     h5_key_pair = model.h5_uuid_and_path_for_node(first_values_node, tag = tag)
     if h5_key_pair is None:
-- 
2.43.0


From 4b74312a57b2a8e689053b750f9449918bf6780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 052/231] fix: inactive mask is a boolean array when all cells
 have geometry

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..75b0af4 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -501,7 +501,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
     geom_defined = grr_dg.cell_geometry_is_defined_ref(grid)
     if grid.inactive is None:
         if geom_defined is None or geom_defined is True:
-            grid.inactive = np.zeros(tuple(grid.extent_kji))  # ie. all active
+            grid.inactive = np.zeros(tuple(grid.extent_kji), dtype = bool)  # ie. all active
         else:
             grid.inactive = np.logical_not(grr_dg.cell_geometry_is_defined_ref(grid))
     if check_pinchout:
-- 
2.43.0


From f9eb5b4053dee03a2e15891f8fa1590a55257c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 053/231] fix: supporting representations of properties in a
 multi-support collection

---
 resqpy/property/_collection_add_part.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..717bdb4 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -103,7 +103,8 @@ def _add_part_to_dict_get_support_uuid(collection, part):
     if support_uuid is None:
         support_uuid = collection.support_uuid
     elif collection.support_uuid is None:
-        collection.set_support(support_uuid)
+        if collection.number_of_parts() == 0:  # otherwise, already a multi-support collection
+            collection.set_support(support_uuid)
     elif not bu.matching_uuids(support_uuid, collection.support.uuid):  # multi-support collection
         collection.set_support(None)
     if isinstance(support_uuid, str):
-- 
2.43.0


From 1d0abc9c9fd9d9703c41b2b14bf5bc3f8fb26d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 054/231] fix: derived attributes of a property collection kept
 in step with its members

---
 resqpy/property/_collection_add_part.py |  1 +
 resqpy/property/property_collection.py  | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 717bdb4..248e630 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -67,6 +67,7 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
             return
         assert (False)
     collection.dict[part] = other.dict[part]
+    collection._reset_derived_attributes()
 
 
 def _add_part_to_dict_get_realization(collection, realization, xml_node):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index af1bb85..e8d707d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -213,9 +213,6 @@ class PropertyCollection():
         assert self.model is not None and self.support is not None, 'set support for collection before populating from property set'
 
         self.property_set_root = property_set_root
-        self.time_set_kind_attr = rqet.find_tag_text(property_set_root, 'TimeSetKind')
-        self.has_single_property_kind_flag = rqet.find_tag_bool(property_set_root, 'HasSinglePropertyKind')
-        self.has_multiple_realizations_flag = rqet.find_tag_bool(property_set_root, 'HasMultipleRealizations')
         parent_set_ref_root = rqet.find_tag(property_set_root, 'ParentSet')  # at most one parent set handled here
         if parent_set_ref_root is not None:
             self.parent_set_root = self.model.referenced_node(parent_set_ref_root)
@@ -228,6 +225,9 @@ class PropertyCollection():
                 log.warning('property set member missing from resqml dataset')
                 continue
             self.add_part_to_dict(rqet.part_name_for_part_root(property_root))
+        self.time_set_kind_attr = rqet.find_tag_text(property_set_root, 'TimeSetKind')
+        self.has_single_property_kind_flag = rqet.find_tag_bool(property_set_root, 'HasSinglePropertyKind')
+        self.has_multiple_realizations_flag = rqet.find_tag_bool(property_set_root, 'HasMultipleRealizations')
 
     def set_realization(self, realization):
         """Sets the model realization number (within an ensemble) for this collection.
@@ -292,6 +292,7 @@ class PropertyCollection():
         self.dict[part] = (realization, support_uuid, uuid, xml_node, continuous, count, indexable, property_kind,
                            facet_type, facet, citation_title, time_series_uuid, time_index, minimum, maximum, uom,
                            string_lookup_uuid, property_kind_uuid, extra_metadata, null_value, const_value, points)
+        self._reset_derived_attributes()
 
     def add_parts_list_to_dict(self, parts_list):
         """Add all the parts named in the parts list to the dictionary for this collection.
@@ -306,6 +307,14 @@ class PropertyCollection():
         for part in parts_list:
             self.add_part_to_dict(part)
 
+    def _reset_derived_attributes(self):
+        # called when membership of the collection changes, so that derived attributes are re-evaluated when needed
+        self.time_set_kind_attr = None
+        self.has_single_property_kind_flag = None
+        self.has_single_uom_flag = None
+        self.has_single_indexable_element_flag = None
+        self.has_multiple_realizations_flag = None
+
     def remove_part_from_dict(self, part):
         """Remove the named part from the dictionary for this collection.
 
@@ -321,6 +330,7 @@ class PropertyCollection():
         if part not in self.dict:
             return
         del self.dict[part]
+        self._reset_derived_attributes()
 
     def remove_parts_list_from_dict(self, parts_list):
         """Remove all the parts named in the parts list from the dictionary for this collection.
@@ -389,6 +399,7 @@ class PropertyCollection():
                     continue
                 assert False, 'attempt to inherit a part which already exists in property collection: ' + part
             self.dict[part] = info
+        self._reset_derived_attributes()
 
     def add_to_imported_list_sampling_other_collection(self, other, flattened_indices):
         """Makes cut down copies of parts from other collection, using indices, and adds to imported list.
@@ -1613,8 +1624,6 @@ class PropertyCollection():
                 self.has_multiple_realizations_flag = True
                 self.realization = None  # override single realization number applicable to whole collection
                 break
-        if not self.has_multiple_realizations_flag and common_realization is not None:
-            self.realization = common_realization
         return self.has_multiple_realizations_flag
 
     def has_multiple_realizations(self):
-- 
2.43.0


From 44b4b1f9f39561cdc83e09a25322bd3974fc2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 055/231] fix: has single uom for collections with some
 properties lacking a uom

---
 resqpy/property/property_collection.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index e8d707d..4cba474 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1639,17 +1639,8 @@ class PropertyCollection():
     def establish_has_single_uom(self):
         """Re-evaluates the has single uom attribute depending on whether all properties have the same units of measure."""
 
-        self.has_single_uom_flag = True
-        common_uom = None
-        for part in self.parts():
-            part_uom = self.uom_for_part(part)
-            if common_uom is None:
-                common_uom = part_uom
-            elif part_uom != common_uom:
-                self.has_single_uom_flag = False
-                break
-        if common_uom is None:
-            self.has_single_uom_flag = True  # all uoms are None (probably discrete properties)
+        # note: uoms are all None for a collection of discrete properties
+        self.has_single_uom_flag = (len(set(self.uom_for_part(part) for part in self.parts())) <= 1)
         return self.has_single_uom_flag
 
     def has_single_uom(self):
-- 
2.43.0


From 92db74c362b42cd46f4de36812aec4b258b76040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 056/231] fix: uom criterion when selecting from a property
 collection

---
 resqpy/property/_collection_add_part.py | 5 ++++-
 resqpy/property/property_collection.py  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 248e630..41f86ff 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -18,7 +18,8 @@ import resqpy.property._collection_get_attributes as pcga
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
                                        citation_title, citation_title_match_mode, time_series_uuid, time_index,
-                                       string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
+                                       string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes,
+                                       uom):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
     if _check_not_none_and_not_uuid_match(support_uuid, other.support_uuid_for_part, part):
@@ -47,6 +48,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 4cba474..428fde0 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -508,7 +508,7 @@ class PropertyCollection():
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
                                                     time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    ignore_clashes, uom)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 6fdbd734597e98f40dba2a4645c5ec76e0aa5627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 057/231] fix: special values '*' and 'none' for time index and
 realization when selecting from a property collection

---
 resqpy/property/property_collection.py | 2 +-
 resqpy/property/property_common.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 428fde0..8cb877b 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -500,7 +500,7 @@ class PropertyCollection():
         rqp_c.check_and_warn_property_kind(property_kind, 'selecting properties')
         if self.realization is not None and other.realization is not None:
             assert self.realization == other.realization
-        if time_index is not None:
+        if time_index is not None and not isinstance(time_index, str):
             assert time_index >= 0
 
         for (part, info) in other.dict.items():
diff --git a/resqpy/property/property_common.py b/resqpy/property/property_common.py
index 65d48e6..272c0ae 100644
--- a/resqpy/property/property_common.py
+++ b/resqpy/property/property_common.py
@@ -568,7 +568,7 @@ def selective_version_of_collection(collection,
     view = rqp.PropertyCollection()
     if support_uuid is not None:
         view.set_support(support_uuid = support_uuid, model = collection.model)
-    if realization is not None:
+    if realization is not None and not isinstance(realization, str):
         view.set_realization(realization)
     if citation_title is None:
         citation_title = title
-- 
2.43.0


From 5743a67504f662169a81e9e315224a3e2d57e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 058/231] fix: shape of realizations, time series and facets
 arrays when count is greater than one

---
 resqpy/property/_collection_get_attributes.py | 15 ++++++++++++---
 resqpy/property/property_collection.py        |  8 ++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 35192f3..3a46acc 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -681,9 +681,18 @@ def _realizations_array_ref_not_fill_missing(collection, r_list, dtype, a):
 
 
 def _realizations_array_ref_get_shape_list(collection, indexable_element, r_extent):
-    shape_list = collection.supporting_shape(indexable_element = indexable_element)
-    shape_list.insert(0, r_extent)
-    if collection.points_for_part(collection.parts()[0]):
+    return _stacked_shape_list(collection, indexable_element, r_extent)
+
+
+def _stacked_shape_list(collection, indexable_element, extent):
+    # returns shape of an array combining all the parts in the collection, with given extent of the new leading axis
+    part = collection.parts()[0]
+    shape_list = collection.supporting_shape(indexable_element = indexable_element,
+                                             direction = _part_direction(collection, part))
+    shape_list.insert(0, extent)
+    if collection.count_for_part(part) > 1:
+        shape_list.append(collection.count_for_part(part))
+    if collection.points_for_part(part):
         shape_list.append(3)
     return shape_list
 
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 8cb877b..a03cd8f 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1924,8 +1924,7 @@ class PropertyCollection():
             indexable_element = self.indexable_for_part(self.parts()[0])
 
         dtype = rqp_c.dtype_flavour(continuous, use_32_bit)
-        shape_list = self.supporting_shape(indexable_element = indexable_element)
-        shape_list.insert(0, facet_count)
+        shape_list = pcga._stacked_shape_list(self, indexable_element, facet_count)
 
         a = np.zeros(shape_list, dtype = dtype)
 
@@ -2032,10 +2031,7 @@ class PropertyCollection():
 
         dtype = rqp_c.dtype_flavour(continuous, use_32_bit)
         # todo: handle direction dependent shapes
-        shape_list = self.supporting_shape(indexable_element = indexable_element)
-        shape_list.insert(0, ti_extent)
-        if self.points_for_part(self.parts()[0]):
-            shape_list.append(3)
+        shape_list = pcga._stacked_shape_list(self, indexable_element, ti_extent)
 
         a = np.full(shape_list, fill_value, dtype = dtype)
         if fill_missing:
-- 
2.43.0


From fa74a439addfcf4037736a7f1129127249524e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 059/231] fix: sampling of properties with count greater than
 one, points properties and constant properties

---
 resqpy/property/property_collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index a03cd8f..bc3ede1 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -425,7 +425,14 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            if info[20] is None:
+                element_shape = [] if info[5] == 1 else [info[5]]
+                if info[21]:
+                    element_shape.append(3)
+                a = other.cached_part_array_ref(part).reshape([-1] + element_shape)[flattened_indices.flatten()]
+                a = a.reshape(list(target_shape) + element_shape)
+            else:
+                a = None  # constant array
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From 2ef5ef2373a75953e233e168916b3287e746df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 060/231] fix: split gap cross section points for grids without
 split pillars

---
 resqpy/grid/_points_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..f6d6eef 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -565,7 +565,7 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From ed2ed613c37bdab749fc193506c92c74c4709c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 061/231] fix: composite bounding box no longer changes the
 first box in the list

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..07e27b0 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -97,7 +97,7 @@ def bounding_box(grid, cell_kji0, points_root = None, cache_cp_array = False):
 def composite_bounding_box(grid, bounding_box_list):
     """Returns the xyz box which envelopes all the boxes in the list, as a numpy array of shape (2, 3)."""
 
-    result = bounding_box_list[0]
+    result = bounding_box_list[0].copy()
     for box in bounding_box_list[1:]:
         result[0] = np.minimum(result[0], box[0])
         result[1] = np.maximum(result[1], box[1])
-- 
2.43.0


From 0bb4db830daeb8fcde2e02a018464616a9870475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 062/231] fix: split column faces in the last row or column of
 an IJK grid

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From dd6af06220ee6fa94b35582e7c18116a51c5ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 063/231] fix: first fault lost by find_faults when every
 internal column face is a fault face

---
 resqpy/grid/_faults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_faults.py b/resqpy/grid/_faults.py
index 33df029..23faf7d 100644
--- a/resqpy/grid/_faults.py
+++ b/resqpy/grid/_faults.py
@@ -79,7 +79,8 @@ def find_faults(grid, set_face_sets = False, create_organizing_objects_where_nee
                     kelp_j = np.where(kelp_j == i_id, j_id, kelp_j)
 
     fault_id_list = np.unique(np.concatenate(
-        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))[1:]  # discard zero from list
+        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))
+    fault_id_list = fault_id_list[fault_id_list != 0]  # discard zero from list
     log.info('number of distinct faults: ' + str(fault_id_list.size))
     # for each fault id, make pair of tuples of kelp locations
     grid.fault_dict = {}  # maps fault_id to pair (j faces, i faces) of array of [j, i] kelp indices for that fault_id
-- 
2.43.0


From a7a30b874e3c1d52f08139aa1ca2de7ecf69cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 064/231] fix: reading points of grids stored as parametric
 lines, individually or with split pillars

---
 resqpy/grid/_points_functions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index f6d6eef..3380b19 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -227,7 +227,15 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         assert hasattr(grid, 'temp_cp') and grid.temp_cp is not None and grid.temp_cp.shape == (2, pp_count, 3)
         pillar_count = pp_count
         if grid.has_split_coordinate_lines:
-            assert hasattr(grid, 'split_pillar_indices_cached') and grid.split_pillar_indices_cached is not None
+            if not hasattr(grid, 'split_pillar_indices_cached') or grid.split_pillar_indices_cached is None:
+                split_root = grid.resolve_geometry_child('SplitCoordinateLines')
+                h5_key_pair = grid.model.h5_uuid_and_path_for_node(rqet.find_tag(split_root, 'PillarIndices'))
+                grid.model.h5_array_element(h5_key_pair,
+                                            index = None,
+                                            cache_array = True,
+                                            object = grid,
+                                            array_attribute = 'split_pillar_indices_cached',
+                                            dtype = 'int')
             pillar_count += grid.split_pillar_indices_cached.size
         cpp = np.empty((2, pillar_count), dtype = float)
         cpp[:, :pp_count] = grid.temp_cpp
@@ -262,6 +270,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         delattr(grid, 'temp_cpp')
         delattr(grid, 'temp_cp')
         delattr(grid, 'temp_parameters')
+        if index is not None:
+            value = grid.points_cached[tuple(index)]
     else:
         raise NotImplementedError(f'grid gepmetry loading for points type: {points_type}')
     if index is None:
-- 
2.43.0


From de374bec058691d340bbcdd21a8d7360eaed677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 065/231] fix: setting which cells and pillars have geometry:
 split pillars, nullified pillars and areal dots

---
 resqpy/grid/_defined_geometry.py | 73 ++++++++++++++------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index 7b0dc7c..4b62e61 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -291,6 +291,9 @@ def set_geometry_is_defined(grid,
     if some_areal_dots:
         nan_mask = __handle_areal_dots(areal_dots, grid, nan_mask)
 
+    if nullify_partial_pillars:
+        nan_mask[:, np.any(nan_mask, axis = 0)] = True
+
     assert not np.all(nan_mask), 'grid does not have any geometry defined'
 
     points[np.where(np.repeat(np.expand_dims(nan_mask, axis = nan_mask.ndim), 3, axis = -1))] = np.nan
@@ -309,17 +312,7 @@ def set_geometry_is_defined(grid,
 
     grid.geometry_defined_for_all_cells_cached = False
 
-    primary_nan_mask = nan_mask.reshape((grid.nk_plus_k_gaps + 1, -1))[:, :primary_count].reshape(
-        (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1))
-
-    column_nan_mask = np.logical_or(np.logical_or(primary_nan_mask[:, :-1, :-1], primary_nan_mask[:, :-1, 1:]),
-                                    np.logical_or(primary_nan_mask[:, 1:, :-1], primary_nan_mask[:, 1:, 1:]))
-
-    if grid.k_gaps:
-        grid.array_cell_geometry_is_defined = np.logical_not(
-            np.logical_or(column_nan_mask[grid.k_raw_index_array], column_nan_mask[grid.k_raw_index_array + 1]))
-    else:
-        grid.array_cell_geometry_is_defined = np.logical_not(np.logical_or(column_nan_mask[:-1], column_nan_mask[1:]))
+    grid.array_cell_geometry_is_defined = __cells_with_all_points(grid, nan_mask)
 
     if hasattr(grid, 'inactive') and grid.inactive is not None:
         grid.inactive = np.logical_or(grid.inactive, np.logical_not(grid.array_cell_geometry_is_defined))
@@ -332,13 +325,7 @@ def set_geometry_is_defined(grid,
 
     cells_update_needed = False
 
-    if nullify_partial_pillars:
-        partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
-        if np.any(partial_pillar_mask):
-            points.reshape((grid.nk_plus_k_gaps + 1, -1, 3))[:, partial_pillar_mask, :] = np.nan
-            grid.geometry_defined_for_all_pillars_cached = False
-            cells_update_needed = True
-    elif complete_partial_pillars:
+    if complete_partial_pillars:
         partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
         if np.any(partial_pillar_mask):
             log.warning('completing geometry for partially defined pillars')
@@ -357,18 +344,25 @@ def set_geometry_is_defined(grid,
             if hasattr(grid, 'array_cell_geometry_is_defined'):
                 del grid.array_cell_geometry_is_defined
         else:
-            top_nan_mask = np.isnan(points[0, ..., 0].flatten()[:(grid.nj + 1) * (grid.ni + 1)].reshape(
-                (grid.nj + 1, grid.ni + 1)))
-            column_nan_mask = np.logical_or(np.logical_or(top_nan_mask[:-1, :-1], top_nan_mask[:-1, 1:]),
-                                            np.logical_or(top_nan_mask[1:, :-1], top_nan_mask[1:, 1:]))
-            grid.array_cell_geometry_is_defined = np.repeat(np.logical_not(np.expand_dims(column_nan_mask, 0)),
-                                                            grid.nk,
-                                                            axis = 0)
+            grid.array_cell_geometry_is_defined = __cells_with_all_points(grid, np.any(np.isnan(points), axis = -1))
             grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
             if grid.geometry_defined_for_all_cells_cached:
                 del grid.array_cell_geometry_is_defined
 
 
+def __cells_with_all_points(grid, nan_mask):
+    # returns boolean array of shape (nk, nj, ni), True for cells all of whose corner points are defined
+    if grid.has_split_coordinate_lines:
+        column_nan_mask = np.any(nan_mask[:, grid.create_column_pillar_mapping()], axis = (-2, -1))
+    else:
+        column_nan_mask = np.logical_or(np.logical_or(nan_mask[:, :-1, :-1], nan_mask[:, :-1, 1:]),
+                                        np.logical_or(nan_mask[:, 1:, :-1], nan_mask[:, 1:, 1:]))
+    if grid.k_gaps:
+        return np.logical_not(
+            np.logical_or(column_nan_mask[grid.k_raw_index_array], column_nan_mask[grid.k_raw_index_array + 1]))
+    return np.logical_not(np.logical_or(column_nan_mask[:-1], column_nan_mask[1:]))
+
+
 def __complete_all_pillars(cells_update_needed, grid, points, surround_z):
     # note: each pillar is either fully defined or fully undefined at this point
     top_nan_mask = np.isnan(points[0, ..., 0].flatten()[:(grid.nj + 1) * (grid.ni + 1)].reshape(
@@ -400,23 +394,18 @@ def __complete_all_pillars(cells_update_needed, grid, points, surround_z):
 
 def __handle_areal_dots(areal_dots, grid, nan_mask):
     # inject NaNs into the pillars around any cell that has zero length in I and J
-    if grid.k_gaps:
-        dot_mask = np.zeros((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1), dtype = bool)
-        dot_mask[grid.k_raw_index_array, :-1, :-1] = areal_dots
-        dot_mask[grid.k_raw_index_array + 1, :-1, :-1] = np.logical_or(dot_mask[grid.k_raw_index_array + 1, :-1, :-1],
-                                                                       areal_dots)
-    else:
-        dot_mask = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1), dtype = bool)
-        dot_mask[:-1, :-1, :-1] = areal_dots
-        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[:-1, :-1, :-1], areal_dots)
-    dot_mask[:, 1:, :-1] = np.logical_or(dot_mask[:, :-1, :-1], dot_mask[:, 1:, :-1])
-    dot_mask[:, :, 1:] = np.logical_or(dot_mask[:, :, :-1], dot_mask[:, :, 1:])
-    if grid.has_split_coordinate_lines:
-        # only set points in primary pillars to NaN; todo: more thorough to consider split pillars too
-        primaries = (grid.nj + 1) * (grid.ni + 1)
-        nan_mask[:, :primaries] = np.logical_or(nan_mask[:, :primaries], dot_mask.reshape((-1, primaries)))
-    else:
-        nan_mask = np.where(dot_mask, np.nan, nan_mask)
+    k, j, i = np.where(areal_dots)
+    raw_k = grid.k_raw_index_array[k] if grid.k_gaps else k
+    for kp in range(2):
+        if grid.has_split_coordinate_lines:
+            pillars_for_column = grid.create_column_pillar_mapping()
+            for jp in range(2):
+                for ip in range(2):
+                    nan_mask[raw_k + kp, pillars_for_column[j, i, jp, ip]] = True
+        else:
+            for jp in range(2):
+                for ip in range(2):
+                    nan_mask[raw_k + kp, j + jp, i + ip] = True
     return nan_mask
 
 
-- 
2.43.0


From 2126b94e1a4387720ea5785baa9499d51d48fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 066/231] fix: pillar geometry flags for the last row and
 column of pillars and for split pillars

---
 resqpy/grid/_defined_geometry.py | 4 ++--
 resqpy/grid/_points_functions.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index 4b62e61..2d3714f 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -175,8 +175,8 @@ def geometry_defined_for_all_pillars(grid, cache_array = True, pillar_geometry_i
     is_def_root = grid.resolve_geometry_child('PillarGeometryIsDefined', child_node = pillar_geometry_is_defined_root)
     grid.geometry_defined_for_all_pillars_cached = True
     if is_def_root is not None:
-        for pillar_j in range(grid.nj):
-            for pillar_i in range(grid.ni):
+        for pillar_j in range(grid.nj + 1):
+            for pillar_i in range(grid.ni + 1):
                 if not grid.pillar_geometry_is_defined(
                     [pillar_j, pillar_i], pillar_geometry_is_defined_root = is_def_root, cache_array = False):
                     grid.geometry_defined_for_all_pillars_cached = False
diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 3380b19..bd82c27 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -158,8 +158,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         if len(index) == 3:
             ji = tuple(index[1:])
         else:
-            ji = tuple(divmod(index[1], grid.ni))
-        if ji[0] < grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
+            ji = tuple(divmod(index[1], grid.ni + 1))
+        if ji[0] <= grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
             return None
     if grid.points_cached is not None:
         if index is None:
-- 
2.43.0


From 1495df81617c330324466e46ca315639afdbf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 067/231] fix: position of generated pillars around the outside
 of a grid

---
 resqpy/grid/_defined_geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index 2d3714f..de72d4e 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -583,7 +583,7 @@ def __fill_surround(grid, surround_mask):
         (grid.nj + 1, grid.ni + 1, 2))
     modified = False
     if grid.nj > 1:
-        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :])
+        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :], axis = (0, 1))
         j = 0
         while j < grid.nj and np.all(surround_mask[j, :]):
             j += 1
@@ -592,16 +592,16 @@ def __fill_surround(grid, surround_mask):
             points_view[j - 1, :] = points_view[j, :] - j_xy_vector
             modified = True
             j -= 1
-        j = grid.nj - 1
+        j = grid.nj
         while j >= 0 and np.all(surround_mask[j, :]):
             j -= 1
         assert j >= 0
-        while j < grid.nj - 1:
+        while j < grid.nj:
             points_view[j + 1, :] = points_view[j, :] + j_xy_vector
             modified = True
             j += 1
     if grid.ni > 1:
-        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1])
+        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1], axis = (0, 1))
         i = 0
         while i < grid.ni and np.all(surround_mask[:, i]):
             i += 1
@@ -610,11 +610,11 @@ def __fill_surround(grid, surround_mask):
             points_view[:, i - 1] = points_view[:, i] - i_xy_vector
             modified = True
             i -= 1
-        i = grid.ni - 1
+        i = grid.ni
         while i >= 0 and np.all(surround_mask[:, i]):
             i -= 1
         assert i >= 0
-        while i < grid.ni - 1:
+        while i < grid.ni:
             points_view[:, i + 1] = points_view[:, i] + i_xy_vector
             modified = True
             i += 1
-- 
2.43.0


From 892625c0bc3e927224205e994b2b797e2b54b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 068/231] fix: raw layer indices of a grid with k gaps imported
 from corner points

---
 resqpy/rq_import/_grid_from_cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index ede7fb6..6e46fd4 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -227,7 +227,7 @@ class _GridFromCp:
                 layer_gap_unmasked = np.where(gap[k].mask, 0.0, layer_gap)
                 self.__masked_cp_array[k + 1, :, :, 0, :, :, :] -= layer_gap_unmasked
                 self.__masked_cp_array[k, :, :, 1, :, :, :] += layer_gap_unmasked
-            self.__k_gap_raw_index[k + 1] = k + self.__k_gaps
+            self.__k_gap_raw_index[k + 1] = k + 1 + self.__k_gaps
 
     def __close_gaps(self, gap):
         # close voids (includes shifting x & y)
-- 
2.43.0


From 06b55605046da7de51e50166b0e0c359e13d889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 069/231] fix: grid imported from corner points has its crs
 object in session

---
 resqpy/rq_import/_grid_from_cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 6e46fd4..414aadf 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -426,6 +426,7 @@ class _GridFromCp:
         self.grid.crs_uuid = self.__crs_uuid
         self.grid.crs_root = self.__model.root_for_uuid(self.__crs_uuid)
         self.__crs = rqc.Crs(self.__model, uuid = self.__crs_uuid)
+        self.grid.crs = self.__crs
 
         # add pillar points array to grid object
         log.debug('attaching points array to grid object')
-- 
2.43.0


From ab429cdcad32b69c2f688007e393007053a97eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 070/231] fix: active cells keep their geometry when importing
 corner points next to cells without geometry

---
 resqpy/rq_import/_grid_from_cp.py | 34 +++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 414aadf..5683b78 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -248,8 +248,8 @@ class _GridFromCp:
         else:
             slice = self.__masked_cp_array[1:, :, :, 0, :, :, :]
             # where cell geometry undefined, if cell above is defined, take data from cell above with kp = 1 and set shared point defined
-            self.__k_reduced_cp_array[1:-1, :, :, :, :, :] = np.where(slice.mask, self.__masked_cp_array[:-1, :, :,
-                                                                                                         1, :, :, :],
+            self.__k_reduced_cp_array[1:-1, :, :, :, :, :] = ma.where(ma.getmaskarray(slice),
+                                                                      self.__masked_cp_array[:-1, :, :, 1, :, :, :],
                                                                       slice)
 
     def __get_k_reduced_cp_array_kgaps(self):
@@ -263,9 +263,9 @@ class _GridFromCp:
                 raw_k += 1
             else:  # take data from either possible cp slice, whichever is defined
                 slice = self.__masked_cp_array[k + 1, :, :, 0, :, :, :]
-                self.__k_reduced_cp_array[raw_k, :, :, :, :, :] = np.where(slice.mask,
-                                                                           self.__masked_cp_array[k, :, :,
-                                                                                                  1, :, :, :], slice)
+                self.__k_reduced_cp_array[raw_k, :, :, :, :, :] = ma.where(ma.getmaskarray(slice),
+                                                                           self.__masked_cp_array[k, :, :, 1, :, :, :],
+                                                                           slice)
                 raw_k += 1
         assert raw_k == self.__nk + self.__k_gaps
 
@@ -302,6 +302,26 @@ class _GridFromCp:
                                                 dtype = 'int'))  # (j, i, jp, ip); -1 means use primary
         if self.__split_pillars:
             self.__get_extra_pillar_ref_split()
+        elif not self.__geometry_defined_everywhere:
+            self.__fill_primary_pillars()
+
+    def __fill_primary_pillars(self):
+        # where primary for a pillar has undefined points, use points from other columns around the pillar
+        for j in range(self.__nj_plus_1):
+            for i in range(self.__ni_plus_1):
+                primary_jp, primary_ip = self.__primary_pillar_jip[j, i]
+                for jp in range(2):
+                    for ip in range(2):
+                        if 0 <= j - jp < self.__nj and 0 <= i - ip < self.__ni:
+                            self.__fill_undefined(j, i, primary_jp, primary_ip, jp, ip)
+
+    def __fill_undefined(self, j, i, into_jp, into_ip, from_jp, from_ip):
+        # copies from one corner column to another, sharing the same pillar, where points of the latter are undefined
+        into = self.__k_reduced_cp_array[:, j - into_jp, i - into_ip, into_jp, into_ip, :]
+        if ma.is_masked(into):
+            other = self.__k_reduced_cp_array[:, j - from_jp, i - from_ip, from_jp, from_ip, :]
+            self.__k_reduced_cp_array[:, j - into_jp, i - into_ip, into_jp,
+                                      into_ip, :] = ma.where(ma.getmaskarray(into), other, into)
 
     def __get_extra_pillar_ref_split(self):
         log.debug('building extra pillar references for split pillars')
@@ -323,7 +343,8 @@ class _GridFromCp:
         discrepancy = np.max(
             np.abs(self.__k_reduced_cp_array[:, col_j, col_i, jp, ip, :] -
                    self.__k_reduced_cp_array[:, p_col_j, p_col_i, primary_jp, primary_ip, :]))
-        if discrepancy <= self.__split_tolerance:
+        if discrepancy is ma.masked or discrepancy <= self.__split_tolerance:
+            self.__fill_undefined(j, i, primary_jp, primary_ip, jp, ip)
             return  # data for this column's corner aligns with primary
         for e in range(self.__extras_count[j, i]):
             eli = self.__extras_list_index[j, i] + e
@@ -335,6 +356,7 @@ class _GridFromCp:
                                                  self.__extras_list[eli][1], :]))
             if discrepancy <= self.__split_tolerance:  # data for this corner aligns with existing extra
                 self.__extras_use[col_j, col_i, jp, ip] = e
+                self.__fill_undefined(j, i, self.__extras_list[eli][0], self.__extras_list[eli][1], jp, ip)
                 break
         if self.__extras_use[col_j, col_i, jp, ip] >= 0:  # reusing an existing extra for this pillar
             return
-- 
2.43.0


From 60945862dea1c09596a5b75acb265cc1d09da65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 071/231] fix: automatic handedness of a corner point grid
 whose z values decrease with k

---
 resqpy/rq_import/_grid_from_cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 5683b78..15987b1 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -536,7 +536,7 @@ class _GridFromCp:
             sample_cp = self.__cp_array[sample_kji0]
             self.__cell_ijk_lefthanded = (vec.clockwise(sample_cp[0, 0, 0], sample_cp[0, 1, 0], sample_cp[0, 0, 1]) >=
                                           0.0)
-            if not self.grid.k_direction_is_down:
+            if np.mean(sample_cp[1, :, :, 2]) < np.mean(sample_cp[0, :, :, 2]):  # z decreases with increasing k
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
             if self.__crs.is_right_handed_xyz():
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
-- 
2.43.0


From 3d2cdafb0f18a80d6af4756f9520df33c3db4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 072/231] fix: volumes requested in other units no longer
 change the array returned earlier

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..dfca51d 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,7 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom, required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From 640bc46849fa8eb4c871d5425e103e09bb344cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 073/231] fix: thickness of a single cell from a property
 without caching

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index dfca51d..956b918 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -85,7 +85,7 @@ def thickness(grid,
             grid.array_thickness = thick.copy()
         if cell_kji0 is None:
             return grid.array_thickness
-        return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
+        return thick[tuple(cell_kji0)]  # could check for nan here and return None
 
     points_root = grid.resolve_geometry_child('Points', child_node = points_root)
     if cache_thickness_array:
-- 
2.43.0


From 2a90605a45271a3513444ad65f48bcdacdc1bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 074/231] fix: check of cell edge directions detects flips in
 either direction

---
 resqpy/grid/_xyz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index 07e27b0..a0d16f3 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -254,19 +254,19 @@ def check_top_and_base_cell_edge_directions(grid):
     # check direction of top edges against corresponding base edges, tolerate upto 90 degree difference
     dot_j = np.sum(top_j_edge_vectors * base_j_edge_vectors, axis = 2)
     dot_i = np.sum(top_i_edge_vectors * base_i_edge_vectors, axis = 2)
-    if not np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0):
+    if not (np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0)):
         log.warning('one or more columns of cell edges flip direction: this grid is probably unusable')
         good = False
     log.debug('checking relative direction of edges in neighbouring cells at top of grid (and base)')
     # check direction of similar edges on neighbouring cells, tolerate upto 90 degree difference
     dot_jp = np.sum(top_j_edge_vectors[1:, :, :] * top_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(top_i_edge_vectors[1:, :, :] * top_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('top cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     dot_jp = np.sum(base_j_edge_vectors[1:, :, :] * base_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(base_i_edge_vectors[1:, :, :] * base_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('base cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     return good
-- 
2.43.0


From f24c66efe5afe02f835c7abfbed65042ba5b1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 075/231] fix: K direction set from points considers only z
 values

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 75b0af4..f3051d7 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -569,7 +569,7 @@ def set_k_direction_from_points(grid):
     p = grid.points_ref(masked = False)
     grid.k_direction_is_down = True  # arbitrary default
     if p is not None:
-        diff = np.nanmean(p[-1] - p[0])
+        diff = np.nanmean(p[-1, ..., 2] - p[0, ..., 2])
         if not np.isnan(diff):
             grid.k_direction_is_down = ((diff >= 0.0) == grid.z_inc_down())
     return grid.k_direction_is_down
-- 
2.43.0


From b8631f7d0b95e60aaad59e6416ef647d9f9cf399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 076/231] fix: active property selected by time index of grid
 geometry

---
 resqpy/grid/_extract_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index f3051d7..0b55b63 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -524,6 +524,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
             active_gpc = rprop.selective_version_of_collection(active_gpc,
                                                                time_index = grid.time_index,
                                                                time_series_uuid = grid.time_series_uuid)
+            active_parts = [] if active_gpc is None else active_gpc.parts()
         else:
             active_parts = []
             for part in active_gpc.parts():
-- 
2.43.0


From fd0dfd862de8ddda1892943ba67787546364452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 077/231] fix: scan of pixels for a polygon extending to the
 left of the pixels

---
 resqpy/olio/point_inclusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/point_inclusion.py b/resqpy/olio/point_inclusion.py
index 11535de..c6baff8 100644
--- a/resqpy/olio/point_inclusion.py
+++ b/resqpy/olio/point_inclusion.py
@@ -175,8 +175,9 @@ def scan(origin, ncol, nrow, dx, dy, poly):
             sx, ex = ix[1], ix[0]
         else:
             sx, ex = ix[0], ix[1]
-        scol = maths.ceil((sx - origin[0]) / dx)
-        ecol = int((ex - origin[0]) / dx)
-        inside[row, scol:ecol + 1] = True
+        scol = max(maths.ceil((sx - origin[0]) / dx), 0)
+        ecol = maths.floor((ex - origin[0]) / dx)
+        if ecol >= scol:
+            inside[row, scol:ecol + 1] = True
 
     return inside
-- 
2.43.0


From bf58bd7ab1a7c2a15a98383828bafa21f6a3865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 078/231] fix: pixel maps include cells which are partly
 outside the area mapped

---
 resqpy/grid/_pixel_maps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_pixel_maps.py b/resqpy/grid/_pixel_maps.py
index 73cc424..a718eed 100644
--- a/resqpy/grid/_pixel_maps.py
+++ b/resqpy/grid/_pixel_maps.py
@@ -93,11 +93,12 @@ def pixel_map_for_split_horizon_points(grid, horizon_points, origin, width, heig
                 continue
             poly_box[0] = np.min(poly_points[j, i], axis = 0) - half_d
             poly_box[1] = np.max(poly_points[j, i], axis = 0) + half_d
-            patch_p_origin[:] = (poly_box[0] - origin) / (dx, dy)
-            if patch_p_origin[0] < 0 or patch_p_origin[1] < 0:
-                continue
+            patch_p_origin[:] = np.floor((poly_box[0] - origin) / (dx, dy))
             patch_extent[:] = np.ceil((poly_box[1] - poly_box[0]) / (dx, dy))
-            if patch_p_origin[0] + patch_extent[0] > width or patch_p_origin[1] + patch_extent[1] > height:
+            patch_p_end = np.minimum(patch_p_origin + patch_extent, (width, height))
+            patch_p_origin[:] = np.maximum(patch_p_origin, 0)
+            patch_extent[:] = patch_p_end - patch_p_origin
+            if np.any(patch_extent <= 0):
                 continue
             patch_origin = origin + d * patch_p_origin + half_d
             scan_mask = pip.scan(patch_origin, patch_extent[0], patch_extent[1], dx, dy, poly_points[j, i])
-- 
2.43.0


From a270de2c5cb393a58a60077462bc4ab9a54dd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 079/231] fix: pinched out cells with a different tolerance
 from that used before

---
 resqpy/grid/_cell_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 956b918..ea6159b 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -292,7 +292,7 @@ def pinched_out(grid,
     if cache_pinchout_array is None:
         cache_pinchout_array = (cell_kji0 is None)
 
-    if grid.pinchout is not None:
+    if grid.pinchout is not None and getattr(grid, 'pinchout_tolerance', tolerance) == tolerance:
         if cell_kji0 is None:
             return grid.pinchout
         return grid.pinchout[tuple(cell_kji0)]
@@ -308,6 +308,7 @@ def pinched_out(grid,
         cache_cp_array = cache_cp_array,  # deprecated
         cache_thickness_array = cache_thickness_array or cache_pinchout_array)
     if cache_pinchout_array:
+        grid.pinchout_tolerance = tolerance
         grid.pinchout = np.where(np.isnan(grid.array_thickness), True, np.logical_not(grid.array_thickness > tolerance))
         if cell_kji0 is None:
             return grid.pinchout
-- 
2.43.0


From fba768d749ab6a084b61e4abe3a5bfc66805905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 080/231] fix: volume of hexahedral cells with faces which are
 not planar

---
 resqpy/olio/volume.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..f09d4e1 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -59,19 +59,19 @@ def tetra_cell_volume(cp, centre = None, off_hand = False):
     r1 = cp[1, 1, 1] - centre
     v = 0.0
     v += _pyr(r0, cp[0, 0, 1] - cp[0, 0, 0], cp[0, 1, 1] - cp[0, 0, 0], cp[0, 1, 0] - cp[0, 0, 0],
-              cp[0, 1, 0] - cp[0, 0, 1])
+              cp[0, 0, 1] - cp[0, 1, 0])
     v += _pyr(r0, cp[1, 0, 0] - cp[0, 0, 0], cp[1, 0, 1] - cp[0, 0, 0], cp[0, 0, 1] - cp[0, 0, 0],
-              cp[0, 0, 1] - cp[1, 0, 0])
+              cp[1, 0, 0] - cp[0, 0, 1])
     v += _pyr(r0, cp[0, 1, 0] - cp[0, 0, 0], cp[1, 1, 0] - cp[0, 0, 0], cp[1, 0, 0] - cp[0, 0, 0],
-              cp[1, 0, 0] - cp[0, 1, 0])
+              cp[0, 1, 0] - cp[1, 0, 0])
     v += _pyr(r1, cp[1, 0, 1] - cp[1, 1, 1], cp[1, 0, 0] - cp[1, 1, 1], cp[1, 1, 0] - cp[1, 1, 1],
-              cp[1, 1, 0] - cp[1, 0, 1])
+              cp[1, 0, 1] - cp[1, 1, 0])
     v += _pyr(r1, cp[1, 1, 0] - cp[1, 1, 1], cp[0, 1, 0] - cp[1, 1, 1], cp[0, 1, 1] - cp[1, 1, 1],
-              cp[0, 1, 1] - cp[1, 1, 0])
+              cp[1, 1, 0] - cp[0, 1, 1])
     v += _pyr(r1, cp[0, 1, 1] - cp[1, 1, 1], cp[0, 0, 1] - cp[1, 1, 1], cp[1, 0, 1] - cp[1, 1, 1],
-              cp[1, 0, 1] - cp[0, 1, 1])
+              cp[0, 1, 1] - cp[1, 0, 1])
 
-    if off_hand:
+    if not off_hand:
         v = -v
 
     return v / 6.0
@@ -133,20 +133,20 @@ def tetra_volumes(cp, centres = None, off_hand = False):
     r1 = flat[:, 1, 1, 1] - centres
 
     v += pyrs(r0, flat[:, 0, 0, 1] - flat[:, 0, 0, 0], flat[:, 0, 1, 1] - flat[:, 0, 0, 0],
-              flat[:, 0, 1, 0] - flat[:, 0, 0, 0], flat[:, 0, 1, 0] - flat[:, 0, 0, 1])
+              flat[:, 0, 1, 0] - flat[:, 0, 0, 0], flat[:, 0, 0, 1] - flat[:, 0, 1, 0])
     v += pyrs(r0, flat[:, 1, 0, 0] - flat[:, 0, 0, 0], flat[:, 1, 0, 1] - flat[:, 0, 0, 0],
-              flat[:, 0, 0, 1] - flat[:, 0, 0, 0], flat[:, 0, 0, 1] - flat[:, 1, 0, 0])
+              flat[:, 0, 0, 1] - flat[:, 0, 0, 0], flat[:, 1, 0, 0] - flat[:, 0, 0, 1])
     v += pyrs(r0, flat[:, 0, 1, 0] - flat[:, 0, 0, 0], flat[:, 1, 1, 0] - flat[:, 0, 0, 0],
-              flat[:, 1, 0, 0] - flat[:, 0, 0, 0], flat[:, 1, 0, 0] - flat[:, 0, 1, 0])
+              flat[:, 1, 0, 0] - flat[:, 0, 0, 0], flat[:, 0, 1, 0] - flat[:, 1, 0, 0])
     v += pyrs(r1, flat[:, 1, 0, 1] - flat[:, 1, 1, 1], flat[:, 1, 0, 0] - flat[:, 1, 1, 1],
-              flat[:, 1, 1, 0] - flat[:, 1, 1, 1], flat[:, 1, 1, 0] - flat[:, 1, 0, 1])
+              flat[:, 1, 1, 0] - flat[:, 1, 1, 1], flat[:, 1, 0, 1] - flat[:, 1, 1, 0])
     v += pyrs(r1, flat[:, 1, 1, 0] - flat[:, 1, 1, 1], flat[:, 0, 1, 0] - flat[:, 1, 1, 1],
-              flat[:, 0, 1, 1] - flat[:, 1, 1, 1], flat[:, 0, 1, 1] - flat[:, 1, 1, 0])
+              flat[:, 0, 1, 1] - flat[:, 1, 1, 1], flat[:, 1, 1, 0] - flat[:, 0, 1, 1])
     v += pyrs(r1, flat[:, 0, 1, 1] - flat[:, 1, 1, 1], flat[:, 0, 0, 1] - flat[:, 1, 1, 1],
-              flat[:, 1, 0, 1] - flat[:, 1, 1, 1], flat[:, 1, 0, 1] - flat[:, 0, 1, 1])
+              flat[:, 1, 0, 1] - flat[:, 1, 1, 1], flat[:, 0, 1, 1] - flat[:, 1, 0, 1])
 
     v /= 6.0
 
-    if off_hand:
+    if not off_hand:
         v = np.negative(v)
     return v.reshape(cp.shape[0:3])
-- 
2.43.0


From 5d804e8c2650429d994d95d3c04cee328229cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 081/231] fix: cached centre of a polyline is not used for a
 different definition of centre

---
 resqpy/lines/_polyline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e096b06..dbc3228 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -463,9 +463,10 @@ class Polyline(rql_c._BasePolyline):
     def balanced_centre(self, mode = 'weighted', n = 20, cache = True, in_xy = False):
         """Returns a mean x,y,z based on sampling polyline at regular intervals."""
 
+        assert mode in ['weighted', 'sampled']
+        cache = cache and mode == 'weighted' and not in_xy  # only one definition of centre is cached
         if cache and self.centre is not None:
             return self.centre
-        assert mode in ['weighted', 'sampled']
         if mode == 'sampled':  # this mode is deprecated as it simply approximates the weighted mode
             sample_points = self.equidistant_points(n, in_xy = in_xy)
             centre = np.mean(sample_points, axis = 0)
-- 
2.43.0


From a5c6829d8980c4c5dd187a6e58519bdfcd2bddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 082/231] fix: split_x_section_points() also works for unsplit
 grids

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index bd82c27..fa64976 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -541,6 +541,8 @@ def split_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, masked
     assert not grid.k_gaps, 'split_x_section_points() method is for grids without k gaps; use split_gap_x_section_points()'
 
     points = grid.points_ref(masked = masked)
+    if not grid.has_split_coordinate_lines:
+        points = points.reshape((grid.nk + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From ce9919e32ff5872fa42373502235d73327db4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 083/231] fix: count of cells which are not pinched out, for
 regular grids

---
 resqpy/grid/_grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index ad9cff1..4bd8b3c 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -250,8 +250,10 @@ class Grid(BaseResqpy):
         if not (active_only or non_pinched_out_only or geometry_defined_only):
             return np.prod(self.extent_kji)
         if non_pinched_out_only:
-            self.pinched_out(cache_pinchout_array = True)
-            return self.pinchout.size - np.count_nonzero(self.pinchout)
+            pinchout = self.pinched_out(cache_pinchout_array = True)
+            if self.pinchout is not None:
+                pinchout = self.pinchout
+            return pinchout.size - np.count_nonzero(pinchout)
         if active_only:
             if self.all_inactive:
                 return 0
-- 
2.43.0


From 93ebf398feef8e536296753cca899d603dc3bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 084/231] fix: measured depth datum of a deviation survey which
 is re-read

---
 resqpy/well/_deviation_survey.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..b6be96f 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -461,11 +461,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From 9451e53265874d40b79270435e1401c4d21e5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 085/231] fix: half cell transmissibility of J faces of a grid
 with k gaps and no split pillars

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 4704c3f..2664c2a 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -290,8 +290,8 @@ def half_cell_t_irregular(grid,
                 if grid.k_gaps:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][kp][:, :, 1:] + edge_vectors[1][kp][:, :, :-1] +
                                                        edge_vectors[1][km][:, :, 1:] + edge_vectors[1][km][:, :, :-1])
-                    face_areas = (projected_tri_area(p[km][:, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
-                                  projected_tri_area(p[km][:, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
+                    face_areas = (projected_tri_area(p[km][:, :, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
+                                  projected_tri_area(p[km][:, :, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
                 else:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][1:, :, 1:] + edge_vectors[1][1:, :, :-1] +
                                                        edge_vectors[1][:-1, :, 1:] + edge_vectors[1][:-1, :, :-1])
-- 
2.43.0


From bc547429cdde703c5cc14b767fee1b95d1b79d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 086/231] fix: circular import when resqpy.lines is the first
 module imported

---
 resqpy/olio/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/triangulation.py b/resqpy/olio/triangulation.py
index df7b2b7..ec6ce25 100644
--- a/resqpy/olio/triangulation.py
+++ b/resqpy/olio/triangulation.py
@@ -303,7 +303,7 @@ def ccc(p1, p2, p3):
     return meet.line_line_intersect(m12[0], m12[1], o12[0], o12[1], m13[0], m13[1], o13[0], o13[1])
 
 
-def voronoi(p, t, b, aoi: rql.Polyline):
+def voronoi(p, t, b, aoi: 'rql.Polyline'):
     """Returns dual Voronoi diagram for a Delauney triangulation.
 
     arguments:
-- 
2.43.0


From 6651f16bebc3e7c0d06e4dff0c5528fad905d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 087/231] fix: box, column and slice of a regular grid with an
 origin

---
 resqpy/grid/_regular_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index eac0b6c..23023b0 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -672,6 +672,7 @@ class RegularGrid(grr_g.Grid):
                 grid_cp = grid_cp.reshape((8, 3))
                 grid.xyz_box_cached[0] = np.amin(grid_cp, axis = 0)
                 grid.xyz_box_cached[1] = np.amax(grid_cp, axis = 0)
+            grid.xyz_box_cached += grid.block_origin
             grid.xyz_box_cached_thoroughly = True
         if local:
             return grid.xyz_box_cached
@@ -694,8 +695,8 @@ class RegularGrid(grr_g.Grid):
             y = a[0, 1]
         log.debug(f'find for local x: {x}; y: {y}')
         if self.is_aligned:
-            i0 = maths.floor(x / self.block_dxyz_dkji[2, 0])
-            j0 = maths.floor(y / self.block_dxyz_dkji[1, 1])
+            i0 = maths.floor((x - self.block_origin[0]) / self.block_dxyz_dkji[2, 0])
+            j0 = maths.floor((y - self.block_origin[1]) / self.block_dxyz_dkji[1, 1])
         else:
             # TODO
             raise NotImplementedError('finding cell for x,y in unaligned regular grid')
@@ -842,8 +843,7 @@ class RegularGrid(grr_g.Grid):
         dxyz_da = self.block_dxyz_dkji[other_axes[0]]
         dxyz_db = self.block_dxyz_dkji[other_axes[1]]
         p = np.zeros(shape, dtype = float)
-        if ref_slice:
-            p[0, 0] = ref_slice * self.block_dxyz_dkji[axis]
+        p[0, 0] = self.block_origin + ref_slice * self.block_dxyz_dkji[axis]
         for a in range(1, shape[0]):
             p[a, 0] = p[0, 0] + a * dxyz_da
         for b in range(1, shape[1]):
-- 
2.43.0


From 91e78d61d78d118ff433393de8270c579d2664ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 088/231] fix: K axis of a regular grid which is based on a
 mesh is vertical

---
 resqpy/grid/_regular_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index 23023b0..09334f9 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -129,7 +129,7 @@ class RegularGrid(grr_g.Grid):
                 assert dxyz is None and dxyz_dkji is None
                 origin = mesh.regular_origin
                 dxyz_dkji = np.empty((3, 3))
-                dxyz_dkji[0, :] = mesh_dz_dk
+                dxyz_dkji[0, :] = (0.0, 0.0, mesh_dz_dk)
                 dxyz_dkji[1, :] = mesh.regular_dxyz_dij[1]  # J axis
                 dxyz_dkji[2, :] = mesh.regular_dxyz_dij[0]  # I axis
                 if crs_uuid is None:
-- 
2.43.0


From df6314edc3cbb6a4740b77086ae2e4c80ef8eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 089/231] fix: trajectory from a deviation survey with a change
 of azimuth in a vertical section

---
 resqpy/well/_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..251aa1f 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -357,8 +357,8 @@ class Trajectory(BaseResqpy):
                 cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
                 theta = maths.acos(cos_theta)
                 #           theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
-                assert theta != 0.0  # shouldn't happen as covered by if clause above
-                half_rf = maths.tan(0.5 * theta) / theta
+                # theta can be zero here, eg. where the azimuth varies in a vertical section
+                half_rf = 0.5 if theta == 0.0 else maths.tan(0.5 * theta) / theta
                 delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
-- 
2.43.0


From 807e701b9f272d072c16e3b0259893439bd00560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 090/231] fix: deviation survey with angles in radians

---
 resqpy/well/_deviation_survey.py | 1 +
 resqpy/well/_trajectory.py       | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index b6be96f..02aa857 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 251aa1f..5d9d3ee 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -343,6 +343,8 @@ class Trajectory(BaseResqpy):
             i2 = survey.inclinations[sp]
             az1 = survey.azimuths[sp - 1]
             az2 = survey.azimuths[sp]
+            if not survey.angles_in_degrees:
+                i1, i2, az1, az2 = (maths.degrees(a) for a in (i1, i2, az1, az2))
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
             if i1 == i2 and az1 == az2:
-- 
2.43.0


From 0b10f09720e82997df937883c32d21cd125a33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 091/231] fix: wellbore interpretation of a deviation survey
 which is re-read

---
 resqpy/well/_deviation_survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 02aa857..7a6b892 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -288,6 +288,7 @@ class DeviationSurvey(BaseResqpy):
         # Set related objects
         self.md_datum = self._load_related_datum()
         self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self.represented_interp
 
         # Validate
         assert self.measured_depths is not None
-- 
2.43.0


From 125b77a72d3c7b05b33f4202300e60ccad482849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 092/231] fix: trajectory from a deviation survey, where the
 crs has z increasing upwards or other length units

---
 resqpy/well/_trajectory.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 5d9d3ee..b9c2901 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -338,6 +338,16 @@ class Trajectory(BaseResqpy):
     def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        # azimuth and inclination give directions with z downwards and lengths in the units of measured depth
+        crs_uuid = self.crs_uuid if survey.md_datum is None else survey.md_datum.crs_uuid
+        crs = None if crs_uuid is None else rqc.Crs(self.model, uuid = crs_uuid)
+        scaling = np.ones(3)
+        if crs is not None:
+            scaling[:2] = wam.convert_lengths(1.0, survey.md_uom, crs.xy_units)
+            scaling[2] = wam.convert_lengths(1.0, survey.md_uom, crs.z_units)
+            if not crs.z_inc_down:
+                scaling[2] = -scaling[2]
+
         for sp in range(1, self.knot_count):
             i1 = survey.inclinations[sp - 1]
             i2 = survey.inclinations[sp]
@@ -365,7 +375,7 @@ class Trajectory(BaseResqpy):
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
                 delta_v = np.array((delta_x, delta_y, delta_z))
-            self.control_points[sp] = self.control_points[sp - 1] + delta_v
+            self.control_points[sp] = self.control_points[sp - 1] + scaling * delta_v
 
     def load_from_data_frame(
             self,
-- 
2.43.0


From edefca5c839cd7229be86e3c7f89f6209042e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 093/231] fix: inclination of a section of a trajectory which
 is vertically upwards

---
 resqpy/well/_trajectory.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index b9c2901..e0ab05a 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -704,11 +704,7 @@ class Trajectory(BaseResqpy):
             interval_vectors[:, 2] = -interval_vectors[:, 2]
         interval_h = np.sqrt((interval_vectors[:, 0] * interval_vectors[:, 0]) +
                              (interval_vectors[:, 1] * interval_vectors[:, 1]))
-        restore = np.seterr(all = 'ignore')
-        incl_radians = np.arctan(interval_h / interval_vectors[:, 2])  # horizontal / vertical
-        np.seterr(**restore)
-        incl_radians = np.where(interval_vectors[:, 2] == 0.0, maths.pi / 2.0, incl_radians)
-        incl_radians = np.where(incl_radians < 0.0, incl_radians + maths.pi, incl_radians)
+        incl_radians = np.arctan2(interval_h, interval_vectors[:, 2])  # horizontal / vertical
         return np.degrees(incl_radians)
 
     def splined_trajectory(self,
-- 
2.43.0


From 651828af79a67ecb80131e6642a38e35f65d9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 094/231] fix: well blocking, where a faulted grid has no fault
 on J faces

---
 resqpy/grid_surface/_grid_skin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index c9d10c1..ea9f9a8 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -332,6 +332,9 @@ class GridSkin:
                 col_surf_index, _ = fault_surf_list.surface_index_for_triangle_index(surf_tri_index)
                 col_ji0 = np.empty((2,), dtype = int)
                 surf_index -= 6 + 2 * self.k_gaps
+                if len(self.fault_j_face_cols_ji0) == 0:  # there are no J fault surfaces in the list
+                    surf_index += 2
+                    axis = 2
                 if surf_index in [0, 1]:  # J-/+ fault face
                     col_ji0[:] = self.fault_j_face_cols_ji0[col_surf_index]
                 elif surf_index in [2, 3]:  # I-/+ fault face
-- 
2.43.0


From 30893e26c8542d98bf008236609eeee6b07bd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 095/231] fix: cross section surface, and so well blocking, for
 a grid with k gaps and no split pillars

---
 resqpy/grid_surface/_grid_surface.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resqpy/grid_surface/_grid_surface.py b/resqpy/grid_surface/_grid_surface.py
index 4fdf76e..d40a76e 100644
--- a/resqpy/grid_surface/_grid_surface.py
+++ b/resqpy/grid_surface/_grid_surface.py
@@ -186,6 +186,14 @@ def generate_untorn_surface_for_x_section(grid,
 
     assert axis.upper() in ['I', 'J']
 
+    if grid.k_gaps:  # vertically neighbouring cells do not necessarily share points
+        return generate_torn_surface_for_x_section(grid,
+                                                   axis,
+                                                   ref_slice0 = ref_slice0,
+                                                   plus_face = plus_face,
+                                                   quad_triangles = quad_triangles,
+                                                   as_single_layer = as_single_layer)
+
     x_sect_points = grid.unsplit_x_section_points(axis, ref_slice0 = ref_slice0, plus_face = plus_face)
     if as_single_layer:
         shape = np.array(x_sect_points.shape)
-- 
2.43.0


From b5e81d94c00dbbee35e94cdb2001dfaad7716776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 096/231] fix: well blocking, where the grid is first entered
 from within a k gap

---
 resqpy/grid_surface/_blocked_well_populate.py | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..512e220 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -139,19 +139,23 @@ def populate_blocked_well_from_trajectory(blocked_well,
     previous_kji0[axis] += polarity * 2 - 1  # note: previous may legitimately be 'beyond' edge of grid
     entry_fraction = __segment_fraction(traj_xyz, entry_knot, xyz)
     log.debug(f'initial previous kji0: {previous_kji0}')
-    next_cell_info = __find_next_cell(grid,
-                                      previous_kji0,
-                                      axis,
-                                      1 - polarity,
-                                      trajectory,
-                                      entry_knot,
-                                      entry_fraction,
-                                      xyz,
-                                      check_for_reentry,
-                                      treat_skin_as_fault = use_single_layer_tactics,
-                                      lazy = lazy,
-                                      use_single_layer_tactics = use_single_layer_tactics)
-    log.debug(f'initial next cell info: {next_cell_info}')
+    if grid.k_gaps and axis == 0 and 0 <= previous_kji0[0] < grid.nk:  # entry is from within a k gap
+        next_cell_info = (True, cell_kji0, axis, polarity, entry_knot, entry_fraction, xyz)
+    else:
+        next_cell_info = __find_next_cell(grid,
+                                          previous_kji0,
+                                          axis,
+                                          1 - polarity,
+                                          trajectory,
+                                          entry_knot,
+                                          entry_fraction,
+                                          xyz,
+                                          check_for_reentry,
+                                          treat_skin_as_fault = use_single_layer_tactics,
+                                          lazy = lazy,
+                                          use_single_layer_tactics = use_single_layer_tactics)
+        log.debug(f'initial next cell info: {next_cell_info}')
+
     node_mds_list = [__back_calculated_md(trajectory, entry_knot, entry_fraction)]
     node_count = 1
     grid_indices_list = []
-- 
2.43.0


From 4f563a9a37759082fbb4470d67326f45a869bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 097/231] fix: well blocking, following re-entry to the grid

---
 resqpy/grid_surface/_blocked_well_populate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 512e220..8d5031c 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -167,6 +167,7 @@ def populate_blocked_well_from_trajectory(blocked_well,
 
     while next_cell_info is not None:
         entry_shared, kji0, entry_axis, entry_polarity, entry_knot, entry_fraction, entry_xyz = next_cell_info
+        kji0 = np.array(kji0, dtype = int)
 
         # log.debug('next cell entry x,y,z: ' + str(entry_xyz) + '; knot: ' + str(entry_knot) + '; cell kji0: ' +
         #           str(kji0) + '; face: ' + 'KJI'[entry_axis] + '-+'[entry_polarity])
-- 
2.43.0


From d27a85cb5693d04b8370bea37c98197c5af9b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 098/231] fix: intersections of a trajectory do not move the
 point given, which made zero length unblocked intervals at column faces

---
 resqpy/grid_surface/_trajectory_intersects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index bda745f..1dc1ca0 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -172,6 +172,7 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     xyz_2 = tri_2 = None
     if start_xyz is None:
         start_xyz = trajectory.control_points[knot]
+    start_xyz = np.array(start_xyz)  # copy, as nudge is applied in situ
     if knot < trajectory.knot_count - 2 and vec.isclose(start_xyz, trajectory.control_points[knot + 1]):
         knot += 1
     if nudge is not None and nudge != 0.0:
@@ -383,7 +384,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
-- 
2.43.0


From edf5833f3c8d9e4e5783e8e43ad21127b3570118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 099/231] fix: re-entry of a well to a grid through a fault
 face, or following exit through one

---
 resqpy/grid_surface/_grid_skin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index ea9f9a8..e288a89 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -238,7 +238,7 @@ class GridSkin:
            initial entry through a sidewall of the grid or through a fault face
         """
 
-        if exclude_kji0 is not None:
+        if exclude_kji0 is not None or self.has_split_coordinate_lines:  # two sides of a fault might be coincident
             bundle = rqgs.find_first_intersection_of_trajectory_with_surface(trajectory,
                                                                              self.skin,
                                                                              start = start,
@@ -353,15 +353,8 @@ class GridSkin:
                                                                                            nudge = -1.0)
                 if xyz_f is None:
                     if self.k_gaps:
-                        log.debug('failed to identify fault penetration point; assumed to be in k gap; nudging forward')
-                        if nudge is None or nudge < 0.0:
-                            nudge = 0.0
-                        nudge += 0.1
-                        return self.find_first_intersection_of_trajectory(trajectory,
-                                                                          start = segment,
-                                                                          start_xyz = xyz,
-                                                                          nudge = nudge,
-                                                                          exclude_kji0 = exclude_kji0)
+                        log.debug('failed to identify fault penetration point; assumed to be in k gap')
+                        continue
                     log.error('unexpected failure to identify fault penetration point')
                     return None, None, None, None, None
                 xyz = xyz_f
@@ -370,7 +363,11 @@ class GridSkin:
             if exclude_kji0 is None or not np.all(kji0 == exclude_kji0):
                 return xyz, kji0, axis, polarity, segment
 
-        return None, None, None, None, None
+        # none of the penetration points found so far is acceptable; continue search from the last of them
+        xyz, segment, _ = triplet_list[-1]
+        if np.all(np.isclose(xyz, trajectory.control_points[-1])):
+            return None, None, None, None, None
+        return self.find_first_intersection_of_trajectory(trajectory, start = segment, start_xyz = xyz, nudge = 0.1)
 
     def _make_k_gap_surfaces(self, quad_triangles = True):
         """Returns a list of newly created surfaces representing top and base of each k gap."""
-- 
2.43.0


From 591c304f78c843ee1dcc2cab1bfb856e3e645507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 100/231] fix: well blocking, where a well leaves one part of a
 grid through a fault face and enters another part later

---
 resqpy/grid_surface/_blocked_well_populate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 8d5031c..c42812b 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -421,7 +421,7 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
                                                                                             start = segment,
                                                                                             start_xyz = xyz,
                                                                                             nudge = -0.1)
-    if xyz_f is not None:
+    if xyz_f is not None and vec.isclose(xyz, xyz_f, tolerance = 0.1):  # otherwise other parts of skin might be met first
         # back out cell info from triangle index; note 'column_from...' is actually x_section cell face
         k0, j_or_i0 = x_sect_surf.column_from_triangle_index(tri_index_f)
         kji0[0] = k0
-- 
2.43.0


From 376b53adef2c8351bce72d9f8271f2b525545c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 101/231] fix: well specification followed by units, as written
 for each well of a file

---
 resqpy/olio/wellspec_keywords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..0e422ef 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -469,7 +469,8 @@ def get_well_data(
     while True:
         kf.skip_comments(file)
         if (kf.specific_keyword_next(file, "WELLSPEC") or kf.specific_keyword_next(file, "WELLMOD") or
-                kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE")):
+                kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE") or
+                kf.specific_keyword_next(file, "METRIC") or kf.specific_keyword_next(file, "ENGLISH")):
             break
         line = kf.strip_trailing_comment(file.readline())
         words = line.split()
-- 
2.43.0


From c8594dd8500ba931c80d245ea951f1cd7497a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 102/231] fix: date of a well specification before the first
 TIME, where another well has a later one

---
 resqpy/olio/wellspec_keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 0e422ef..2bd6a2d 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -400,11 +400,12 @@ def get_well_pointers(
             date = date_obj.isoformat()
             time_pointers[file.tell()] = date
 
-    current_date = None  # Before first TIME
+    initial_date = None  # Before first TIME
     if no_date_replacement is not None:
-        current_date = no_date_replacement.isoformat()
+        initial_date = no_date_replacement.isoformat()
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
-- 
2.43.0


From 13d2ffba6c2aa2bc75cabe7000eb65e5c4f9845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 103/231] fix: blocked well from a well specification with
 angles, without use of face centres

---
 resqpy/well/_blocked_well.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..67c555f 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -907,16 +907,18 @@ class BlockedWell(BaseResqpy):
             # fabricate entry and exit axes and polarities based on indices alone
             # note: could use geometry but here a cheap rough-and-ready approach is used
             log.debug('row ' + str(i) + ': using cell moves')
+            use_face_centres = True  # no vector available
             entry_axis, entry_polarity, exit_axis, exit_polarity = BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_indices(
                 df = df, i = i, cell_kji0 = cell_kji0, blocked_cells_kji0 = blocked_cells_kji0)
 
-        entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points_if_necessary(
-            use_face_centres = use_face_centres,
-            entry_axis = entry_axis,
-            exit_axis = exit_axis,
-            entry_polarity = entry_polarity,
-            exit_polarity = exit_polarity,
-            cp = cp)
+        if use_face_centres:
+            entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points_if_necessary(
+                use_face_centres = use_face_centres,
+                entry_axis = entry_axis,
+                exit_axis = exit_axis,
+                entry_polarity = entry_polarity,
+                exit_polarity = exit_polarity,
+                cp = cp)
 
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
-- 
2.43.0


From 7d412a0de5c95117c6c6bff1b20f317a721c5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 104/231] fix: rows of a well specification for another grid,
 following the first

---
 resqpy/well/_blocked_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 67c555f..156218b 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -893,7 +893,7 @@ class BlockedWell(BaseResqpy):
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
-                skip_row = True
+            skip_row = True
         return skipped_warning_grid, skip_row
 
     @staticmethod
-- 
2.43.0


From 8f9350f9d3d1ec9ef0e780e86852e8ea2f09f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 105/231] fix: composite triangles and points of a surface
 which is set again

---
 resqpy/surface/_surface.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..a93f20d 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -428,6 +428,7 @@ class Surface(rqsb.BaseSurface):
             log.debug(f'trimmed surface {self.title} has {self.triangle_count()} triangles')
         else:
             log.warning('surface does not intersect trimming volume')
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_to_split_surface(self, large_surface, line, delta_xyz):
@@ -550,16 +551,16 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_from_triangles_and_points(triangles, points)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
-        self.triangles = triangles.copy()
-        self.points = points.copy()
+        self.triangles = tri_patch.triangles.copy()
+        self.points = tri_patch.points.copy()
 
     def set_multi_patch_from_triangles_and_points(self, triangles_and_points_list):
         """Populate this (empty) Surface object from a list of paits: array of triangle corner indices, array of points."""
 
         self.patch_list = []
-        self.trianges = None
-        self.points = None
+        self.decache_triangles_and_points()
         for patch, entry in enumerate(triangles_and_points_list):
             assert len(entry) == 2, 'expecting pair of arrays (triangles, points) for each patch'
             triangles, points = entry
@@ -764,6 +765,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_from_irregular_mesh(mesh_xyz, quad_triangles = quad_triangles)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_from_sparse_mesh(self, mesh_xyz):
@@ -778,6 +780,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_from_sparse_mesh(mesh_xyz)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_from_mesh_object(self, mesh, quad_triangles = False):
@@ -809,6 +812,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_from_torn_mesh(mesh_xyz, quad_triangles = quad_triangles)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def column_from_triangle_index(self, triangle_index):
@@ -841,6 +845,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_to_cell_faces_from_corner_points(cp, quad_triangles = quad_triangles)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_to_multi_cell_faces_from_corner_points(self, cp, quad_triangles = True):
@@ -857,6 +862,7 @@ class Surface(rqsb.BaseSurface):
             tri_patch.set_to_cell_faces_from_corner_points(cell_cp, quad_triangles = quad_triangles)
             self.patch_list.append(tri_patch)
             p_index += 1
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def cell_axis_and_polarity_from_triangle_index(self, triangle_index):
@@ -896,6 +902,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_to_horizontal_plane(depth, box_xyz, border = border, quad_triangles = quad_triangles)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_to_triangle(self, corners):
@@ -904,6 +911,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_to_triangle(corners)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_to_triangle_pair(self, corners):
@@ -916,6 +924,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_to_triangle_pair(corners.reshape((4, 3)))
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_to_sail(self, n, centre, radius, azimuth, delta_theta):
@@ -924,6 +933,7 @@ class Surface(rqsb.BaseSurface):
         tri_patch = rqstp.TriangulatedPatch(self.model, patch_index = 0, crs_uuid = self.crs_uuid)
         tri_patch.set_to_sail(n, centre, radius, azimuth, delta_theta)
         self.patch_list = [tri_patch]
+        self.decache_triangles_and_points()
         self.uuid = bu.new_uuid()
 
     def set_from_mesh_file(self, filename, format, quad_triangles = False):
-- 
2.43.0


From 3dbebcc3adcabe6162d53c724ff9ad2271cd1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 106/231] fix: face of a cell for a triangle index of a patch

---
 resqpy/surface/_triangulated_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_triangulated_patch.py b/resqpy/surface/_triangulated_patch.py
index 9600ff9..ad2b92f 100644
--- a/resqpy/surface/_triangulated_patch.py
+++ b/resqpy/surface/_triangulated_patch.py
@@ -542,11 +542,11 @@ class TriangulatedPatch:
         """For patch freshly built for cell faces, returns (axis, polarity) for given triangle index."""
 
         if self.quad_triangles:
-            assert self.node_count == 30 and self.triangle_count == 24
+            assert self.node_count == 14 and self.triangle_count == 24
             assert 0 <= triangle_index < 24
             face = triangle_index // 4
         else:
-            assert self.node_count == 24 and self.triangle_count == 12
+            assert self.node_count == 8 and self.triangle_count == 12
             assert 0 <= triangle_index < 12
             face = triangle_index // 2
         axis, polarity = divmod(face, 2)
-- 
2.43.0


From 3977906d92d46684f49627bfbd13160e9c90bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 107/231] fix: segment of second intersection of a trajectory
 with a surface, where there is none

---
 resqpy/grid_surface/_trajectory_intersects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 1dc1ca0..9748c3a 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -218,7 +218,7 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
         knot = None
 
     if return_second:
-        return xyz, knot, tri, xyz_2, knot, tri_2
+        return xyz, knot, tri, xyz_2, (None if tri_2 is None else knot), tri_2
     return xyz, knot, tri
 
 
-- 
2.43.0


From f7746f35dba677d51d6a92771f60c658eac7da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 108/231] fix: first intersection of a trajectory with a layer
 interface of a regular grid, or with none

---
 resqpy/grid_surface/_trajectory_intersects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 9748c3a..7c58c84 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -268,7 +268,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
 
     # log.debug('generating surface for layer: ' + str(k0) + ' ' + ref_k_faces)
     if is_regular:
-        interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
+        interface_depth = grid.block_origin[2] + grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
         surface = rqs.Surface(grid.model)
         surface.set_to_horizontal_plane(interface_depth, grid.xyz_box(local = True))
     elif grid.has_split_coordinate_lines and not heal_faults:
@@ -288,9 +288,11 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     col_list = []
     for traj in trajectory_list:
         xyz, knot, tri = find_first_intersection_of_trajectory_with_surface(traj, surface, start = start)
-        if is_regular:
-            col_j = int(xyz[1] / grid.block_dxyz_dkji[1, 1])
-            col_i = int(xyz[1] / grid.block_dxyz_dkji[2, 0])
+        if xyz is None:
+            col = (None, None)
+        elif is_regular:
+            col_j = int((xyz[1] - grid.block_origin[1]) / grid.block_dxyz_dkji[1, 1])
+            col_i = int((xyz[0] - grid.block_origin[0]) / grid.block_dxyz_dkji[2, 0])
             assert 0 <= col_i < grid.ni and 0 <= col_j < grid.nj
             col = (col_j, col_i)
         else:
-- 
2.43.0


From 746e01702db6b4f8b9b01fd8e113e19bde44fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 109/231] fix: point set from a text file holding a single
 point

---
 resqpy/surface/_pointset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index e53bad1..e0aa9de 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -145,7 +145,7 @@ class PointSet(rqsb.BaseSurface):
             charisma_file: a charisma 3d interpretation file
         """
         with open(charisma_file, 'r') as surf:
-            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8')
+            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8', ndmin = 2)
         self.add_patch(cpoints)
         assert self.crs_uuid is not None, 'crs uuid missing when establishing point set from charisma file'
         if not self.title:
@@ -160,7 +160,7 @@ class PointSet(rqsb.BaseSurface):
                 it is excluded
         """
         with open(irap_file, 'r') as points:
-            cpoints = np.loadtxt(points, encoding = 'uft-8')
+            cpoints = np.loadtxt(points, encoding = 'uft-8', ndmin = 2)
         assert len(cpoints), f'no points loaded from irap file: {irap_file}'
         assert cpoints.ndim == 2 and cpoints.shape[1] == 3
         if remove_trailing_999 and np.all(np.isclose(cpoints[-1], 999.0)):
-- 
2.43.0


From a8205336244880496b2e045ab6b25a7c005794f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 110/231] fix: patches of a surface when triangles are made
 clockwise

---
 resqpy/surface/_surface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index a93f20d..3ac3d0b 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -722,6 +722,12 @@ class Surface(rqsb.BaseSurface):
         else:
             p_xy = p
         triangulate.make_all_clockwise_xy(self.triangles, p_xy)  # modifies t in situ
+        # keep the individual patches consistent with the composite triangles
+        p_offset = 0
+        for patch in self.patch_list:
+            pt, pp = patch.triangles_and_points()
+            triangulate.make_all_clockwise_xy(pt, p_xy[p_offset:p_offset + len(pp)])  # modifies patch triangles in situ
+            p_offset += len(pp)
         # assert np.all(vec.clockwise_triangles(p_xy, self.triangles) >= 0.0)
 
     def unit_adjusted_points(self):
-- 
2.43.0


From 87d89c46528eab2c6f5f51f6c885ad07d2120c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 111/231] fix: vertical rescaling of a surface loaded from an
 existing part

---
 resqpy/surface/_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 3ac3d0b..e7f6581 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -1008,7 +1008,8 @@ class Surface(rqsb.BaseSurface):
             return
         if ref_depth is None:
             for patch in self.patch_list:
-                patch_min = np.min(patch.points[:, 2])
+                _, patch_points = patch.triangles_and_points()
+                patch_min = np.min(patch_points[:, 2])
                 if ref_depth is None or patch_min < ref_depth:
                     ref_depth = patch_min
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
-- 
2.43.0


From 9fd41b4a726e27dfed2cab2bb1b23df952e8c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 112/231] fix: default null value of a map derived from a
 discrete connection set property

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..653c9dc 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -286,7 +286,7 @@ def grid_columns_property_from_gcs_property(model,
             multiple_handling = 'mean'
     else:
         dtype = int
-        if null_value == np.nan:
+        if null_value is None or np.isnan(null_value):
             null_value = -1
         elif type(null_value) is float:
             null_value = int(null_value)
-- 
2.43.0


From cfa52ed392eb07060858693ff6cce7e1fc763ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 113/231] fix: column edge values of a feature without faces in
 the reference layer

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..5afbb8d 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1756,9 +1756,9 @@ class GridConnectionSet(BaseResqpy):
                                                                            max_k0 = ref_k,
                                                                            pare_down = False,
                                                                            return_indices = True)
-            assert layer_gcs.count == len(layer_indices)
-            if layer_gcs.count == 0:  # feature does not have any faces in reference layer
+            if layer_gcs is None or layer_gcs.count == 0:  # feature does not have any faces in reference layer
                 return None
+            assert layer_gcs.count == len(layer_indices)
             layer_prop_array = feature_prop_array[layer_indices]
             # fill in individual values rather laboriously
             property_value_by_column_edge = np.full(fault_by_column_edge_mask.shape, np.nan)
-- 
2.43.0


From ea4f3f9104a6be9bf23a1645e63cb2da0ee222c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 114/231] fix: baffle flags in grid face arrays

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 5afbb8d..dfa3e61 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2239,7 +2239,7 @@ class GridConnectionSet(BaseResqpy):
 
         baffle_mask = None
         if baffle_uuid is not None:
-            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref()
+            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref(dtype = bool)
             assert baffle_mask is not None
 
         # note that following arrays include external faces, in line with grid properties for 'faces'
-- 
2.43.0


From ea9597e98288ae415fb0aa9ecd007bb7e0d0bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 115/231] fix: inheritance of features which are shared, or
 where not all faces inherit

---
 resqpy/fault/_grid_connection_set.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index dfa3e61..eb51c5f 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1966,6 +1966,7 @@ class GridConnectionSet(BaseResqpy):
         assert tuple(self.grid_list[0].extent_kji) == tuple(featured.grid_list[0].extent_kji)
 
         # build combined feature list and mapping of feature indices
+        self.cache_arrays()
         featured.cache_arrays()
         original_feature_count = len(self.feature_list)
         featured_index_map = []  # maps from feature index in featured to extended feature list in this set
@@ -1973,7 +1974,7 @@ class GridConnectionSet(BaseResqpy):
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
@@ -1991,14 +1992,16 @@ class GridConnectionSet(BaseResqpy):
         cfp_b_featured = sorted_paired_cell_face_index_position(cell_face_index_featured, 1)
 
         # for each cell face in self, look for same in featured and inherit feature index if found
+        updated = np.zeros(self.count, dtype = bool)
         previous_cell_face_index = previous_feature_index = None
         for (a_or_b, cfp_self) in [(0, cfp_a_self), (1, cfp_b_self)]:  # could risk being lazy and only using one side?
             for (cell_face_index, place) in cfp_self:
-                if self.feature_indices[place] >= original_feature_count:
+                if updated[place]:
                     continue  # already been updated
                 if cell_face_index == previous_cell_face_index:
                     if previous_feature_index is not None:
                         self.feature_indices[place] = previous_feature_index
+                        updated[place] = True
                 elif cell_face_index == self.face_index_pairs_null_value:
                     continue
                 else:
@@ -2010,19 +2013,18 @@ class GridConnectionSet(BaseResqpy):
                     else:
                         featured_index = featured.feature_indices[featured_place]
                         self.feature_indices[place] = previous_feature_index = featured_index_map[featured_index]
+                        updated[place] = True
                     previous_cell_face_index = cell_face_index
 
         # clean up by removing any original features no longer in use
-        removals = []
+        keep = np.ones(len(self.feature_list), dtype = bool)
         for fi in range(original_feature_count):
             if fi not in self.feature_indices:
-                removals.append(fi)
-        reduction = len(removals)
-        if reduction > 0:
-            while len(removals) > 0:
-                self.feature_list.pop(removals[-1])
-                removals.pop()
-            self.feature_indices[:] -= reduction
+                keep[fi] = False
+        if not np.all(keep):
+            index_map = np.cumsum(keep) - 1
+            self.feature_list = [triplet for triplet, k in zip(self.feature_list, keep) if k]
+            self.feature_indices[:] = index_map[self.feature_indices]
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
-- 
2.43.0


From ddd5a2cfe86d0d986ee7ecc99b173e0126f0893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 116/231] fix: appending to, and filtering of, a connection set
 whose arrays have not been loaded

---
 resqpy/fault/_grid_connection_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index eb51c5f..f6dbc47 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -763,6 +763,8 @@ class GridConnectionSet(BaseResqpy):
             use the higher level class method from_gcs_uuid_list() instead if property merging is required
         """
         other.cache_arrays()
+        if self.count:
+            self.cache_arrays()
         assert len(self.grid_list) == 1 and len(other.grid_list) == 1, 'attempt to merge multi-grid connection sets'
         assert bu.matching_uuids(self.grid_list[0].uuid, other.grid_list[0].uuid),  \
               'attempt to merge grid connection sets from different grids'
@@ -886,6 +888,7 @@ class GridConnectionSet(BaseResqpy):
            select equivalent entries from associated properties
         """
 
+        self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by cell mask'
         grid = self.grid_list[0]
         flat_extent = grid.cell_count()
-- 
2.43.0


From bcbdbe39685e7640e52f3d36cab669a00a7c68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 117/231] fix: connection set filtered by layer range with only
 one limit

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index f6dbc47..5d04ea2 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -848,9 +848,9 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by layer range'
         grid = self.grid_list[0]
-        if min_k0 <= 0:
+        if min_k0 is not None and min_k0 <= 0:
             min_k0 = None
-        if max_k0 >= grid.extent_kji[0] - 1:
+        if max_k0 is not None and max_k0 >= grid.extent_kji[0] - 1:
             max_k0 = None
         if min_k0 is None and max_k0 is None:
             dupe = GridConnectionSet(self.model, grid = grid)
-- 
2.43.0


From 2b676f965419bfbb0ae197fa23ccda68a4c5928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 118/231] fix: pinchout connection below a single layer between
 pinchouts

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 653c9dc..7b9f4e5 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -64,7 +64,7 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                     continue
                 # kb now beneath pinchout
                 cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
-                ka = kb + 1
+                ka = kb
 
     log.debug(f'{len(cip_list)} pinchout connections found')
 
-- 
2.43.0


From 1ebdca29e79f12625c0f211eada43c7453c2311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 119/231] fix: connection set from a faces dataframe with lower
 case faces, another index, or existing faults

---
 resqpy/fault/_gcs_functions.py       | 4 ++--
 resqpy/fault/_grid_connection_set.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 7b9f4e5..ea5572f 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -490,7 +490,7 @@ def standardize_face_indicator_in_faces_df(faces):
 
     # todo: convert XYZ into IJK respectively?
     temp = faces['face'].copy().str.upper()
-    temp[faces['face'].str.len() == 1] = faces['face'][faces['face'].str.len() == 1] + '+'
+    temp[faces['face'].str.len() == 1] = temp[faces['face'].str.len() == 1] + '+'
     for u in temp.unique():
         s = str(u)
         assert len(s) == 2, 'incorrect length to face string in fault dataframe: ' + s
@@ -519,7 +519,7 @@ def remove_external_faces_from_faces_df(faces, extent_kji, remove_all_k_faces =
         if remove_all_k_faces and f[0] == 'K':
             continue
         filtered.append(i)
-    return faces.loc[filtered]
+    return faces.iloc[filtered]
 
 
 def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 5d04ea2..9d87a50 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2088,11 +2088,11 @@ class GridConnectionSet(BaseResqpy):
             if name.lower() in fault_tmult_dict:
                 fault_dict_multiplier = float(fault_tmult_dict[name.lower()])
         # fetch uuid for fault interpretation object
+        fi_root = None
         if name.lower() in fi_dict:
             fi_uuid = fi_dict[name.lower()]
         elif create_organizing_objects_where_needed:
             tbf = None
-            fi_root = None
             for tbf_part in tbf_parts_list:
                 if name.lower() == self.model.title_for_part(tbf_part).split()[0].lower():
                     tbf = rqo.TectonicBoundaryFeature(self.model, uuid = self.model.uuid_for_part(tbf_part))
-- 
2.43.0


From 75f711d96c270fa4f92541e7b5dd79edf899af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 120/231] fix: objects needed by properties of connection sets
 merged into another model

---
 resqpy/fault/_grid_connection_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 9d87a50..2c79fc9 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -384,6 +384,10 @@ class GridConnectionSet(BaseResqpy):
                 sl_uuid = prop_zero.string_lookup_uuid()
                 shape = (gcs.count, 3) if points else (gcs.count,)
                 dtype = float if continuous else int
+                if source_model is not parent_model:
+                    for other_uuid in (prop_zero.local_property_kind_uuid(), ts_uuid, sl_uuid):
+                        if other_uuid is not None:
+                            parent_model.copy_uuid_from_other_model(source_model, other_uuid)
                 gcs_a = np.zeros(shape, dtype = dtype)
                 a = prop_zero.array_ref()
                 assert a is not None and a.ndim == len(shape) and a.size <= gcs_a.size
-- 
2.43.0


From e1e06134c09f95434f23400e72ff692a5321d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 121/231] fix: feature list cleaned for a connection set whose
 arrays have not been loaded

---
 resqpy/fault/_grid_connection_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 2c79fc9..703b423 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -920,6 +920,8 @@ class GridConnectionSet(BaseResqpy):
     def clean_feature_list(self):
         """Removes any features that have no associated connections."""
 
+        if self.count and self.feature_list is not None:
+            self.cache_arrays()
         keep_list = np.unique(self.feature_indices)
         if len(keep_list) == len(self.feature_list):
             return
-- 
2.43.0


From 858e438ff2ebb487b02a892b75f574ec687e648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 122/231] fix: transmissibility multipliers in simulator text
 for connection sets

---
 resqpy/fault/_grid_connection_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 703b423..2f526fb 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1593,9 +1593,10 @@ class GridConnectionSet(BaseResqpy):
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
+                        tmult_p = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_p != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1606,6 +1607,7 @@ class GridConnectionSet(BaseResqpy):
                             k = k2 = kp
                             axis = axis_p
                             polarity = polarity_p
+                            tmult = tmult_p
                     if k is not None:
                         write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
 
-- 
2.43.0


From a72ea2d2b5b2e6bfa607fc91819de24c40ce8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 123/231] fix: fractional areas of juxtaposed faces where
 thickness varies along the fault

---
 resqpy/olio/transmission.py | 440 ++----------------------------------
 1 file changed, 19 insertions(+), 421 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 2664c2a..8bb9e3b 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -505,8 +505,7 @@ def fault_connection_set(grid, skip_inactive = False):
     notes:
        the current algorithm is designed for faults where slip has occurred along pillars – sideways slip (strike-slip)
        will currently cause erroneous results; inaccuracies may also arise as pillars become less straight, less
-       co-planar or less parallel; the combination of non-parallel pillars and layers of non-uniform thickness can
-       produce inaccuracies in some situations; if the grid does not have split pillars (ie. is unfaulted), or if
+       co-planar or less parallel; if the grid does not have split pillars (ie. is unfaulted), or if
        there are no qualifying connections across faults, then (None, None) will be returned;
        as fractional areas are returned, the results are applicable whether xy & z units are the same or differ
     """
@@ -519,32 +518,6 @@ def fault_connection_set(grid, skip_inactive = False):
         # return list of juxtaposed layer pairs and fractional areas: list of (ka, kb, fa, fb) and error info
         # TODO: orthogonal offset tolerance on pillars
 
-        def pillar_flavour(pml_top, pml_bot, ppl_top, ppl_bot, tol = 0.001):
-            # return flavour of points pattern on one pillar:
-            # 1: both p above m top
-            # 2: p top above m top, p bot within m
-            # 3: p top above m top, p bot below m bot
-            # 4: both p within m
-            # 5: p top within m, p bot below m bot
-            # 6: both p below m
-            if ppl_top >= pml_top - tol and ppl_bot <= pml_bot + tol:
-                return 4  # tolerance bias towards simplest flavour
-            if ppl_bot <= pml_top + tol:
-                return 1
-            if ppl_top >= pml_bot - tol:
-                return 6
-            if ppl_top <= pml_top + tol:
-                if ppl_bot <= pml_bot + tol:
-                    return 2
-                return 3
-            return 5
-
-        def basic_fr(g, h, ea, eb, tol):
-            # returns fractional area for simple patterns (2 sides of overlap quadrilateral lie on pillars)
-            if ea + eb < tol:
-                return 0.0
-            return (g + h) / (ea + eb)
-
         def fractional_area(paml_top,
                             paml_bot,
                             papl_top,
@@ -555,399 +528,24 @@ def fault_connection_set(grid, skip_inactive = False):
                             pbpl_bot,
                             tol = 0.001):
             # calculate fractional area of overlap, from m perspective (calling code swaps m & p for other perspective)
-            fla = pillar_flavour(paml_top, paml_bot, papl_top, papl_bot, tol = tol)
-            flb = pillar_flavour(pbml_top, pbml_bot, pbpl_top, pbpl_bot, tol = tol)
-            if (fla, flb) == (4, 4):  # diagram 1
-                return basic_fr(papl_bot - papl_top, pbpl_bot - pbpl_top, paml_bot - paml_top, pbml_bot - pbml_top, tol)
-            elif (fla, flb) == (3, 3):  # diagram 1 (reverse perspective); diagram 3
-                return 1.0
-            elif (fla, flb) == (5, 5):  # diagram 2
-                return basic_fr(paml_bot - papl_top, pbml_bot - pbpl_top, paml_bot - paml_top, pbml_bot - pbml_top, tol)
-            elif (fla, flb) == (2, 2):  # diagram 2 (reverse perspective)
-                return basic_fr(papl_bot - paml_top, pbpl_bot - pbml_top, paml_bot - paml_top, pbml_bot - pbml_top, tol)
-            elif (fla, flb) == (5, 4):  # diagram 5 (diagram 4 is a special case of 5 and 2)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbml_bot - pbpl_bot
-                if eb < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = papl_bot - paml_bot
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return basic_fr(paml_bot - papl_top, pbml_bot - pbpl_top, paml_bot - paml_top, pbml_bot - pbml_top,
-                                tol) - sub
-            elif (fla, flb) == (4, 5):  # diagram 5 mirror (diagram 4 is a special case of 5)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = paml_bot - papl_bot
-                if ea < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = pbpl_bot - pbml_bot
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return basic_fr(pbml_bot - pbpl_top, paml_bot - papl_top, pbml_bot - pbml_top, paml_bot - paml_top,
-                                tol) - sub
-            elif (fla, flb) == (2, 3):  # diagram 5 (reverse perspective), similar to 1.0 - diagram 10
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = paml_bot - papl_bot
-                if ea < tol or g < tol:
-                    return 1.0
-                v = pbpl_bot - pbml_bot
-                return 1.0 - (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (3, 2):  # diagram 5 mirror (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbml_bot - pbpl_bot
-                if eb < tol or g < tol:
-                    return 1.0
-                v = papl_bot - paml_bot
-                return 1.0 - (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (5, 2):  # diagram 6
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_top - paml_top
-                if ea < tol or g < tol:
-                    suba = 0.0
-                else:
-                    v = pbml_top - pbpl_top
-                    suba = (g / (ea + eb)) * (1.0 - v / (v + g))
-                g = pbml_bot - pbpl_bot
-                if eb < tol or g < tol:
-                    subb = 0.0
-                else:
-                    v = papl_bot - paml_bot
-                    subb = (g / (ea + eb)) * (1.0 - v / (v + g))
-                sub = suba + subb
-                return 1.0 - sub
-            elif (fla, flb) == (2, 5):  # diagram 6 mirror
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbpl_top - pbml_top
-                if eb < tol or g < tol:
-                    subb = 0.0
-                else:
-                    v = paml_top - papl_top
-                    subb = (g / (ea + eb)) * (1.0 - v / (v + g))
-                g = paml_bot - papl_bot
-                if ea < tol or g < tol:
-                    suba = 0.0
-                else:
-                    v = pbpl_bot - pbml_bot
-                    suba = (g / (ea + eb)) * (1.0 - v / (v + g))
-                sub = suba + subb
-                return 1.0 - sub
-            elif (fla, flb) == (2, 1):  # diagram 10
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_bot - paml_top
-                if ea < tol or g < tol:
-                    return 0.0
-                v = pbml_top - pbpl_bot
-                return (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (1, 2):  # diagram 10 mirror
-                eb = pbml_bot - pbml_top
-                ea = paml_bot - paml_top
-                g = pbpl_bot - pbml_top
-                if eb < tol or g < tol:
-                    return 0.0
-                v = paml_top - papl_bot
-                return (g / (eb + ea)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (5, 6):  # diagram 10 (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = paml_bot - papl_top
-                if ea < tol or g < tol:
-                    return 0.0
-                v = pbpl_top - pbml_bot
-                return (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (6, 5):  # diagram 10 mirror (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbml_bot - pbpl_top
-                if eb < tol or g < tol:
-                    return 0.0
-                v = papl_top - paml_bot
-                return (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (2, 4):  # diagram 11
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbpl_top - pbml_top
-                if eb < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = paml_top - papl_top
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return basic_fr(papl_bot - paml_top, pbpl_bot - pbml_top, paml_bot - paml_top, pbml_bot - pbml_top,
-                                tol) - sub
-            elif (fla, flb) == (4, 2):  # diagram 11 mirror
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_top - paml_top
-                if ea < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = pbml_top - pbpl_top
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return basic_fr(pbpl_bot - pbml_top, papl_bot - paml_top, pbml_bot - pbml_top, paml_bot - paml_top,
-                                tol) - sub
-            elif (fla, flb) == (5, 3):  # diagram 11 (reverse perspective) similar to 1.0 - diagram 10
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_top - paml_top
-                if ea < tol or g < tol:
-                    return 1.0
-                v = pbml_top - pbpl_top
-                return 1.0 - (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (3, 5):  # diagram 11 mirror (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbpl_top - pbml_top
-                if eb < tol or g < tol:
-                    return 1.0
-                v = paml_top - papl_top
-                return 1.0 - (g / (ea + eb)) * (1.0 - v / (v + g))
-            elif (fla, flb) == (3, 1):  # diagram 7 (only accurate if pillars parallel and layer constant thickness?)
-                s = papl_bot - paml_bot
-                ea = paml_bot - paml_top
-                if s + ea <= tol:
-                    return 0.0
-                t = pbml_bot - pbpl_bot
-                v = pbml_top - pbpl_bot
-                if t + v <= tol:
-                    return 1.0
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + ea + s))
-            elif (fla, flb) == (1, 3):  # diagram 7 mirror
-                # (only accurate if pillars parallel and layer constant thickness?)
-                s = pbpl_bot - pbml_bot
-                eb = pbml_bot - pbml_top
-                if s + eb <= tol:
-                    return 0.0
-                t = paml_bot - papl_bot
-                v = paml_top - papl_bot
-                if t + v <= tol:
-                    return 1.0
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + eb + s))
-            elif (fla, flb) == (4, 6):  # diagram 7 (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = paml_bot - papl_top
-                if ea < tol or g < tol:
-                    return 0.0
-                v = pbpl_top - pbml_bot
-                gs = paml_bot - papl_bot
-                if gs < tol:
-                    sub = 0.0
-                else:
-                    vs = pbpl_bot - pbml_bot
-                    sub = (gs / (ea + eb)) * (1.0 - vs / (vs + gs))
-                return (g / (ea + eb)) * (1.0 - v / (v + g)) - sub
-            elif (fla, flb) == (6, 4):  # diagram 7 mirror (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbml_bot - pbpl_top
-                if eb < tol or g < tol:
-                    return 0.0
-                v = papl_top - paml_bot
-                gs = pbml_bot - pbpl_bot
-                if gs < tol:
-                    sub = 0.0
-                else:
-                    vs = papl_bot - paml_bot
-                    sub = (gs / (ea + eb)) * (1.0 - vs / (vs + gs))
-                return (g / (ea + eb)) * (1.0 - v / (v + g)) - sub
-            elif (fla, flb) == (4, 1):  # diagram 12
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_bot - paml_top
-                if ea < tol or g < tol:
-                    return 0.0
-                gs = papl_top - paml_top
-                if gs < tol:
-                    sub = 0.0
-                else:
-                    v = pbml_top - pbpl_top
-                    sub = (gs / (ea + eb)) * (1.0 - v / (v + gs))
-                v = pbml_top - pbpl_bot
-                return (g / (ea + eb)) * (1.0 - v / (v + g)) - sub
-            elif (fla, flb) == (1, 4):  # diagram 12 mirror
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbpl_bot - pbml_top
-                if eb < tol or g < tol:
-                    return 0.0
-                gs = pbpl_top - pbml_top
-                if gs < tol:
-                    sub = 0.0
-                else:
-                    v = paml_top - papl_top
-                    sub = (gs / (ea + eb)) * (1.0 - v / (v + gs))
-                v = paml_top - papl_bot
-                return (g / (ea + eb)) * (1.0 - v / (v + g)) - sub
-            elif (fla, flb) == (3, 6):  # diagram 12 (reverse perspective)
-                s = pbpl_top - pbml_bot
-                eb = pbml_bot - pbml_top
-                if s + eb <= tol:
-                    return 1.0
-                t = paml_bot - papl_top
-                v = paml_top - papl_top
-                if t + v <= tol:
-                    return 0.0
-                return 1.0 - (0.5 * (s / (s + t) + 1.0 - v / (v + eb + s)))
-            elif (fla, flb) == (6, 3):  # diagram 12 mirror (reverse perspective)
-                s = papl_top - paml_bot
-                ea = paml_bot - paml_top
-                if s + ea <= tol:
-                    return 1.0
-                t = pbml_bot - pbpl_top
-                v = pbml_top - pbpl_top
-                if t + v <= tol:
-                    return 0.0
-                return 1.0 - (0.5 * (s / (s + t) + 1.0 - v / (v + ea + s)))
-            elif (fla, flb) == (5, 1):  # diagram 9 (only accurate if pillars parallel and layer constant thickness?)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = papl_top - paml_top
-                if ea < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = pbml_top - pbpl_top
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                s = papl_bot - paml_bot
-                if s + ea <= tol:
-                    return 0.0
-                t = pbml_bot - pbpl_bot
-                v = pbml_top - pbpl_bot
-                if t + v <= tol:
-                    return 1.0 - sub
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + ea + s)) - sub
-            elif (fla, flb) == (1, 5):  # diagram 9 mirror
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbpl_top - pbml_top
-                if eb < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = paml_top - papl_top
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                s = pbpl_bot - pbml_bot
-                if s + eb <= tol:
-                    return 0.0
-                t = paml_bot - papl_bot
-                v = paml_top - papl_bot
-                if t + v <= tol:
-                    return 1.0 - sub
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + eb + s)) - sub
-            elif (fla, flb) == (2, 6):  # diagram 9 (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = paml_bot - papl_bot
-                if ea < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = pbpl_bot - pbml_bot
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                s = paml_top - papl_top
-                if s + ea <= tol:
-                    return 0.0
-                t = pbpl_top - pbml_top
-                v = pbpl_top - pbml_bot
-                if t + v <= tol:
-                    return 1.0 - sub
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + ea + s)) - sub
-            elif (fla, flb) == (6, 2):  # diagram 9 mirror (reverse perspective)
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                g = pbml_bot - pbpl_bot
-                if eb < tol or g < tol:
-                    sub = 0.0
-                else:
-                    v = papl_bot - paml_bot
-                    sub = (g / (ea + eb)) * (1.0 - v / (v + g))
-                s = pbml_top - pbpl_top
-                if s + eb <= tol:
-                    return 0.0
-                t = papl_top - paml_top
-                v = papl_top - paml_bot
-                if t + v <= tol:
-                    return 1.0 - sub
-                return 0.5 * (s / (s + t) + 1.0 - v / (v + eb + s)) - sub
-            elif (fla, flb) == (6, 1):  # diagram 8; solution only accurate if pillars are parallel
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                s = papl_top - paml_bot
-                if s + ea <= tol:
-                    suba = 0.0
-                else:
-                    t = pbml_bot - pbpl_top
-                    v = pbml_top - pbpl_top
-                    suba = 0.5 * (s / (s + t) + 1.0 - v / (v + ea + s)) if t + v > tol else 1.0
-                s = pbml_top - pbpl_bot
-                if s + eb <= tol:
-                    subb = 0.0
-                else:
-                    t = papl_bot - paml_top
-                    v = papl_bot - paml_bot
-                    subb = 0.5 * (s / (s + t) + 1.0 - v / (v + eb + s)) if t + v > tol else 1.0
-                sub = suba + subb
-                return max(1.0 - sub, 0.0)
-            elif (fla, flb) == (1, 6):  # diagram 8 mirror or reverse perspective
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                s = pbpl_top - pbml_bot
-                if s + eb <= tol:
-                    subb = 0.0
-                else:
-                    t = paml_bot - papl_top
-                    v = paml_top - papl_top
-                    subb = 0.5 * (s / (s + t) + 1.0 - v / (v + eb + s)) if t + v > tol else 1.0
-                s = paml_top - papl_bot
-                if s + ea <= tol:
-                    suba = 0.0
-                else:
-                    t = pbpl_bot - pbml_top
-                    v = pbpl_bot - pbml_bot
-                    suba = 0.5 * (s / (s + t) + 1.0 - v / (v + ea + s)) if t + v > tol else 1.0
-                sub = suba + subb
-                return max(1.0 - sub, 0.0)
-            elif (fla, flb) == (4, 3):  # diagram 13
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                if ea < tol:
-                    return 1.0
-                g = papl_top - paml_top
-                if g < tol:
-                    sub1 = 0.0
-                else:
-                    v = pbml_top - pbpl_top
-                    sub1 = (g / (ea + eb)) * (1.0 - v / (v + g))
-                g = paml_bot - papl_bot
-                if g < tol:
-                    sub2 = 0.0
-                else:
-                    v = pbpl_bot - pbml_bot
-                    sub2 = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return 1.0 - (sub1 + sub2)
-            elif (fla, flb) == (3, 4):  # diagram 13 mirror or reverse perspective
-                ea = paml_bot - paml_top
-                eb = pbml_bot - pbml_top
-                if eb < tol:
-                    return 1.0
-                g = pbpl_top - pbml_top
-                if g < tol:
-                    sub1 = 0.0
-                else:
-                    v = paml_top - papl_top
-                    sub1 = (g / (ea + eb)) * (1.0 - v / (v + g))
-                g = pbml_bot - pbpl_bot
-                if g < tol:
-                    sub2 = 0.0
-                else:
-                    v = papl_bot - paml_bot
-                    sub2 = (g / (ea + eb)) * (1.0 - v / (v + g))
-                return 1.0 - (sub1 + sub2)
-            else:
-                raise Exception(f'unexpected juxtaposition pattern ({fla}, {flb})')
+            # a and b are the two pillars; top and base of each face vary linearly between the pillars, so the height of
+            # the overlap is piecewise linear, with changes of gradient only where a pair of lines cross
+            total = (paml_bot - paml_top) + (pbml_bot - pbml_top)
+            if total < tol:
+                return 0.0
+            at_a = np.array((paml_top, papl_top, paml_bot, papl_bot))
+            at_b = np.array((pbml_top, pbpl_top, pbml_bot, pbpl_bot))
+            fractions = [0.0, 1.0]
+            for e in range(3):
+                for f in range(e + 1, 4):
+                    da = at_a[e] - at_a[f]
+                    db = at_b[e] - at_b[f]
+                    if da * db < 0.0:
+                        fractions.append(da / (da - db))
+            fractions = np.array(sorted(fractions)).reshape((-1, 1))
+            z = at_a * (1.0 - fractions) + at_b * fractions
+            heights = np.maximum(np.min(z[:, 2:], axis = 1) - np.max(z[:, :2], axis = 1), 0.0)
+            return np.sum((heights[:-1] + heights[1:]) * (fractions[1:, 0] - fractions[:-1, 0])) / total
 
         pav = 0.5 * (pv[pam] + pv[pap])  # mean pillar unit vector for -I side of J face
         pbv = 0.5 * (pv[pbm] + pv[pbp])  # mean pillar unit vector for +I side of J face
-- 
2.43.0


From e2a9995549ee72feeafd2e1fe0a851d071c1bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 124/231] fix: fault connection set where a pillar of a split
 column face has no geometry

---
 resqpy/olio/transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 8bb9e3b..38c8fd2 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -550,7 +550,7 @@ def fault_connection_set(grid, skip_inactive = False):
         pav = 0.5 * (pv[pam] + pv[pap])  # mean pillar unit vector for -I side of J face
         pbv = 0.5 * (pv[pbm] + pv[pbp])  # mean pillar unit vector for +I side of J face
         if all_nan(p[:, pam, :]) or all_nan(p[:, pap, :]) or all_nan(p[:, pbm, :]) or all_nan(p[:, pbp, :]):
-            return []
+            return [], (0, 0, 1.0, 1.0)
         o = np.nanmin(p[:, pam, :], axis = 0)  # arbitrary local origin
         oe = np.expand_dims(o, 0)
         paml = p[:, pam, :] - oe  # pillar points translated to local space
-- 
2.43.0


From d0ba64403f432890e73b753afb706c82ff9b14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 125/231] fix: half cell transmissibility of the second face of
 a connection

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 2f526fb..3fc1f00 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1907,7 +1907,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
-- 
2.43.0


From 40b927b2c91dccf64b43eb4df5e07afd028cd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 126/231] fix: faces multiplier and absolute modifier modes
 when computing transmissibilities

---
 resqpy/grid/_transmissibility.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..3e9b32c 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -74,9 +74,9 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
         if hasattr(grid, 'array_i_transmissibility') and grid.array_i_transmissibility is not None:
             i_tr = grid.array_i_transmissibility
 
-    if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
+    pc = grid.extract_property_collection()
 
-        pc = grid.extract_property_collection()
+    if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
 
         composite_tr = pc.single_array_ref(property_kind = 'transmissibility',
                                            realization = realization,
@@ -208,7 +208,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
             log.warning('no I direction faces transmissibility multiplier found when calculating transmissibilities')
         else:
             assert tr_mult.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, :, 1:-1]))
+            tr_mult = tr_mult[:, :, 1:-1]
+            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult))
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -223,7 +224,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute I face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, :, 1:-1] <= 0.0)
+            tr_abs = tr_abs[:, :, 1:-1]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     return i_tr
@@ -261,7 +263,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             log.warning('no J direction faces transmissibility multiplier found when calculating transmissibilities')
         else:
             assert tr_mult.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, 1:-1, :]))
+            tr_mult = tr_mult[:, 1:-1, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult))
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -276,7 +279,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute J face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, 1:-1, :] <= 0.0)
+            tr_abs = tr_abs[:, 1:-1, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
@@ -313,7 +317,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
                 tr_mult = tr_composite[:size].reshape((grid.nk + 1, grid.nj, grid.ni))
         if tr_mult is not None:
             assert tr_mult.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[1:-1, :, :]))
+            tr_mult = tr_mult[1:-1, :, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult))
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -342,7 +347,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute K face transmissibility modification')
             assert tr_abs.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[1:-1, :, :] <= 0.0)
+            tr_abs = tr_abs[1:-1, :, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
-- 
2.43.0


From c0333beb767731ec0c268e7fadb965f4ee59e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 127/231] fix: use of a half cell transmissibility property of
 a grid

---
 resqpy/grid/_transmissibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 3e9b32c..e570e81 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -388,15 +388,15 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
     half_t = None
 
     if use_property:
-        pc = grid.property_collection
+        pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
                                             realization = realization,
                                             continuous = True,
                                             count = 1,
                                             indexable = 'faces per cell')
-        if half_t_resqml:
+        if half_t_resqml is not None:
             assert half_t_resqml.shape == (grid.nk, grid.nj, grid.ni, 6)
-            half_t = pc.combobulate(half_t_resqml)
+            half_t = pc.combobulated_face_array(half_t_resqml)
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-- 
2.43.0


From 0ba020e8c7ab5fd46be5336d785c29ae50f3f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 128/231] fix: tolerance when computing half cell
 transmissibilities

---
 resqpy/grid/_transmissibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index e570e81..7e4a235 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -400,7 +400,7 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-        half_t = rqtr.half_cell_t(grid, realization = realization)
+        half_t = rqtr.half_cell_t(grid, realization = realization, tolerance = tolerance)
 
     if realization is None:
         grid.array_half_cell_t = half_t
-- 
2.43.0


From 48999f30c422e1eb7437c18372bd1b6062593ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 129/231] fix: faces per cell multiplier mode when computing
 transmissibilities

---
 resqpy/grid/_transmissibility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 7e4a235..3c53526 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -173,6 +173,8 @@ def __faces_per_cell_multiplier(grid, half_t, pc, realization):
         log.warning('no faces per cell transmissibility multiplier found when calculating transmissibilities')
     else:
         log.debug('applying faces per cell transmissibility multipliers')
+        assert half_t_mult.shape == (grid.nk, grid.nj, grid.ni, 6)
+        half_t_mult = pc.combobulated_face_array(half_t_mult)
         half_t = np.where(np.isnan(half_t_mult), half_t, half_t * half_t_mult)
     return half_t, pc
 
-- 
2.43.0


From 5c48255e19c98f49807f176488c10931eef78f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 130/231] fix: transmissibilities of a grid asked for again
 with other settings

---
 resqpy/grid/_points_functions.py |  2 +-
 resqpy/grid/_transmissibility.py | 57 +++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index fa64976..e06bd7f 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -106,7 +106,7 @@ def set_cached_points_from_property(grid,
     grid.geometry_defined_for_all_pillars_cached = None
     grid.geometry_defined_for_all_cells_cached = None
     for attr in ('array_unsplit_points', 'array_corner_points', 'array_centre_point', 'array_thickness', 'array_volume',
-                 'array_half_cell_t', 'array_k_transmissibility', 'array_j_transmissibility',
+                 'tr_cache_settings', 'array_half_cell_t', 'array_k_transmissibility', 'array_j_transmissibility',
                  'array_i_transmissibility', 'fgcs', 'array_fgcs_transmissibility', 'pgcs',
                  'array_pgcs_transmissibility', 'kgcs', 'array_kgcs_transmissibility'):
         if hasattr(grid, attr):
diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 3c53526..fc3b694 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -66,13 +66,12 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     k_tr = j_tr = i_tr = None
 
+    settings = (tolerance, bool(use_tr_properties), modifier_mode)
+
     if realization is None:
-        if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
-            k_tr = grid.array_k_transmissibility
-        if hasattr(grid, 'array_j_transmissibility') and grid.array_j_transmissibility is not None:
-            j_tr = grid.array_j_transmissibility
-        if hasattr(grid, 'array_i_transmissibility') and grid.array_i_transmissibility is not None:
-            i_tr = grid.array_i_transmissibility
+        k_tr = __cached_array(grid, 'array_k_transmissibility', settings)
+        j_tr = __cached_array(grid, 'array_j_transmissibility', settings)
+        i_tr = __cached_array(grid, 'array_i_transmissibility', settings)
 
     pc = grid.extract_property_collection()
 
@@ -96,8 +95,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                 k_tr = composite_tr[:(grid.nk + 1) * grid.nj * grid.ni].reshape((grid.nk + 1, grid.nj, grid.ni))
             if k_tr is not None:
                 assert k_tr.shape == (grid.nk + 1, grid.nj, grid.ni)
-                if realization is None:
-                    grid.array_k_transmissibility = k_tr
 
         if j_tr is None:
             j_tr = pc.single_array_ref(property_kind = 'transmissibility',
@@ -113,8 +110,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                     (grid.nk, grid.nj + 1, grid.ni))
             if j_tr is not None:
                 assert j_tr.shape == (grid.nk, grid.nj + 1, grid.ni)
-                if realization is None:
-                    grid.array_j_transmissibility = j_tr
 
         if i_tr is None:
             i_tr = pc.single_array_ref(property_kind = 'transmissibility',
@@ -129,8 +124,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                 i_tr = composite_tr[offset:].reshape((grid.nk, grid.nj, grid.ni + 1))
             if i_tr is not None:
                 assert i_tr.shape == (grid.nk, grid.nj, grid.ni + 1)
-                if realization is None:
-                    grid.array_i_transmissibility = i_tr
 
     if k_tr is None or j_tr is None or i_tr is None:
 
@@ -159,9 +152,34 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
         np.seterr(divide = 'warn')
 
+    if realization is None:
+        __cache_array(grid, 'array_k_transmissibility', k_tr, settings)
+        __cache_array(grid, 'array_j_transmissibility', j_tr, settings)
+        __cache_array(grid, 'array_i_transmissibility', i_tr, settings)
+
     return k_tr, j_tr, i_tr
 
 
+def __cached_array(grid, attribute, settings):
+    # returns array cached as attribute of grid, or None if there is none or it was computed with other settings
+    a = getattr(grid, attribute, None)
+    if a is not None and hasattr(grid, 'tr_cache_settings'):
+        cached_a, cached_settings = grid.tr_cache_settings.get(attribute, (None, None))
+        if cached_a is a and cached_settings != settings:
+            return None
+    return a
+
+
+def __cache_array(grid, attribute, a, settings):
+    # caches array as attribute of grid, with note of settings used, unless it is already cached
+    if getattr(grid, attribute, None) is a:
+        return
+    setattr(grid, attribute, a)
+    if not hasattr(grid, 'tr_cache_settings'):
+        grid.tr_cache_settings = {}
+    grid.tr_cache_settings[attribute] = (a, settings)
+
+
 def __faces_per_cell_multiplier(grid, half_t, pc, realization):
     pc = grid.extract_property_collection()
     half_t_mult = pc.single_array_ref(property_kind = 'transmissibility multiplier',
@@ -285,8 +303,6 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
-        grid.array_j_transmissibility = j_tr
     return j_tr
 
 
@@ -353,8 +369,6 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
-        grid.array_k_transmissibility = k_tr
     return k_tr
 
 
@@ -384,11 +398,14 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
 
     # todo: allow passing of property uuids for ntg, k_k, j, i
 
-    if realization is None and hasattr(grid, 'array_half_cell_t'):
-        return grid.array_half_cell_t
-
+    settings = (tolerance, bool(use_property))
     half_t = None
 
+    if realization is None:
+        half_t = __cached_array(grid, 'array_half_cell_t', settings)
+        if half_t is not None:
+            return half_t
+
     if use_property:
         pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
@@ -405,6 +422,6 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
         half_t = rqtr.half_cell_t(grid, realization = realization, tolerance = tolerance)
 
     if realization is None:
-        grid.array_half_cell_t = half_t
+        __cache_array(grid, 'array_half_cell_t', half_t, settings)
 
     return half_t
-- 
2.43.0


From 556b7f6a3a15830de368ef06551c44825653fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 131/231] fix: transmissibilities of connection sets of a grid
 asked for repeatedly

---
 resqpy/grid/_connection_sets.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid/_connection_sets.py b/resqpy/grid/_connection_sets.py
index 4325d7c..a3b309f 100644
--- a/resqpy/grid/_connection_sets.py
+++ b/resqpy/grid/_connection_sets.py
@@ -40,14 +40,13 @@ def fault_connection_set(grid,
     if not hasattr(grid, 'fgcs') or grid.fgcs_skip_inactive != skip_inactive:
         grid.fgcs, grid.fgcs_fractional_area = rqtr.fault_connection_set(grid, skip_inactive = skip_inactive)
         grid.fgcs_skip_inactive = skip_inactive
+        __discard(grid, 'array_fgcs_transmissibility', 'fgcs_tr_in_model')
 
     if grid.fgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_fgcs_transmissibility'):
         grid.array_fgcs_transmissibility = grid.fgcs.tr_property_array(grid.fgcs_fractional_area)
-        new_tr = True
 
     tr = grid.array_fgcs_transmissibility if hasattr(grid, 'array_fgcs_transmissibility') else None
 
@@ -59,7 +58,7 @@ def fault_connection_set(grid,
         if grid.model.uuid(uuid = grid.fgcs.uuid) is None:
             grid.fgcs.write_hdf5()
             grid.fgcs.create_xml(title = title)
-        if new_tr:
+        if tr is not None and not hasattr(grid, 'fgcs_tr_in_model'):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.fgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -74,6 +73,7 @@ def fault_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.fgcs_tr_in_model = True
 
     return grid.fgcs, tr
 
@@ -105,14 +105,13 @@ def pinchout_connection_set(grid,
     if not hasattr(grid, 'pgcs') or grid.pgcs_skip_inactive != skip_inactive:
         grid.pgcs = rqf.pinchout_connection_set(grid, skip_inactive = skip_inactive)
         grid.pgcs_skip_inactive = skip_inactive
+        __discard(grid, 'array_pgcs_transmissibility', 'pgcs_tr_in_model')
 
     if grid.pgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_pgcs_transmissibility'):
         grid.array_pgcs_transmissibility = grid.pgcs.tr_property_array()
-        new_tr = True
 
     tr = grid.array_pgcs_transmissibility if hasattr(grid, 'array_pgcs_transmissibility') else None
 
@@ -120,7 +119,7 @@ def pinchout_connection_set(grid,
         if grid.model.uuid(uuid = grid.pgcs.uuid) is None:
             grid.pgcs.write_hdf5()
             grid.pgcs.create_xml()
-        if new_tr:
+        if tr is not None and not hasattr(grid, 'pgcs_tr_in_model'):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.pgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -135,6 +134,7 @@ def pinchout_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.pgcs_tr_in_model = True
 
     return grid.pgcs, tr
 
@@ -169,17 +169,17 @@ def k_gap_connection_set(grid,
        if cached values are found they are returned regardless of the specified tolerance
     """
 
-    if not hasattr(grid, 'kgcs') or grid.kgcs_skip_inactive != skip_inactive:
+    if not hasattr(grid, 'kgcs') or grid.kgcs_skip_inactive != skip_inactive or grid.kgcs_tolerance != tolerance:
         grid.kgcs = rqf.k_gap_connection_set(grid, skip_inactive = skip_inactive, tolerance = tolerance)
         grid.kgcs_skip_inactive = skip_inactive
+        grid.kgcs_tolerance = tolerance
+        __discard(grid, 'array_kgcs_transmissibility', 'kgcs_tr_in_model')
 
     if grid.kgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_kgcs_transmissibility'):
         grid.array_kgcs_transmissibility = grid.kgcs.tr_property_array()
-        new_tr = True
 
     tr = grid.array_kgcs_transmissibility if hasattr(grid, 'array_kgcs_transmissibility') else None
 
@@ -187,7 +187,7 @@ def k_gap_connection_set(grid,
         if grid.model.uuid(uuid = grid.kgcs.uuid) is None:
             grid.kgcs.write_hdf5()
             grid.kgcs.create_xml()
-        if new_tr:
+        if tr is not None and not hasattr(grid, 'kgcs_tr_in_model'):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.kgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -202,5 +202,12 @@ def k_gap_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.kgcs_tr_in_model = True
 
     return grid.kgcs, tr
+
+
+def __discard(grid, *attributes):
+    for attribute in attributes:
+        if hasattr(grid, attribute):
+            delattr(grid, attribute)
-- 
2.43.0


From b34c9951072f1b64ee99787d3b14ddc18117dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 132/231] fix: half cell transmissibilities of a prism grid
 where z is upwards

---
 resqpy/olio/transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 38c8fd2..044412c 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -412,7 +412,7 @@ def half_cell_t_vertical_prism(vpg,
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
     cp = vpg.corner_points()
-    half_thickness = 0.5 * vpg.thickness().reshape((vpg.nk, -1))
+    half_thickness = 0.5 * np.abs(vpg.thickness()).reshape((vpg.nk, -1))
 
     # compute transmissibilities
     tr = np.zeros((vpg.cell_count, 5), dtype = float)
-- 
2.43.0


From 212f050680766286f8a92389bfff45b16aae6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 133/231] fix: order of horizontal half cell transmissibilities
 of a prism grid

---
 resqpy/olio/transmission.py        | 3 +++
 resqpy/unstructured/_prism_grid.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 044412c..1242dcf 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -408,6 +408,9 @@ def half_cell_t_vertical_prism(vpg,
     p = vpg.points_ref()
     t = vpg.triangulation()
     a_t, d_t = half_cell_t_2d_triangular_precursor(p, t)
+    # re-order from opposite vertex to faces per cell, ie. vertical face e has edge from vertex e - 1 to vertex e
+    a_t = a_t[:, (1, 2, 0)]
+    d_t = d_t[:, (1, 2, 0)]
     # find heights of cells and faces
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..379b611 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -535,8 +535,8 @@ class VerticalPrismGrid(PrismGrid):
            this method should be used to generate horizontal permeabilities for use in transmissibility
            calculations if starting from an anisotropic permeability defined by a pair of locally
            orthogonal values; resulting values will be locally bounded by the pair of source values;
-           the order of the 3 values per cell follows the node indices for the top triangle, for the
-           opposing vertical face; no net to gross ratio modification is applied here;
+           the order of the 3 values per cell is that of the vertical faces in the faces per cell
+           array; no net to gross ratio modification is applied here;
         """
 
         assert primary_k.size == self.cell_count and orthogonal_k.size == self.cell_count
-- 
2.43.0


From 3b30731724c6d67fdd5b10953cc68558fcfe0ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 134/231] fix: cell thickness in horizontal half cell
 transmissibilities of a prism grid

---
 resqpy/olio/transmission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 1242dcf..6d363ca 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -428,7 +428,8 @@ def half_cell_t_vertical_prism(vpg,
     dt_full = np.empty((vpg.nk, vpg.cell_count // vpg.nk, 3), dtype = float)
     dt_full[:] = d_t
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
-                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape(
+                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) * 2.0 *
+                         half_thickness.reshape((vpg.nk, -1, 1)) / dt_full).reshape(
                              (-1, 3))
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
-- 
2.43.0


From 16207b96952e9381cb8fe848a8f70169d5fc2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 135/231] fix: use of a half cell transmissibility property of
 a prism grid

---
 resqpy/unstructured/_prism_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 379b611..d1bce3d 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -605,7 +605,7 @@ class VerticalPrismGrid(PrismGrid):
             return self.array_half_cell_t
 
         half_t = None
-        pc = self.property_collection
+        pc = self.extract_property_collection()
 
         if use_property:
             half_t = pc.single_array_ref(property_kind = 'transmissibility',
@@ -613,7 +613,7 @@ class VerticalPrismGrid(PrismGrid):
                                          continuous = True,
                                          count = 1,
                                          indexable = 'faces per cell')
-            if half_t:
+            if half_t is not None:
                 assert half_t.size == 5 * self.cell_count
                 half_t = half_t.reshape(self.cell_count, 5)
 
-- 
2.43.0


From a4ab5632a0d56a74d4e3a751468f3fb589046c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 136/231] fix: half cell transmissibility not a number where a
 projected face is degenerate

---
 resqpy/olio/transmission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 6d363ca..6a581d4 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -778,6 +778,7 @@ def projected_tri_area(pa, pb, pc):
         lbp = vec.naive_lengths(pcp - pbp)
         lcp = vec.naive_lengths(pap - pcp)
         s = 0.5 * (lap + lbp + lcp)  # 2D triangle semi perimeter lengths
-        area[..., xyz] = np.sqrt(s * (s - lap) * (s - lbp) * (s - lcp))
+        # note: rounding can leave a very small negative value when projected points are collinear
+        area[..., xyz] = np.sqrt(np.maximum(s * (s - lap) * (s - lbp) * (s - lcp), 0.0))
 
     return area
-- 
2.43.0


From a65eccb522729f8bfd5447ffe6c15cf8dd31ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 137/231] fix: transmissibilities of a connection set whose
 arrays have not been loaded

---
 resqpy/fault/_grid_connection_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 3fc1f00..8936ae9 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1885,6 +1885,7 @@ class GridConnectionSet(BaseResqpy):
            does not add the transmissibility array as a property
         """
 
+        self.cache_arrays()
         feature_mult_list = None
         mult_array = None
         if apply_multipliers:
-- 
2.43.0


From d68493250e3df7f95e48356e34b34c4b78fa88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 138/231] fix: crs object of a grid derived into a new epc file

---
 resqpy/derived_model/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..4532213 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -146,7 +146,7 @@ def _write_grid(epc_file,
         crs_root = model.duplicate_node(grid.model.root_for_uuid(grid.crs_uuid))
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
-        grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
+        grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
-- 
2.43.0


From ffadf37e9647f18ca90c6f0564067fa69904bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 139/231] fix: active property of a derived grid with
 properties added as a part twice

---
 resqpy/derived_model/_common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index 4532213..21a029e 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -175,7 +175,12 @@ def _write_grid(epc_file,
     # build xml for grid geometry
     if geometry:
         log.debug('building xml for grid object')
-        ijk_node = grid.create_xml(ext_uuid, add_as_part = True, add_relationships = True, title = grid_title)
+        # note: if there is a property collection, the active property will have been added to its imported list
+        ijk_node = grid.create_xml(ext_uuid,
+                                   add_as_part = True,
+                                   add_relationships = True,
+                                   title = grid_title,
+                                   write_active = (collection is None))
         assert ijk_node is not None, 'failed to create IjkGrid node in xml tree'
         if collection is not None:
             collection.set_grid(grid, grid_root = grid.root)
-- 
2.43.0


From cf182f51afc827dd90f89c7af7ab57eea3be46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 140/231] fix: zone layer ranges where there is a gap between
 zones

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 394a00e..4bc19ff 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -66,7 +66,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         if zone_layer_range_list[zone_i][0] > zone_layer_range_list[zone_i - 1][1] + 1:
             log.warning('gap in zonal layer ranges, missing layer(s) being arbitrarily assigned to zone below'
                        )  # todo: add more info to log
-            zone_layer_range_list[zone_i][0] = zone_layer_range_list[zone_i - 1][1] + 1
+            zone_layer_range_list[zone_i] = (zone_layer_range_list[zone_i - 1][1] + 1,) + zone_layer_range_list[zone_i][1:]
     return zone_layer_range_list
 
 
-- 
2.43.0


From aa4f56479c35156e3b251af828f76f0424b7a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 141/231] fix: zone layer ranges where all the cells in a layer
 are masked out

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 4bc19ff..585d785 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -56,7 +56,8 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
                 break
         # require all active cells in zone layer range to be for this zone
         for k0 in range(zone_min_k0, zone_max_k0 + 1):
-            assert np.all(single_zone_mask[k0]), 'unacceptable zone variation with layer ' + str(k0 + 1)
+            # note: inactive cells, if masked out, are acceptable, even where all the cells in a layer are inactive
+            assert np.all(np.ma.filled(single_zone_mask[k0], True)), 'unacceptable zone variation with layer ' + str(k0 + 1)
         zone_layer_range_list.append((zone_min_k0, zone_max_k0, zone))
     assert len(zone_layer_range_list) > 0, 'no zone layer ranges derived from zone array'
     zone_layer_range_list.sort()
-- 
2.43.0


From 4191707279e6489e8aeecba4d9d92443dee76e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 142/231] fix: split pillars of a box extracted from a faulted
 grid

---
 resqpy/derived_model/_extract_box.py | 128 +++++++--------------------
 1 file changed, 34 insertions(+), 94 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..b4d5b93 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -181,31 +181,6 @@ def _local_col_index(extent, box, col):
     return j * (box[1, 2] - box[0, 2] + 1) + i
 
 
-def _local_pillar_index(extent, box, p):
-    # return local equivalent natural pillar index for global pillar index, or None if outside box
-    p_j, p_i = divmod(p, extent[2] + 1)
-    p_j -= box[0, 1]
-    p_i -= box[0, 2]
-    if p_j < 0 or p_i < 0 or p_j > box[1, 1] - box[0, 1] + 1 or p_i > box[1, 2] - box[0, 2] + 1:
-        return None
-    return p_j * (box[1, 2] - box[0, 2] + 2) + p_i
-
-
-def _cols_for_pillar(extent, p):
-    # return 4 naturalized column indices for columns surrounding natural pillar index; -1 where beyond edge of ij space
-    cols = np.zeros((4,), dtype = int) - 1
-    p_j, p_i = divmod(p, extent[2] + 1)
-    if p_j > 0 and p_i > 0:
-        cols[0] = (p_j - 1) * extent[2] + p_i - 1
-    if p_j > 0 and p_i < extent[2]:
-        cols[1] = (p_j - 1) * extent[2] + p_i
-    if p_j < extent[1] and p_i > 0:
-        cols[2] = p_j * extent[2] + p_i - 1
-    if p_j < extent[1] and p_i < extent[2]:
-        cols[3] = p_j * extent[2] + p_i
-    return cols
-
-
 def _inherit_k_gaps(source_grid, grid, box):
     if source_grid.k_gaps and box[1, 0] > box[0, 0]:
         k_gaps = np.count_nonzero(source_grid.k_gap_after_array[box[0, 0]:box[1, 0]])
@@ -267,75 +242,40 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
     source_base_pillar_count = (source_grid.nj + 1) * (source_grid.ni + 1)
     log.debug('number of base pillars in source grid: ' + str(source_base_pillar_count))
     log.debug('number of extra pillars in source grid: ' + str(len(source_grid.split_pillar_indices_cached)))
-    base_points = _array_box(
-        source_points[:, :source_base_pillar_count, :].reshape(
-            (source_grid.nk_plus_k_gaps + 1, source_grid.nj + 1, source_grid.ni + 1, 3)),
-        pillar_box).reshape(grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3)
-    extra_points = np.zeros(
-        (pillar_box[1, 0] - pillar_box[0, 0] + 1, source_points.shape[1] - source_base_pillar_count, 3))
-    spi_array = np.zeros(len(source_grid.split_pillar_indices_cached), dtype = int)
-    local_cols_array = np.zeros(len(source_grid.cols_for_split_pillars), dtype = int)
-    local_cols_cl = np.zeros(len(source_grid.split_pillar_indices_cached), dtype = int)
-    local_index = 0
-    for index in range(len(source_grid.split_pillar_indices_cached)):
-        source_pi = source_grid.split_pillar_indices_cached[index]
-        local_pi = _local_pillar_index(source_grid.extent_kji, box, source_pi)
-        if local_pi is None:
-            continue
-        cols = _cols_for_pillar(source_grid.extent_kji, source_pi)
-        local_cols = _cols_for_pillar(grid.extent_kji, local_pi)
-        if index == 0:
-            start = 0
-        else:
-            start = source_grid.cols_for_split_pillars_cl[index - 1]
-        finish = source_grid.cols_for_split_pillars_cl[index]
-        source_pis = np.zeros((4,), dtype = int)
-        for c_i in range(4):
-            if local_cols[c_i] < 0:
-                source_pis[c_i] = -1
-                continue
-            if cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
-                source_pis[c_i] = source_base_pillar_count + index
-            else:
-                source_pis[c_i] = source_pi
-        unique_source_pis = np.unique(source_pis)
-        unique_count = len(unique_source_pis)
-        unique_index = 0
-        if unique_source_pis[0] == -1:
-            unique_index = 1
-            unique_count -= 1
-        if unique_count <= 0:
-            continue
-        base_points[:, local_pi, :] = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1,
-                                                    unique_source_pis[unique_index], :]
-        unique_index += 1
-        unique_count -= 1
-        if unique_count <= 0:
-            continue
-        while unique_count > 0:
-            source_pi = unique_source_pis[unique_index]
-            extra_points[:, local_index, :] = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1, source_pi, :]
-            spi_array[local_index] = local_pi
-            if local_index == 0:
-                lc_index = 0
-            else:
-                lc_index = local_cols_cl[local_index - 1]
-            for c_i in range(4):
-                if source_pis[c_i] == source_pi and local_cols[c_i] >= 0:
-                    local_cols_array[lc_index] = local_cols[c_i]
-                    lc_index += 1
-            local_cols_cl[local_index] = lc_index
-            local_index += 1
-            unique_index += 1
-            unique_count -= 1
-    if local_index == 0:  # there are no split pillars in the box
-        log.debug('box does not inherit any split pillars')
+    if not hasattr(source_grid, 'pillars_for_column'):
+        source_grid.create_column_pillar_mapping()
+    # source coordinate line in use at each corner of each column within the box
+    source_lines = source_grid.pillars_for_column[box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
+    base_lines = np.empty(((grid.nj + 1) * (grid.ni + 1),), dtype = int)
+    extra_lines = []
+    spi_list = []
+    local_cols_list = []
+    local_cols_cl = []
+    for p_j in range(grid.nj + 1):
+        for p_i in range(grid.ni + 1):
+            local_pi = p_j * (grid.ni + 1) + p_i
+            cols_for_line = {}  # source coordinate line index, mapping to list of local columns
+            for j in range(max(p_j - 1, 0), min(p_j, grid.nj - 1) + 1):
+                for i in range(max(p_i - 1, 0), min(p_i, grid.ni - 1) + 1):
+                    line = int(source_lines[j, i, p_j - j, p_i - i])
+                    cols_for_line.setdefault(line, []).append(j * grid.ni + i)
+            lines = sorted(cols_for_line.keys())
+            base_lines[local_pi] = lines[0]
+            for line in lines[1:]:
+                extra_lines.append(line)
+                spi_list.append(local_pi)
+                local_cols_list += cols_for_line[line]
+                local_cols_cl.append(len(local_cols_list))
+    k_points = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1]
+    base_points = k_points[:, base_lines, :]
+    if len(extra_lines) == 0:  # there are no split pillars in the box
+        log.debug('box does not contain any split pillars')
         grid.points_cached = base_points.reshape(grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3)
         grid.has_split_coordinate_lines = False
     else:
-        log.debug('number of extra pillars in box: ' + str(local_index))
-        grid.points_cached = np.concatenate((base_points, extra_points[:, :local_index, :]), axis = 1)
-        grid.split_pillar_indices_cached = spi_array[:local_index].copy()
-        grid.cols_for_split_pillars = local_cols_array[:local_cols_cl[local_index - 1]].copy()
-        grid.cols_for_split_pillars_cl = local_cols_cl[:local_index].copy()
-        grid.split_pillars_count = local_index
+        log.debug(f'number of extra pillars in box: {len(extra_lines)}')
+        grid.points_cached = np.concatenate((base_points, k_points[:, extra_lines, :]), axis = 1)
+        grid.split_pillar_indices_cached = np.array(spi_list, dtype = int)
+        grid.cols_for_split_pillars = np.array(local_cols_list, dtype = int)
+        grid.cols_for_split_pillars_cl = np.array(local_cols_cl, dtype = int)
+        grid.split_pillars_count = len(extra_lines)
-- 
2.43.0


From 4c4af480d517feff18b94988f402d2f62f2f66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 143/231] fix: defined geometry flags of a box extracted from a
 grid

---
 resqpy/derived_model/_extract_box.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index b4d5b93..5800040 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -109,7 +109,7 @@ def extract_box(epc_file = None,
     source_grid.cache_all_geometry_arrays()
 
     # determine cell geometry is defined
-    if hasattr(source_grid, 'array_cell_geometry_is_defined'):
+    if getattr(source_grid, 'array_cell_geometry_is_defined', None) is not None:
         grid.array_cell_geometry_is_defined = _array_box(source_grid.array_cell_geometry_is_defined, box)
         grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     else:
@@ -117,8 +117,11 @@ def extract_box(epc_file = None,
 
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
-    if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
-        grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
+    if getattr(source_grid, 'array_pillar_geometry_is_defined', None) is not None:
+        # note: pillar extent is one greater than that of cells, in each of the j and i axes
+        grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined[box[0, 1]:box[1, 1] + 2,
+                                                                                             box[0, 2]:box[1, 2] +
+                                                                                             2].copy()
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
     # get reference to points for source grid geometry
-- 
2.43.0


From 204e58c097315eb0f3e0f11b3e6b6dee3e142f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 144/231] fix: crs when copying a grid to another model

---
 resqpy/derived_model/_copy_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_copy_grid.py b/resqpy/derived_model/_copy_grid.py
index 4a17778..f12afba 100644
--- a/resqpy/derived_model/_copy_grid.py
+++ b/resqpy/derived_model/_copy_grid.py
@@ -49,7 +49,8 @@ def copy_grid(source_grid, target_model = None, copy_crs = True):
     if target_model is source_grid.model:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     elif copy_crs and source_grid.crs_uuid is not None:
-        model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        target_model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(target_model, uuid = grid.crs_uuid)
     else:
         grid.crs = None
 
-- 
2.43.0


From 3107fa37dc93c649aa9c021098b03802d4fedefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 145/231] fix: unsplit version of a grid with k gaps

---
 resqpy/derived_model/_unsplit_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_unsplit_grid.py b/resqpy/derived_model/_unsplit_grid.py
index 422b3ad..5d2c21b 100644
--- a/resqpy/derived_model/_unsplit_grid.py
+++ b/resqpy/derived_model/_unsplit_grid.py
@@ -67,7 +67,7 @@ def unsplit_grid(epc_file,
     grid.cache_all_geometry_arrays()  # probably already cached anyway
     unsplit = source_grid.unsplit_points_ref()
     grid.points_cached = unsplit.copy()
-    assert grid.points_cached.shape == (grid.nk + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
+    assert grid.points_cached.shape == (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
 
     grid.has_split_coordinate_lines = False
     delattr(grid, 'split_pillar_indices_cached')
-- 
2.43.0


From 951097fc3d28fc15be3b5b33936545bb4cd7c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 146/231] fix: parent window of a grid coarsened with varying
 ratios

---
 resqpy/grid/_create_grid_xml.py        | 6 ++----
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..0777ad6 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -145,10 +145,8 @@ def _create_grid_xml(grid,
             if grid.parent_window.constant_ratios[axis] is not None:
                 interval_count = 1
             else:
-                if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
-                else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                # note: one interval per coarse slice, whether the grid is a refinement or a coarsening
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..7bdf784 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From 5a0a243cad750c12dafca41310c342b7105bac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 147/231] fix: box check for grandparent parent windows

---
 resqpy/derived_model/_coarsened_grid.py | 2 +-
 resqpy/derived_model/_refined_grid.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_coarsened_grid.py b/resqpy/derived_model/_coarsened_grid.py
index 54a7475..76ef792 100644
--- a/resqpy/derived_model/_coarsened_grid.py
+++ b/resqpy/derived_model/_coarsened_grid.py
@@ -183,7 +183,7 @@ def _set_parent_window_in_grid(set_parent_window, source_grid, grid, fine_coarse
         if isinstance(set_parent_window, str):
             if set_parent_window == 'grandparent':
                 assert fine_coarse.within_fine_box is None or (np.all(fine_coarse.within_fine_box[0] == 0) and
-                                                               np.all(fine_coarse.within_fine_box[1]) == source_grid.extent_kji - 1),  \
+                                                               np.all(fine_coarse.within_fine_box[1] == source_grid.extent_kji - 1)),  \
                    'attempt to set grandparent window for grid when parent window is present'
                 source_fine_coarse = source_grid.parent_window
                 if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..6ec0712 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -344,7 +344,7 @@ def _set_parent_window(set_parent_window, source_grid, grid, fine_coarse):
     if isinstance(set_parent_window, str):
         if set_parent_window == 'grandparent':
             assert fine_coarse.within_coarse_box is None or (np.all(fine_coarse.within_coarse_box[0] == 0) and
-                                                             np.all(fine_coarse.within_coarse_box[1]) == source_grid.extent_kji - 1),  \
+                                                             np.all(fine_coarse.within_coarse_box[1] == source_grid.extent_kji - 1)),  \
                'attempt to set grandparent window for grid when parent window is present'
             source_fine_coarse = source_grid.parent_window
             if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
-- 
2.43.0


From b9a11f7d15f914d2e54f19834deb16b5e48b60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 148/231] fix: single zone layer range passed to zonal_grid

---
 resqpy/derived_model/_zonal_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..c4a9836 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -88,6 +88,9 @@ def zonal_grid(epc_file,
         for (zone_min_k0, zone_max_k0, zone) in zone_layer_range_list:
             log.info('zone id {0:1d} covers layers {1:1d} to {2:1d}'.format(zone, zone_min_k0 + 1, zone_max_k0 + 1))
     else:
+        if zone_layer_range_list is not None:
+            k0_min, k0_max = zone_layer_range_list[0][:2]
+            assert 0 <= k0_min <= k0_max < source_grid.nk
         zone_layer_range_list = [(k0_min, k0_max, 0)]
         zone_count = 1
     assert zone_count > 0, 'unexpected lack of zones'
-- 
2.43.0


From c7279faaca34745b9082f1063946bc948617f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 149/231] fix: crs object of a zonal grid

---
 resqpy/derived_model/_zonal_grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index c4a9836..edb2951 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -8,6 +8,7 @@ import os
 import numpy as np
 
 import resqpy.derived_model
+import resqpy.crs as rqc
 import resqpy.grid as grr
 import resqpy.model as rq
 import resqpy.olio.uuid as bu
@@ -206,6 +207,9 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
         grid.nk, grid.nj, grid.ni = zone_count, source_grid.nj, source_grid.ni
         grid.has_split_coordinate_lines = source_grid.has_split_coordinate_lines
         grid.crs_uuid = source_grid.crs_uuid
+        if source_grid.model is not model:
+            model.duplicate_node(source_grid.model.root_for_uuid(grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
 
     grid.k_direction_is_down = source_grid.k_direction_is_down
     grid.grid_is_right_handed = source_grid.grid_is_right_handed
-- 
2.43.0


From a82cd274146ad916b1c2694706c0ea62bdd5f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 150/231] fix: layers used for base of zones, and k gaps, in
 zonal grids

---
 resqpy/derived_model/_zonal_grid.py | 32 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index edb2951..bf88e1a 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -219,6 +219,7 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
 
 def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, zone_count):
     source_points = source_grid.points_ref()
+    k_raw = _raw_k_indices(source_grid)
     log.debug('scanning columns (split pillars) for reference geometry')
     if not hasattr(source_grid, 'pillars_for_column'):
         source_grid.create_column_pillar_mapping()
@@ -229,7 +230,7 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
         zk0_min, zk0_max = zone_layer_range_list[zone_i][0:2]
         for j in range(grid.nj):
             for i in range(grid.ni):
-                if grid.inactive[zone_i, j, i]:
+                if grid.inactive is not None and grid.inactive[zone_i, j, i]:
                     continue
                 if zone_i == 0:
                     for k in range(zk0_min, zk0_max + 1):
@@ -237,14 +238,14 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
                             for jp in range(2):
                                 for ip in range(2):
                                     pillar = grid.pillars_for_column[j, i, jp, ip]
-                                    grid.points_cached[0, pillar] = source_points[k, pillar]
+                                    grid.points_cached[0, pillar] = source_points[k_raw[k], pillar]
                             break
-                for k in range(zk0_max + 1, zk0_min - 1, -1):
+                for k in range(zk0_max, zk0_min - 1, -1):
                     if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
                         for jp in range(2):
                             for ip in range(2):
                                 pillar = grid.pillars_for_column[j, i, jp, ip]
-                                grid.points_cached[zone_i + 1, pillar] = source_points[k + 1, pillar]
+                                grid.points_cached[zone_i + 1, pillar] = source_points[k_raw[k] + 1, pillar]
                         grid.array_cell_geometry_is_defined[zone_i, j, i] = True
                         break
 
@@ -298,20 +299,21 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
         grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined.copy()
     # get reference to points for source grid geometry
     source_points = source_grid.points_ref()
+    k_raw = _raw_k_indices(source_grid)
     # slice top and base points
     points_shape = list(source_points.shape)
     points_shape[0] = zone_count + 1  # nk + 1
     grid.points_cached = np.zeros(points_shape)
     if grid.geometry_defined_for_all_cells_cached:
         if single_layer_mode:
-            grid.points_cached[0] = source_points[k0_min]
-            grid.points_cached[1] = source_points[k0_max + 1]  # base face
+            grid.points_cached[0] = source_points[k_raw[k0_min]]
+            grid.points_cached[1] = source_points[k_raw[k0_max] + 1]  # base face
         else:
             for zone_i in range(zone_count):
                 if zone_i == 0:
-                    grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
+                    grid.points_cached[0] = source_points[k_raw[zone_layer_range_list[zone_i][0]]]
+                # base of lowest layer in zone; or could use top of layer in 0th element of tuple for zone_i+1
+                grid.points_cached[zone_i + 1] = source_points[k_raw[zone_layer_range_list[zone_i][1]] + 1]
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
@@ -324,11 +326,12 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
                     if zone_i == 0:
                         for k in range(zk0_min, zk0_max + 1):
                             if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                                grid.points_cached[0, j:j + 2, i:i + 2] = source_points[k, j:j + 2, i:i + 2]
+                                grid.points_cached[0, j:j + 2, i:i + 2] = source_points[k_raw[k], j:j + 2, i:i + 2]
                                 break
                     for k in range(zk0_max, zk0_min - 1, -1):
                         if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                            grid.points_cached[zone_i + 1, j:j + 2, i:i + 2] = source_points[k + 1, j:j + 2, i:i + 2]
+                            grid.points_cached[zone_i + 1, j:j + 2, i:i + 2] = source_points[k_raw[k] + 1, j:j + 2,
+                                                                                                 i:i + 2]
                             grid.array_cell_geometry_is_defined[zone_i, j, i] = True
                             break
     else:
@@ -350,3 +353,10 @@ def _set_or_check_k_min_max(k0_min, k0_max, source_grid):
     else:
         assert k0_max >= 0 and k0_max < source_grid.nk and k0_max >= k0_min
     return k0_min, k0_max
+
+
+def _raw_k_indices(source_grid):
+    # returns index into first axis of points array of the top face of each layer, allowing for k gaps
+    if source_grid.k_gaps:
+        return source_grid.k_raw_index_array
+    return np.arange(source_grid.nk, dtype = int)
-- 
2.43.0


From 40fda089e4efd1743e3bb9a6f2eb8cdc2f12900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 151/231] fix: box or refinement of a regular grid in the same
 epc file

---
 resqpy/derived_model/_common.py       | 8 ++++++++
 resqpy/derived_model/_extract_box.py  | 3 +--
 resqpy/derived_model/_refined_grid.py | 3 +--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index 21a029e..a819f3f 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -75,6 +75,14 @@ def _prepare_simple_inheritance(grid, source_grid, inherit_properties, inherit_r
     return collection
 
 
+def _ext_uuid_for_grid(model, grid):
+    """Returns uuid of hdf5 external part used for grid points, or None for a regular grid (without explicit points)."""
+
+    points_node = rqet.find_nested_tags(grid.root, ['Geometry', 'Points'])
+    uuid_and_path = None if points_node is None else model.h5_uuid_and_path_for_node(points_node, 'Coordinates')
+    return None if uuid_and_path is None else uuid_and_path[0]
+
+
 def _write_grid(epc_file,
                 grid,
                 ext_uuid = None,
diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 5800040..b21defe 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -158,8 +158,7 @@ def extract_box(epc_file = None,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 6ec0712..4e5b0d2 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -134,8 +134,7 @@ def refined_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
-- 
2.43.0


From b8a696d87df2009fcba7872bc2fd0aaf26ecfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 152/231] fix: refinement of a regular grid

---
 resqpy/derived_model/_refined_grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 4e5b0d2..beb71d6 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -76,6 +76,9 @@ def refined_grid(epc_file,
     if set_parent_window is None:
         set_parent_window = (new_epc_file is None)
 
+    if source_grid.grid_representation == 'IjkBlockGrid':
+        source_grid.make_regular_points_cached()
+
     if infill_missing_geometry and (not source_grid.geometry_defined_for_all_cells() or
                                     not source_grid.geometry_defined_for_all_pillars()):
         log.debug('attempting infill of geometry missing in source grid')
@@ -381,13 +384,13 @@ def _establish_models_and_source_grid(epc_file, new_epc_file, source_grid, sourc
                 source_grid = model_in.grid()
             else:
                 log.debug('selecting source grid from existing epc based on uuid')
-                source_grid = grr.Grid(model_in, uuid = source_grid_uuid)
+                source_grid = grr.any_grid(model_in, uuid = source_grid_uuid)
         else:
             if source_grid_uuid is not None:
                 assert bu.matching_uuids(source_grid_uuid, source_grid.uuid)
             grid_uuid = source_grid.uuid
             log.debug('reloading source grid from existing epc file')
-            source_grid = grr.Grid(model_in, uuid = grid_uuid)
+            source_grid = grr.any_grid(model_in, uuid = grid_uuid)
         if model is None:
             model = model_in
     else:
-- 
2.43.0


From c2ffd693f0fe7558bea4236aaae6cffb29ceb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 153/231] fix: single layer of a regular grid starting below
 the top layer

---
 resqpy/derived_model/_zonal_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index bf88e1a..8cfbf90 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -97,7 +97,8 @@ def zonal_grid(epc_file,
     assert zone_count > 0, 'unexpected lack of zones'
 
     # create a new, empty grid object
-    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode
+    # note: points in a regular grid start at the origin of the crs, so only possible if top layer is included
+    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode and k0_min == 0
     grid = _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count)
 
     # aggregate inactive cell mask depending on laissez faire argument
-- 
2.43.0


From edebad5cf4bf624df1ce03762f71466fda51a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 154/231] fix: indexable element, count, null value and lookup
 of properties inherited by a derived grid

---
 resqpy/property/grid_property_collection.py | 42 ++++++++++-----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..cf7b51b 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -777,7 +777,14 @@ def _array_box(collection, part, box = None, uncache_other_arrays = True):
     if box is None:
         a = full_array.copy()
     else:
-        a = full_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
+        k_slice, j_slice, i_slice = [slice(box[0, axis], box[1, axis] + 1) for axis in range(3)]
+        indexable = collection.indexable_for_part(part)
+        if indexable == 'columns':
+            a = full_array[j_slice, i_slice].copy()
+        elif indexable == 'layers':
+            a = full_array[k_slice].copy()
+        else:
+            a = full_array[k_slice, j_slice, i_slice].copy()
     full_array = None
     if uncache_other_arrays:
         collection.uncache_part_array(part)
@@ -1116,6 +1123,12 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    indexable = 'cells' if info[6] is None else info[6]
+    if indexable != 'cells' and (refinement is not None or (box is not None and indexable not in ['columns', 'layers'])):
+        # todo: appropriate refinement, or box extraction, of data for other indexable elements
+        log.warning(f'property with indexable element {indexable} not copied: {info[10]}')
+        return
+
     const_value = info[20]
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
@@ -1130,10 +1143,11 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = indexable,
+        count = info[5],
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,29 +1155,15 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-    if info[6] != 'cells':
-        # todo: appropriate refinement of data for other indexable elements
-        return
     # todo: dividing up of values when needed, eg. volumes, areas, lengths
-    assert tuple(a.shape) == tuple(refinement.coarse_extent_kji)
+    assert tuple(a.shape[:3]) == tuple(refinement.coarse_extent_kji)
     assert collection.support is not None and tuple(collection.support.extent_kji) == tuple(refinement.fine_extent_kji)
-    k_ratio_vector = refinement.coarse_for_fine_axial_vector(0)
-    a_refined_k = np.empty(
-        (refinement.fine_extent_kji[0], refinement.coarse_extent_kji[1], refinement.coarse_extent_kji[2]),
-        dtype = a.dtype)
-    a_refined_k[:, :, :] = a[k_ratio_vector, :, :]
-    j_ratio_vector = refinement.coarse_for_fine_axial_vector(1)
-    a_refined_kj = np.empty(
-        (refinement.fine_extent_kji[0], refinement.fine_extent_kji[1], refinement.coarse_extent_kji[2]),
-        dtype = a.dtype)
-    a_refined_kj[:, :, :] = a_refined_k[:, j_ratio_vector, :]
-    i_ratio_vector = refinement.coarse_for_fine_axial_vector(2)
-    a = np.empty(tuple(refinement.fine_extent_kji), dtype = a.dtype)
-    a[:, :, :] = a_refined_kj[:, :, i_ratio_vector]
+    a = a[np.ix_(*[refinement.coarse_for_fine_axial_vector(axis) for axis in range(3)])]
     # for cell length properties, scale down the values in accordance with refinement
     if info[4] and info[7] == 'cell length' and info[8] == 'direction' and info[5] == 1:
         a = _extend_imported_no_coarsening_single_resampling_length(a, info, refinement)
-- 
2.43.0


From 31cd164600f4d9a04f8bb29c8d7d97f2d9953ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 155/231] fix: constant cell lengths inherited by a refined
 grid

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index cf7b51b..5bc74b7 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1130,6 +1130,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         return
 
     const_value = info[20]
+    if const_value is not None and refinement is not None and info[7] == 'cell length':
+        const_value = None  # lengths will vary if refinement is not constant, so array needed
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
     else:
-- 
2.43.0


From 6e837f9cba5890e949f0a986e80ac165321c475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 156/231] fix: null value and lookup of properties inherited by
 a coarsened grid

---
 resqpy/property/grid_property_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 5bc74b7..6ffcd8c 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -865,6 +865,8 @@ def _coarsening_weighted_mean_singlecell(a_coarsened, a, coarsening, k, j, i, fi
 
 
 def _add_to_imported(collection, a, title, info, null_value = None, const_value = None):
+    if null_value is None:
+        null_value = info[19]
     collection.add_cached_array_to_imported_list(
         a,
         title,
@@ -881,7 +883,8 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_initial_assertions(other, box, refinement, coarsening):
-- 
2.43.0


From ecf61236ea283d65e69e8d35303dd51a2040197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 157/231] fix: volumes modified by coarsening of saturations

---
 resqpy/property/grid_property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 6ffcd8c..5009c47 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1036,8 +1036,8 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        fine_sat_weight = fine_nrv_array * fine_poro_array
+        coarse_sat_weight = coarse_nrv_array * coarse_poro_array
     for (part, info) in source_sat.dict.items():
         if not copy_all_realizations and info[0] != realization:
             continue
-- 
2.43.0


From 86be349b3d1a39294d3bc9b537030077ba3f0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 158/231] fix: coarsening of properties for a grid not yet
 stored

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 5009c47..fd55b0d 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -969,6 +969,8 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
         else:
             fine_rv_array = source_rv_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
         coarse_rv_array = collection.support.volume()
+        if coarse_rv_array is None:  # coarse grid not yet stored
+            coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
     else:
         for (part, info) in source_rv.dict.items():
             if not copy_all_realizations and info[0] != realization:
-- 
2.43.0


From 23afcc973c2c4f7948acf5784cb4abd0fd9b374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 159/231] fix: coarsening when properties other than one value
 per cell are present

---
 resqpy/property/grid_property_collection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index fd55b0d..2a51449 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1100,6 +1100,10 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
             continue
         if info[7] in handled_kinds:
             continue
+        if info[6] not in [None, 'cells'] or info[5] > 1 or info[21]:
+            # todo: coarsening of data for other indexable elements
+            log.warning(f'property not coarsened: {info[10]}')
+            continue
         fine_ordinary_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         if info[4]:
             coarse_ordinary_array = _coarsening_weighted_mean(coarsening,
-- 
2.43.0


From 8dbafe89dcda3204e85b113150c12e8ec352d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 160/231] fix: objects needed by properties of a grid derived
 into a new epc file

---
 resqpy/derived_model/_common.py       | 19 ++++++++++++++-----
 resqpy/derived_model/_refined_grid.py |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index a819f3f..0a08e0b 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -67,14 +67,22 @@ def _prepare_simple_inheritance(grid, source_grid, inherit_properties, inherit_r
             collection.set_grid(grid)
             collection.extend_imported_list_copying_properties_from_other_grid_collection(
                 source_collection, realization = inherit_realization, copy_all_realizations = inherit_all_realizations)
-        if source_grid.model is not grid.model:
-            uuids = source_collection.time_series_uuid_list(sort_list = False)
-            uuids += source_collection.string_lookup_uuid_list(sort_list = False)
-            for uuid in uuids:
-                grid.model.copy_uuid_from_other_model(source_grid.model, uuid)
+            _copy_property_dependencies(collection, source_grid.model, grid.model)
     return collection
 
 
+def _copy_property_dependencies(collection, from_model, to_model):
+    """Copies objects referred to by properties in a collection's imported list to a model, if not already there."""
+
+    if collection is None or from_model is None or from_model is to_model:
+        return
+    for entry in collection.imported_list:
+        # local property kind, time series and string lookup
+        for uuid in (entry[16], entry[19], entry[20]):
+            if uuid is not None and to_model.part_for_uuid(uuid) is None:
+                to_model.copy_uuid_from_other_model(from_model, uuid)
+
+
 def _ext_uuid_for_grid(model, grid):
     """Returns uuid of hdf5 external part used for grid points, or None for a regular grid (without explicit points)."""
 
@@ -155,6 +163,7 @@ def _write_grid(epc_file,
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
+        _copy_property_dependencies(property_collection, working_model, model)
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index beb71d6..39253b7 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -118,6 +118,7 @@ def refined_grid(epc_file,
     collection = None
     if inherit_properties:
         collection = _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inherit_all_realizations)
+        rqdm_c._copy_property_dependencies(collection, source_grid.model, model)
 
     if set_parent_window:
         _set_parent_window(set_parent_window, source_grid, grid, fine_coarse)
-- 
2.43.0


From ed7c8680696c560fbe0b60d8866f09ac5a9c2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 161/231] fix: pillar geometry is defined flags for a box on
 one side of a fault

---
 resqpy/derived_model/_extract_box.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index b21defe..8f16d40 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -270,6 +270,12 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
                 local_cols_cl.append(len(local_cols_list))
     k_points = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1]
     base_points = k_points[:, base_lines, :]
+    if getattr(grid, 'array_pillar_geometry_is_defined', None) is not None:
+        # where a split coordinate line has become a primary pillar in the box, reassess whether geometry is defined
+        promoted = (base_lines >= source_base_pillar_count)
+        flags = grid.array_pillar_geometry_is_defined.reshape(-1)
+        flags[promoted] = np.any(np.all(np.logical_not(np.isnan(base_points[:, promoted])), axis = 2), axis = 0)
+        grid.geometry_defined_for_all_pillars_cached = bool(np.all(flags))
     if len(extra_lines) == 0:  # there are no split pillars in the box
         log.debug('box does not contain any split pillars')
         grid.points_cached = base_points.reshape(grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3)
-- 
2.43.0


From c71d40c7c1e32f1d50b583bd26bb134e458bb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 162/231] fix: zone layer ranges extending beyond the base of
 the source grid

---
 resqpy/derived_model/_zonal_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 8cfbf90..86e632c 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -83,6 +83,9 @@ def zonal_grid(epc_file,
                                                                           k0_min,
                                                                           k0_max,
                                                                           use_dominant_zone = use_dominant_zone)
+        # any layers beyond the base of the source grid are disregarded
+        zone_layer_range_list = [(zk0_min, min(zk0_max, source_grid.nk - 1), zone)
+                                 for (zk0_min, zk0_max, zone) in zone_layer_range_list]
         zone_count = len(zone_layer_range_list)
         # above is list of (zone_min_k0, zone_max_k0, zone) sorted by zone_min_k0
         log.info('following layer ranges are based on top layer being numbered 1 (simulator protocol)')
-- 
2.43.0


From ab9df65df1031d0877cdcd48f5c15452200b7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 163/231] fix: area() of a convex polyline is that of the
 polygon in the xy plane, whatever its z values

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index dbc3228..121c1b5 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -801,7 +801,7 @@ class Polyline(rql_c._BasePolyline):
             centre = np.mean(self.coordinates, axis = 0)
             a = 0.0
             for node in range(len(self.coordinates)):
-                a += vu.area_of_triangle(centre, self.coordinates[node - 1], self.coordinates[node])
+                a += vu.area_of_triangle(centre[:2], self.coordinates[node - 1, :2], self.coordinates[node, :2])
         else:  # use a regular 2D sampling of points to determine approx area
             xy_box = np.zeros((2, 2), dtype = float)
             xy_box[0] = np.min(self.coordinates[:, :2], axis = 0)
-- 
2.43.0


From 69e085d328f54a4eac80d5641b3599d49a134e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 164/231] fix: sense of a closed polyline found from whole
 polygon, consistent for right handed xy axes; normals outward

---
 resqpy/lines/_polyline.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 121c1b5..8af38dd 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -324,6 +324,8 @@ class Polyline(rql_c._BasePolyline):
             if cw_bool is None:
                 result = False  # whole polyline lies in a straight line
             if result:
+                if rqc.Crs(self.model, uuid = self.crs_uuid).is_right_handed_xy():
+                    cw_bool = not cw_bool
                 extras['is_clockwise'] = str(cw_bool).lower()
         extras['is_convex'] = str(result).lower()
         self.append_extra_metadata(extras)
@@ -335,9 +337,7 @@ class Polyline(rql_c._BasePolyline):
         assert self.isclosed, 'Polyline.is_clockwise() called for open polyline (only applicable to closed polylines)'
         if trust_metadata and self.extra_metadata is not None and 'is_clockwise' in self.extra_metadata.keys():
             return str(self.extra_metadata['is_clockwise']).lower() == 'true'
-        centre = np.mean(self.coordinates, axis = 0)
-        cw = vu.clockwise(centre, self.coordinates[0], self.coordinates[1])
-        result = (cw > 0.0)
+        result = self._is_clockwise_ignoring_crs()
         crs = rqc.Crs(self.model, uuid = self.crs_uuid)
         if crs.is_right_handed_xy():
             result = not result
@@ -400,9 +400,8 @@ class Polyline(rql_c._BasePolyline):
         normal_vector = np.zeros(3)
         normal_vector[0] = -segment_vector[1]
         normal_vector[1] = segment_vector[0]
-        cw = self.is_clockwise()
-        assert cw is not None, 'polyline is straight'
-        if not cw:
+        assert self.isclosed
+        if not self._is_clockwise_ignoring_crs():
             normal_vector = -normal_vector
         return normal_vector
 
@@ -939,6 +938,12 @@ class Polyline(rql_c._BasePolyline):
         h5_reg.register_dataset(self.uuid, 'points_patch0', self.coordinates)
         h5_reg.write(file_name, mode = mode)
 
+    def _is_clockwise_ignoring_crs(self):
+        # returns True if closed polyline is clockwise with positive y axis being anticlockwise from positive x axis
+        xy = self.coordinates[:, :2] - self.coordinates[0, :2]
+        previous_xy = np.roll(xy, 1, axis = 0)
+        return bool(np.sum(previous_xy[:, 0] * xy[:, 1] - previous_xy[:, 1] * xy[:, 0]) < 0.0)
+
     def _successor(self, segment_index):
         """Returns segment_index + 1; or zero if segment_index is the last segment in a closed polyline."""
 
-- 
2.43.0


From 0e08057d234cefd2568f267feaedcbe97dcd7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 165/231] fix: is_convex() returns False for a closed polyline
 which goes round more than once or doubles back

---
 resqpy/lines/_polyline.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 8af38dd..92747be 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -312,8 +312,12 @@ class Polyline(rql_c._BasePolyline):
         else:
             cw_bool = None
             result = True
+            turn = 0.0
             for node in range(nodes):
                 cw = vu.clockwise(self.coordinates[node - 2], self.coordinates[node - 1], self.coordinates[node])
+                v1 = self.coordinates[node - 1, :2] - self.coordinates[node - 2, :2]
+                v2 = self.coordinates[node, :2] - self.coordinates[node - 1, :2]
+                turn += maths.atan2(abs(cw), np.dot(v1, v2))
                 if cw == 0.0:
                     continue  # striaght line section
                 if cw_bool is None:
@@ -321,8 +325,8 @@ class Polyline(rql_c._BasePolyline):
                 elif cw_bool != (cw > 0.0):
                     result = False
                     break
-            if cw_bool is None:
-                result = False  # whole polyline lies in a straight line
+            if cw_bool is None or turn > 3.0 * maths.pi:
+                result = False  # whole polyline lies in a straight line, or goes round more than once
             if result:
                 if rqc.Crs(self.model, uuid = self.crs_uuid).is_right_handed_xy():
                     cw_bool = not cw_bool
-- 
2.43.0


From b91d7535496b7b64a7c42d68f7968aca1ecc164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 166/231] fix: tangent_vectors() of a closed polyline take
 account of the closing segment

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 92747be..8fd8158 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -764,7 +764,7 @@ class Polyline(rql_c._BasePolyline):
     def tangent_vectors(self):
         """Returns a numpy array of unit length tangent vectors, one for each coordinate in the line."""
 
-        return rql_c.tangents(self.coordinates)
+        return rql_c.tangents(self.coordinates, closed = self.isclosed)
 
     def splined(self,
                 tangent_weight = 'square',
-- 
2.43.0


From e7f7320fb5cf4e7b566a6c2fc7bc1de9678d2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 167/231] fix: polyline set can be loaded from an irap file in
 which the first line has a single point

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index c394523..9545d1e 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -178,7 +178,7 @@ class PolylineSet(rql_c._BasePolyline):
                     closed_array.append(True)
                 else:
                     closed_array.append(False)
-                if i == 0:
+                if self.coordinates is None:
                     self.coordinates = poly
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly))
-- 
2.43.0


From 876a4ee208e42a474d4742758a9dcc0642d3cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 168/231] fix: sticks of a charisma file keep their own points,
 including a final stick of any length

---
 resqpy/lines/_polyline_set.py | 37 ++++++++++++++---------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 9545d1e..2539258 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -195,25 +195,21 @@ class PolylineSet(rql_c._BasePolyline):
         closed_array = []
         if not self.title:
             self.title = os.path.basename(charisma_file).split(".")[0]
-        for i, line in enumerate(inpoints):
+        sticks = []  # list of (stick id, list of points)
+        for line in inpoints:
             line = line.split()
-            coord_entry = np.array([[float(line[3]), float(line[4]), float(line[5])]])
-            if i == 0:
-                self.coordinates = coord_entry
-                stick = line[7]
-                count = 1
-            else:
-                self.coordinates = np.concatenate((self.coordinates, coord_entry))
-                count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
-                        log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
-                        self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
-                    else:
-                        self.count_perpol.append(count - 1)
-                        closed_array.append(False)
-                    count = 1
-                    stick = line[7]
+            if len(sticks) == 0 or sticks[-1][0] != line[7]:
+                sticks.append((line[7], []))
+            sticks[-1][1].append((float(line[3]), float(line[4]), float(line[5])))
+        coordinates = []
+        for _, points in sticks:
+            if len(points) < 2:
+                log.warning(f"Polylines must contain at least 2 points - ignoring point {points[0]}")
+                continue
+            coordinates += points
+            self.count_perpol.append(len(points))
+            closed_array.append(False)
+        self.coordinates = np.array(coordinates, dtype = float).reshape((-1, 3))
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
@@ -478,10 +474,7 @@ class PolylineSet(rql_c._BasePolyline):
         polys = []
         count = 0
         for i in range(len(count_perpol)):
-            if i != len(count_perpol) - 1:
-                subset = coordinates[count:int(count_perpol[i]) + count].copy()
-            else:
-                subset = coordinates[count:int(count_perpol[i]) + count + 1].copy()  # is this correct?
+            subset = coordinates[count:int(count_perpol[i]) + count].copy()
             duplicated_end_points = np.all(np.isclose(subset[0], subset[-1])) and len(subset) > 2
             if closed_array is None:
                 isclosed = duplicated_end_points
-- 
2.43.0


From d1081e61654f121ad3b847a2d553df3465e7633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 169/231] fix: denormalised_xy() in perimeter mode measures
 along the perimeter in the xy plane, as does normalised_xy()

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 8fd8158..048b98f 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -748,7 +748,7 @@ class Polyline(rql_c._BasePolyline):
             if norm_y == 1.0:
                 norm_y = 0.0
             p_xy = np.empty(2)
-            p_xy[:] = self.interpolated_point(norm_y)[:2]
+            p_xy[:] = self.interpolated_point(norm_y, in_xy = True)[:2]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         elif mode == 'circle':
-- 
2.43.0


From 873ccb411b93d5e2af432f4b4b8dd7c62be758d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 170/231] fix: normalised_xy() in square mode is the inverse of
 denormalised_xy()

---
 resqpy/lines/_polyline.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 048b98f..7bc3182 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -646,15 +646,11 @@ class Polyline(rql_c._BasePolyline):
         segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
         assert px is not None
         norm_x, norm_y = None, None
-        if mode == 'square':  # todo: check square mode – looks wrong
-            if px == centre_xy[0]:
-                norm_x = 0.5
-            else:
-                norm_x = 0.5 + 0.5 * (x - centre_xy[0]) / abs(px - centre_xy[0])
-            if py == centre_xy[1]:
-                norm_y = 0.5
-            else:
-                norm_y = 0.5 + 0.5 * (y - centre_xy[1]) / abs(py - centre_xy[1])
+        if mode == 'square':
+            d_xy = np.array((x, y)) - centre_xy
+            dp_xy = np.array((px, py)) - centre_xy
+            # fraction of distance from centre to perimeter becomes fraction of distance to edge of unit square
+            norm_x, norm_y = 0.5 + 0.5 * d_xy / np.max(np.abs(dp_xy))
         elif mode == 'circle':
             d_xy = np.array((x, y)) - centre_xy
             dp_xy = np.array((px, py)) - centre_xy
-- 
2.43.0


From 207c34d2f69c7148e72ac2f77e2fb65d00201b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 171/231] fix: normalised and denormalised xy do not fail for a
 point in line with a node of the polyline

---
 resqpy/lines/_polyline.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 7bc3182..9e630ff 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -643,8 +643,7 @@ class Polyline(rql_c._BasePolyline):
             if mode == 'square':
                 return 0.5, 0.5
             return 0.0, 0.0
-        segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
-        assert px is not None
+        segment, px, py = self._perimeter_point_xy(centre_xy, x, y)
         norm_x, norm_y = None, None
         if mode == 'square':
             d_xy = np.array((x, y)) - centre_xy
@@ -725,8 +724,7 @@ class Polyline(rql_c._BasePolyline):
                 return tuple(centre_xy)
             n_x = (norm_x - 0.5) + centre_xy[0]
             n_y = (norm_y - 0.5) + centre_xy[1]
-            _, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], n_x, n_y, half_segment = True)
-            assert px is not None
+            _, px, py = self._perimeter_point_xy(centre_xy, n_x, n_y)
             fx = abs(norm_x - 0.5)
             fy = abs(norm_y - 0.5)
             f = 2.0 * max(fx, fy)
@@ -752,7 +750,7 @@ class Polyline(rql_c._BasePolyline):
             n_x = centre_xy[0] + maths.cos(theta)
             n_y = centre_xy[1] + maths.sin(theta)
             p_xy = np.empty(2)
-            p_xy[:] = self.first_line_intersection(centre_xy[0], centre_xy[1], n_x, n_y, half_segment = True)[1:]
+            p_xy[:] = self._perimeter_point_xy(centre_xy, n_x, n_y)[1:]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         return x, y
@@ -938,6 +936,16 @@ class Polyline(rql_c._BasePolyline):
         h5_reg.register_dataset(self.uuid, 'points_patch0', self.coordinates)
         h5_reg.write(file_name, mode = mode)
 
+    def _perimeter_point_xy(self, centre_xy, x, y):
+        # returns segment index and x, y of point where line from centre through x, y crosses convex perimeter
+        segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
+        if segment is None:  # line passes through a node and narrowly misses both segments due to rounding
+            v_xy = self.coordinates[:, :2] - centre_xy
+            v_xy /= np.expand_dims(np.sqrt(np.sum(v_xy * v_xy, axis = -1)), axis = -1)
+            segment = np.argmax(np.dot(v_xy, np.array((x, y)) - centre_xy))
+            px, py = self.coordinates[segment, :2]
+        return segment, px, py
+
     def _is_clockwise_ignoring_crs(self):
         # returns True if closed polyline is clockwise with positive y axis being anticlockwise from positive x axis
         xy = self.coordinates[:, :2] - self.coordinates[0, :2]
-- 
2.43.0


From fb680521948c933a8c0ba0f64c10098e1e0e5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 172/231] fix: polyline set can be stored together with its
 individual polylines

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 2539258..d02bfc7 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -368,7 +368,7 @@ class PolylineSet(rql_c._BasePolyline):
                                                               'sourceObject')
                 if self.save_polys:
                     for poly in self.polys:
-                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root_node,
+                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root,
                                                                   'sourceObject')
 
                 ext_part = rqet.part_name_for_object('obj_EpcExternalPartReference', ext_uuid, prefixed = False)
-- 
2.43.0


From c89b37f57c5e15adbd90578b2092ca7090a55b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 173/231] fix: shift_polyline() and flatten_polyline() work

---
 resqpy/lines/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 17d1233..51c91cf 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -82,7 +82,7 @@ def shift_polyline(parent_model, poly_root, xyz_shift = (0, 0, 0), title = ''):
 
     from resqpy.lines._polyline import Polyline
 
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
@@ -100,7 +100,7 @@ def flatten_polyline(parent_model, poly_root, axis = "z", value = 0.0, title = '
     axis = axis.lower()
     value = float(value)
     assert axis in ["x", "y", "z"], 'Axis must be x, y or z'
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
-- 
2.43.0


From 3a14ee06eb5ab96e898e92ef3c21670bd036391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 174/231] fix: closed polylines stay closed, and equal
 polylines are all kept, when converted to irap format

---
 resqpy/lines/_polyline_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index d02bfc7..e2c0b88 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -579,11 +579,14 @@ class PolylineSet(rql_c._BasePolyline):
         """
 
         end_of_line = np.array([[999.0, 999.0, 999.0]])
+        out_coords = None
         for poly in self.polys:
-            if poly == self.polys[0]:
+            if out_coords is None:
                 out_coords = poly.coordinates
             else:
                 out_coords = np.concatenate((out_coords, poly.coordinates))
+            if poly.isclosed and not vu.isclose(poly.coordinates[0], poly.coordinates[-1]):
+                out_coords = np.concatenate((out_coords, poly.coordinates[:1]))  # irap format repeats the first point
             out_coords = np.concatenate((out_coords, end_of_line))
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
-- 
2.43.0


From 117130703bb10cb211f0ca509c1f88074540a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 175/231] fix: closed flags are set correctly if xml for a
 polyline set is created before writing to hdf5

---
 resqpy/lines/_polyline_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index e2c0b88..ed2742f 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -102,6 +102,7 @@ class PolylineSet(rql_c._BasePolyline):
                 else:
                     self.title = polylines[0].title
             self.combine_polylines(polylines)
+            self.bool_array_format()
         elif irap_file is not None:  # Create from an input IRAP file
             if crs_uuid is None:
                 log.warning(f'applying generic model CRS when loading polylines from IRAP file: {irap_file}')
-- 
2.43.0


From 1bab01a9c1679f78c9e39aa31c13b0943502a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 176/231] fix: interpretation referred to by a polyline or
 polyline set is given its own type, eg. geobody boundary

---
 resqpy/lines/_polyline.py     | 7 +------
 resqpy/lines/_polyline_set.py | 5 +----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 9e630ff..6e6798b 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -864,12 +864,7 @@ class Polyline(rql_c._BasePolyline):
 
         if self.rep_int_root is not None:
             rep_int = self.rep_int_root
-            if "FaultInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_FaultInterpretation'
-            elif "HorizonInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_HorizonInterpretation'
-            else:
-                content_type = 'obj_BoundaryFeatureInterpretation'
+            content_type = 'obj_' + rqet.node_type(rep_int, strip_obj = True)
             self.model.create_ref_node('RepresentedInterpretation',
                                        rqet.citation_title_for_node(rep_int),
                                        rep_int.attrib['uuid'],
diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index ed2742f..0b9edaf 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -265,10 +265,7 @@ class PolylineSet(rql_c._BasePolyline):
 
         if self.rep_int_root is not None:
             rep_int = self.rep_int_root
-            if "FaultInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_FaultInterpretation'
-            else:
-                content_type = 'obj_HorizonInterpretation'
+            content_type = 'obj_' + rqet.node_type(rep_int, strip_obj = True)
             self.model.create_ref_node('RepresentedInterpretation',
                                        rqet.citation_title_for_node(rep_int),
                                        rep_int.attrib['uuid'],
-- 
2.43.0


From d76230fec899186f9617475c5b3073451b75afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 177/231] fix: max_face_count_for_any_cell() works for an
 unstructured grid with a single cell

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..1b69219 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -453,7 +453,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of faces in use by any one cell."""
 
         self.cache_all_geometry_arrays()
-        return max(self.faces_per_cell_cl[0], np.max(self.faces_per_cell_cl[1:] - self.faces_per_cell_cl[:-1]))
+        return np.max(np.diff(self.faces_per_cell_cl, prepend = 0))
 
     def node_count_for_face(self, face_index):
         """Returns the number of nodes for a particular face."""
@@ -466,7 +466,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of nodes in use by any one face."""
 
         self.cache_all_geometry_arrays()
-        return max(self.nodes_per_face_cl[0], np.max(self.nodes_per_face_cl[1:] - self.nodes_per_face_cl[:-1]))
+        return np.max(np.diff(self.nodes_per_face_cl, prepend = 0))
 
     def node_indices_for_face(self, face_index):
         """Returns numpy list of node indices for a single face.
-- 
2.43.0


From 77f30330c8e6a92aef873f416e3dc2a0b3304d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 178/231] fix: planar_face_points() returns points in the plane
 of the face

---
 resqpy/unstructured/_unstructured_grid.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 1b69219..78b4626 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -681,7 +681,6 @@ class UnstructuredGrid(BaseResqpy):
         crs = rqc.Crs(self.model, uuid = self.crs_uuid)
         self.cache_all_geometry_arrays()
         face_centre = self.face_centre_point(face_index)
-        z_centre = face_centre[2]
         assert np.all(self.node_indices_for_face(face_index) >= 0)  # debug
         assert np.all(self.node_indices_for_face(face_index) < self.node_count)  # debug
         face_points = self.points_cached[self.node_indices_for_face(face_index), :].copy()
@@ -692,13 +691,13 @@ class UnstructuredGrid(BaseResqpy):
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
         vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
-        face_points[..., 2] = 0.0
-        if not xy_plane:
-            face_centre[2] = 0.0
+        if xy_plane:
+            face_points[..., 2] = 0.0
+        else:
+            face_points[..., 2] = face_centre[2]
             vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
-            face_points[..., 2] += z_centre
         return face_points
 
     def face_triangulation(self, face_index, local_nodes = False):
-- 
2.43.0


From 220bb6feb1cc5613a30ed570c0d55f7fd251fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 179/231] fix: face_centre_point() of an unstructured grid
 works before other geometry has been loaded

---
 resqpy/unstructured/_unstructured_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 78b4626..45ff8c0 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -440,6 +440,7 @@ class UnstructuredGrid(BaseResqpy):
            its barycentre
         """
 
+        self.cache_all_geometry_arrays()
         return np.mean(self.points_cached[self.node_indices_for_face(face_index)], axis = 0)
 
     def face_count_for_cell(self, cell):
-- 
2.43.0


From 86fc7a683f0254eec6fe7826a15d5cdaf40b1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 180/231] fix: off_handed() handles a crs with any axis order

---
 resqpy/grid/_grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index 4bd8b3c..71c0b4b 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -524,9 +524,7 @@ class Grid(BaseResqpy):
         if self.crs is None:
             assert self.crs_uuid is not None
             self.crs = rqc.Crs(self.model, uuid = self.crs_uuid)
-        assert self.crs.axis_order == 'easting northing'
-        # note: if z increases downwards, xyz is left handed
-        return ijk_right_handed == self.z_inc_down()
+        return ijk_right_handed != self.crs.is_right_handed_xyz()
 
     def write_nexus_corp(self,
                          file_name,
-- 
2.43.0


From f8ac9097716a991f6de54c4c01f88554b28a42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 181/231] fix: handedness of cell faces in hexa grid derived
 from ijk grid, when z increases upwards

---
 resqpy/unstructured/_hexa_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..9eb033f 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -191,7 +191,7 @@ class HexaGrid(rug.UnstructuredGrid):
         hexa_grid.cell_face_is_right_handed = np.zeros(6 * hexa_grid.cell_count,
                                                        dtype = bool)  # initially set to left handed
         # if IJK grid's ijk handedness matches the xyz handedness, then set +ve faces to right handed; else -ve faces
-        if ijk_grid.off_handed():
+        if ijk_grid.extract_grid_is_right_handed():
             hexa_grid.cell_face_is_right_handed[0::2] = True  # negative faces are right handed
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
-- 
2.43.0


From c0b777cc66fdc5749edaf03e5858398430fb3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 182/231] fix: hexa grid inherits inactive mask of ijk grid
 even if not inheriting properties

---
 resqpy/unstructured/_hexa_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 9eb033f..ea24a80 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -89,7 +89,7 @@ class HexaGrid(rug.UnstructuredGrid):
         import resqpy.grid as grr
 
         # establish existing IJK grid
-        ijk_grid = grr.Grid(parent_model, uuid = grid_uuid, find_properties = inherit_properties)
+        ijk_grid = grr.Grid(parent_model, uuid = grid_uuid)
         assert ijk_grid is not None
         assert not ijk_grid.has_split_coordinate_lines, 'IJK grid has split coordinate lines (faults)'
         assert not ijk_grid.k_gaps, 'IJK grid has K gaps'
-- 
2.43.0


From bbda361b1f3b667b985011c5fb59931e0a2f2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 183/231] fix: hexa grid inherits constant properties

---
 resqpy/unstructured/_hexa_grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index ea24a80..8c8dde1 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -205,8 +205,10 @@ class HexaGrid(rug.UnstructuredGrid):
             for part in ijk_pc.parts():
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
+                const_value = ijk_pc.constant_value_for_part(part)
+                a = None if const_value is not None else ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape)
                 hexa_pc.add_cached_array_to_imported_list(
-                    ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape),
+                    a,
                     'inherited from grid ' + str(ijk_grid.title),
                     ijk_pc.citation_title_for_part(part),
                     discrete = not ijk_pc.continuous_for_part(part),
@@ -220,7 +222,7 @@ class HexaGrid(rug.UnstructuredGrid):
                     realization = ijk_pc.realization_for_part(part),
                     indexable_element = ijk_pc.indexable_for_part(part),
                     count = count,
-                    const_value = ijk_pc.constant_value_for_part(part))
+                    const_value = const_value)
                 # todo: patch min & max values if present in ijk part
                 hexa_pc.write_hdf5_for_imported_list()
                 hexa_pc.create_xml_for_imported_list_and_add_parts_to_model(
-- 
2.43.0


From bf3016009c965efefb0edcd8056896a7de127185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 184/231] fix: column_count() works for a vertical prism grid
 with a single layer

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index d1bce3d..bb36947 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -412,7 +412,7 @@ class VerticalPrismGrid(PrismGrid):
     def column_count(self):
         """Returns the number of columns in the grid."""
 
-        assert self.nk > 1, 'no layer information set for vertical prism grid'
+        assert self.nk is not None and self.nk > 0, 'no layer information set for vertical prism grid'
         n_col, remainder = divmod(self.cell_count, self.nk)
         assert remainder == 0, 'code failure for vertical prism grid: cell and layer counts not compatible'
         return n_col
-- 
2.43.0


From 2935fd6bc39884c91b0217bc8c8950b0e82d4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 185/231] fix: cell_centre_point() and centre_point() return a
 single point for an individual cell of a vertical prism grid

---
 resqpy/unstructured/_prism_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index bb36947..79dfecc 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,6 +428,8 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
+        if cell is not None:
+            return np.mean(cp.reshape((6, 3)), axis = 0)
         return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
 
     def corner_points(self, cell = None):
-- 
2.43.0


From 370d62777da209168311430afb1ec43682db1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 186/231] fix: rotation_matrix_3d_vector() handles the negative
 z axis

---
 resqpy/olio/vector_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 1548e83..9455450 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -449,6 +449,8 @@ def rotation_matrix_3d_vector(v):
        the returned matrix will map a positive z axis vector onto v
     """
     v = v / np.linalg.norm(v)
+    if v[2] < -1.0 + 1.0e-12:  # v is vertical, in negative direction
+        return np.array([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
     rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
 
@@ -464,6 +466,8 @@ def rotation_matrix_3d_vector_njit(v):  # pragma: no cover
        the returned matrix will map a positive z axis vector onto v
     """
     v = v / np.linalg.norm(v)
+    if v[2] < -1.0 + 1.0e-12:  # v is vertical, in negative direction
+        return np.array([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
     rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
 
-- 
2.43.0


From 8f9fee555714575431bced48e7e75eae84d13097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 187/231] fix: handedness is set for a tetra grid derived from
 a tetrahedral cell

---
 resqpy/unstructured/_tetra_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_tetra_grid.py b/resqpy/unstructured/_tetra_grid.py
index 06795da..8c59c01 100644
--- a/resqpy/unstructured/_tetra_grid.py
+++ b/resqpy/unstructured/_tetra_grid.py
@@ -269,8 +269,9 @@ class TetraGrid(rug.UnstructuredGrid):
             tetra.nodes_per_face = np.array(t_face_list, dtype = int).flatten()
 
             tetra.cell_face_is_right_handed = np.ones(len(tetra.faces_per_cell), dtype = bool)
-            if set_handedness:
-                tetra.set_cell_face_is_right_handed_from_geometry()
+
+        if set_handedness:
+            tetra.set_cell_face_is_right_handed_from_geometry()
 
         tetra.check_tetra()
 
-- 
2.43.0


From d08119896f74314c8f0efe7a43aed0f5062ef2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 188/231] fix: planar approximation of a face which is neither
 horizontal nor vertical

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 45ff8c0..05f1731 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -691,12 +691,12 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         if xy_plane:
             face_points[..., 2] = 0.0
         else:
             face_points[..., 2] = face_centre[2]
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
         return face_points
-- 
2.43.0


From 9c5f017aaef83c937c4a85773d11bc8a977c501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:45 +0000
Subject: [PATCH 189/231] fix: active property is added to model for hexa grid
 derived from ijk grid with inactive cells

---
 resqpy/unstructured/_hexa_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 8c8dde1..10f04cd 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -197,7 +197,7 @@ class HexaGrid(rug.UnstructuredGrid):
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
 
         hexa_grid.write_hdf5(write_active = write_active)
-        hexa_grid.create_xml(write_active = write_active)
+        hexa_grid.create_xml(write_active = write_active is None or write_active)
 
         if inherit_properties:
             ijk_pc = ijk_grid.extract_property_collection()
-- 
2.43.0


From aafde9f6770d300691fc80e5839e772416bdf2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 190/231] fix: measured depth column name is honoured when
 loading a wellbore marker frame from a dataframe

---
 resqpy/well/_wellbore_marker_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index d7c7171..475477b 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -158,7 +158,7 @@ class WellboreMarkerFrame(BaseResqpy):
                                     originator = originator,
                                     extra_metadata = extra_metadata)
         wellbore_marker_frame.node_count = len(dataframe)
-        wellbore_marker_frame.node_mds = np.array(dataframe['MD'])
+        wellbore_marker_frame.node_mds = np.array(dataframe[md_col])
         wellbore_marker_frame.marker_list = marker_list
         # check that the number of measured depths matches the node count and the number of markers
         assert wellbore_marker_frame.node_count == wellbore_marker_frame.node_mds.shape[0] == len(marker_list)
-- 
2.43.0


From 08a898e49e795a5f376e34fc7bab45cf41105e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 191/231] fix: marker index is position in wellbore marker
 frame, whatever the index of the dataframe

---
 resqpy/well/_wellbore_marker_frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 475477b..94b8c53 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -134,8 +134,7 @@ class WellboreMarkerFrame(BaseResqpy):
 
         # create a wellbore marker object for each of the rows of the dataframe
         marker_list = []
-        for i, row in dataframe.iterrows():
-            row_index = i
+        for row_index, (_, row) in enumerate(dataframe.iterrows()):
             row_marker_type = row[boundary_feature_type_col].lower()
             row_interp_uuid = WellboreMarkerFrame.__parse_dataframe_row_for_interp_uuid(
                 parent_model = parent_model,
-- 
2.43.0


From 34fbf89681816e1dd4445f5cff964defaf1373e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 192/231] fix: geobody markers in a wellbore marker frame

---
 resqpy/well/_wellbore_marker.py       | 3 ++-
 resqpy/well/_wellbore_marker_frame.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_wellbore_marker.py b/resqpy/well/_wellbore_marker.py
index 2dc03ec..369e052 100644
--- a/resqpy/well/_wellbore_marker.py
+++ b/resqpy/well/_wellbore_marker.py
@@ -125,7 +125,8 @@ class WellboreMarker():
         wbm_gb_node.text = str(self.marker_type)
 
         if self.interpretation_uuid is not None:
-            interp_content_type = 'obj_' + self.marker_type.capitalize() + 'Interpretation'
+            boundary_name = 'GeobodyBoundary' if self.marker_type == 'geobody' else self.marker_type.capitalize()
+            interp_content_type = 'obj_' + boundary_name + 'Interpretation'
             interp_root = self.model.root_for_uuid(uuid = self.interpretation_uuid)
             self.model.create_ref_node(flavour = 'Interpretation',
                                        title = rqet.find_tag(rqet.find_tag(interp_root, 'Citation'), 'Title').text,
diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 94b8c53..58b1a57 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -171,7 +171,8 @@ class WellboreMarkerFrame(BaseResqpy):
 
         row_marker_type = row_marker_type.lower()
         if row_marker_type in ['horizon', 'fault', 'geobody']:
-            row_interp_type = 'obj_' + row_marker_type.capitalize() + 'Interpretation'
+            boundary_name = 'GeobodyBoundary' if row_marker_type == 'geobody' else row_marker_type.capitalize()
+            row_interp_type = 'obj_' + boundary_name + 'Interpretation'
         else:
             row_interp_type = None
         try:
@@ -200,7 +201,8 @@ class WellboreMarkerFrame(BaseResqpy):
         if feature_type == 'fault':
             tbf = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = feature_name)
         else:
-            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_type, feature_name = feature_name)
+            kind = 'geobody boundary' if feature_type == 'geobody' else feature_type
+            tbf = rqo.GeneticBoundaryFeature(model, kind = kind, feature_name = feature_name)
         tbf.create_xml(reuse = True)
         if feature_type == 'fault':
             fi = rqo.FaultInterpretation(model, tectonic_boundary_feature = tbf, is_normal = True)
-- 
2.43.0


From bb1ed1c8bc107064a86c53cae4969f8031a87328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 193/231] fix: wellbore marker without an interpretation title
 in dataframe has no interpretation

---
 resqpy/well/_wellbore_marker_frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 58b1a57..f6d2c4f 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -178,6 +178,8 @@ class WellboreMarkerFrame(BaseResqpy):
         try:
             if row_interp_type is not None:
                 row_interp_citation_title = row[interp_citation_title_col]
+                if pd.isnull(row_interp_citation_title):  # no interpretation for this marker
+                    return None
                 row_interp_uuid = parent_model.uuid(obj_type = row_interp_type, title = row_interp_citation_title)
                 if row_interp_uuid is None:
                     if create_organizing_objects_where_needed:
-- 
2.43.0


From b6ee83f071435cf7797efc1ac88e6fb4a96ce677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:27 +0000
Subject: [PATCH 194/231] fix: logs can be imported from and exported to las
 for a trajectory without a wellbore interpretation

---
 resqpy/property/well_log_collection.py | 3 ++-
 resqpy/well/well_object_funcs.py       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/well_log_collection.py b/resqpy/property/well_log_collection.py
index 6ca9684..6819037 100644
--- a/resqpy/property/well_log_collection.py
+++ b/resqpy/property/well_log_collection.py
@@ -160,7 +160,8 @@ class WellLogCollection(rqp_pc.PropertyCollection):
         """
         las = lasio.LASFile()
 
-        las.well.WELL = str(self.support.wellbore_interpretation.title)
+        interp = self.support.wellbore_interpretation
+        las.well.WELL = str(self.support.trajectory.title if interp is None else interp.title)
         las.well.DATE = datetime.today().strftime('%Y-%m-%d %H:%M:%S')
 
         # todo: Get UWI from somewhere
diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index a954916..10b1da5 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -322,7 +322,7 @@ def add_las_to_trajectory(las: lasio.LASFile, trajectory, realization = None, ch
     # Lookup relevant related resqml parts
     model = trajectory.model
     well_interp = trajectory.wellbore_interpretation
-    well_title = well_interp.title
+    well_title = well_name(trajectory) if well_interp is None else well_interp.title
 
     if check_well_name and well_title != las.well.WELL.value:
         warnings.warn(f'LAS well title {las.well.WELL.value} does not match resqml tite {well_title}')
-- 
2.43.0


From 285e4d71815e44ba42e7b88c65eba46fc763fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 195/231] fix: properties are put in order of faces when there
 are no duplicates

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 8936ae9..3207bf3 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2331,7 +2331,7 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
+    if no_props and np.all(m):
         return a
     if not no_props:
         for i in range(len(props)):
-- 
2.43.0


From 74f72027676bf1caf5f5a559f1373dc2be6e1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 196/231] fix: grid shadow for a surface with no K faces

---
 resqpy/grid_surface/_find_faces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 153c34b..5a0e758 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1571,6 +1571,8 @@ def shadow_from_face_indices(extent_kji, kji0):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if kji0 is None or len(kji0) == 0:
+        return shadow
     shadow[kji0[:, 0], kji0[:, 1], kji0[:, 2]] = 1
     shadow[kji0[:, 0] + 1, kji0[:, 1], kji0[:, 2]] += 2
     for _ in range(limit):
@@ -1607,6 +1609,8 @@ def shadow_from_faces(extent_kji, k_faces):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if k_faces is None:
+        return shadow
     shadow[:-1] = np.where(k_faces, 1, 0)
     shadow[1:] += np.where(k_faces, 2, 0)
     for _ in range(limit):
-- 
2.43.0


From 83d487e6201334ca8f79e94acb903ba4c5f43d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 197/231] fix: depth property of J and I faces found for a
 surface is the z value

---
 resqpy/grid_surface/_find_faces.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 5a0e758..94539e6 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1067,9 +1067,8 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             j_faces_kji0[:, 2] = j_hits[:, 2]
             if return_offsets:
                 j_offsets = (j_depths - j_faces.astype(np.float64) - 0.5) * dy
-            if return_depths:
-                j_depths[:] += 0.5
-                j_depths[:] *= dy
+            if return_depths:  # z value is that of the layer of cell centres
+                j_depths = (j_hits[:, 1].astype(np.float64) + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1119,9 +1118,8 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             i_faces_kji0[:, 2] = i_faces
             if return_offsets:
                 i_offsets = (i_depths - i_faces.astype(np.float64) - 0.5) * dx
-            if return_depths:
-                i_depths[:] += 0.5
-                i_depths[:] *= dx
+            if return_depths:  # z value is that of the layer of cell centres
+                i_depths = (i_hits[:, 1].astype(np.float64) + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
-- 
2.43.0


From d8b45e03c8db4509e639fff351d441a8358b9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 198/231] fix: J face pairs are on the same sides as K and I
 face pairs

---
 resqpy/grid_surface/_find_faces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 94539e6..bf94bce 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -351,7 +351,7 @@ def find_faces_to_represent_surface_regular(
             (t_count, grid.nk, grid.ni))
         del j_centres
         if consistent_side:
-            cwt = vec.clockwise_triangles(p, t, projection = "xz") >= 0.0
+            cwt = vec.clockwise_triangles(p, t, projection = "xz") <= 0.0  # opposite sense to xy & yz projections
         for j_t, j_k, j_i in np.stack(np.where(j_hits), axis = -1):
             xyz = meet.line_triangle_intersect(
                 centres[j_k, 0, j_i],
-- 
2.43.0


From 2fa1a28df93933756b994195fea2328c281c0f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 199/231] fix: offsets for a surface in a grid with a single
 cell in an axis

---
 resqpy/grid_surface/_find_faces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index bf94bce..d804f17 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -334,6 +334,7 @@ def find_faces_to_represent_surface_regular(
     else:
         k_faces = None
         k_sides = None
+        k_offsets = None
         k_normals = None
 
     if progress_fn is not None:
@@ -384,6 +385,7 @@ def find_faces_to_represent_surface_regular(
     else:
         j_faces = None
         j_sides = None
+        j_offsets = None
         j_normals = None
 
     if progress_fn is not None:
@@ -434,6 +436,7 @@ def find_faces_to_represent_surface_regular(
     else:
         i_faces = None
         i_sides = None
+        i_offsets = None
         i_normals = None
 
     if progress_fn is not None:
-- 
2.43.0


From 6b28fc1e40d78d08a8aa0c904dca5ce8533825d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 200/231] fix: finding faces does not change the crs, nor the
 points, of the surface

---
 resqpy/grid_surface/_find_faces.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index d804f17..f7c5d78 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -262,7 +262,7 @@ def find_faces_to_represent_surface_regular(
         log.debug("making all triangles clockwise")
         # note: following will shuffle order of vertices within t cached in surface
         surface.make_all_clockwise_xy(reorient = True)
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     assert t is not None and p is not None, f"surface {surface.title} is empty"
     if agitate:
         if random_agitation:
@@ -276,7 +276,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -605,7 +604,7 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         grid.block_dxyz_dkji[1, 1],
         grid.block_dxyz_dkji[0, 2],
     )
-    triangles, points = surface.triangles_and_points()
+    triangles, points = surface.triangles_and_points(copy = True)
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
     if agitate:
@@ -621,7 +620,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -986,7 +984,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
-- 
2.43.0


From 1311d821f3cc0c66ffaeb6d22ac2f5a5350af247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 201/231] fix: properties of faces found for a curtain are in
 the order of the faces

---
 resqpy/grid_surface/_find_faces.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index f7c5d78..a33b532 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1073,11 +1073,11 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 j_faces_kji0 = j_faces.reshape((-1, 3))
-                j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
+                j_triangles = np.tile(j_triangles, grid.nk)
                 if return_offsets:
-                    j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
+                    j_offsets = np.tile(j_offsets, grid.nk)
                 if return_depths:
-                    j_depths = np.repeat(j_depths, grid.nk, axis = 0)
+                    j_depths = np.tile(j_depths, grid.nk)
             j_props = []
             if return_triangles:
                 j_props.append(j_triangles)
@@ -1124,11 +1124,11 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 i_faces_kji0 = i_faces.reshape((-1, 3))
-                i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
+                i_triangles = np.tile(i_triangles, grid.nk)
                 if return_offsets:
-                    i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
+                    i_offsets = np.tile(i_offsets, grid.nk)
                 if return_depths:
-                    i_depths = np.repeat(i_depths, grid.nk, axis = 0)
+                    i_depths = np.tile(i_depths, grid.nk)
             i_props = []
             if return_triangles:
                 i_props.append(i_triangles)
-- 
2.43.0


From ac7b60d00d4008b781ea4a0e8dff85999b505fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 202/231] fix: only a bisector which is the same in all layers
 is that of a curtain

---
 resqpy/grid_surface/_find_faces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index a33b532..edbd787 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1934,7 +1934,7 @@ def _shallow_or_curtain(a: np.ndarray, true_count: int, raw: bool) -> bool:
     opposite_mean_k: float = float(opposite_k_sum) / float(a.size - true_count)
     if mean_k > opposite_mean_k and not raw:
         a[:] = np.logical_not(a)
-    if abs(mean_k - opposite_mean_k) <= 0.001:
+    if abs(mean_k - opposite_mean_k) <= 0.001 and np.all(a == a[:1]):
         # log.warning('unable to determine which side of surface is shallower')
         is_curtain = True
     return is_curtain
-- 
2.43.0


From d3489d724b02f4802a2b6a5770dfba2fd5583164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 203/231] fix: normal vectors of a surface where xy and z units
 differ

---
 resqpy/grid_surface/_find_faces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index edbd787..161f785 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -480,7 +480,8 @@ def find_faces_to_represent_surface_regular(
         log.debug(f"gcs count: {gcs.count}; all normals shape: {all_normals.shape}")
         assert all_normals.shape == (gcs.count, 3)
         if grid.crs.xy_units != grid.crs.z_units:
-            wam.convert_lengths(all_normals[:, 2], grid.crs.z_units, grid.crs.xy_units)
+            # note: normals scale inversely with lengths
+            wam.convert_lengths(all_normals[:, 2], grid.crs.xy_units, grid.crs.z_units)
             all_normals = vec.unit_vectors(all_normals)
 
     if progress_fn is not None:
-- 
2.43.0


From 9a84b90e4755769add272e978163295bacd94b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 204/231] fix: column bisector for a grid with a single row or
 column of cells

---
 resqpy/grid_surface/_find_faces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 161f785..98dd4ee 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -831,7 +831,10 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     if return_bisector:
         if is_curtain:
             log.debug("preparing columns bisector")
-            bisector = column_bisector_from_faces((grid.nj, grid.ni), j_faces[0], i_faces[0])
+            bisector = column_bisector_from_faces(
+                (grid.nj, grid.ni),
+                np.zeros((grid.nj - 1, grid.ni), dtype = bool) if j_faces is None else j_faces[0],
+                np.zeros((grid.nj, grid.ni - 1), dtype = bool) if i_faces is None else i_faces[0])
             # log.debug('finished preparing columns bisector')
         else:
             log.debug("preparing cells bisector")
-- 
2.43.0


From 7e50c3ed79ab8b346fae427363bd689f0b4f99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 205/231] fix: reference layer of draping, throw scaling and
 local depth adjustment in grids with k gaps

---
 resqpy/derived_model/_common.py                 | 12 ++++++++++++
 resqpy/derived_model/_drape_to_surface.py       |  5 ++---
 resqpy/derived_model/_fault_throw_scaling.py    | 12 ++++++------
 resqpy/derived_model/_local_depth_adjustment.py |  3 ++-
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index 0a08e0b..baedcf7 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -48,6 +48,18 @@ def _displacement_properties(new_grid, old_grid):
     return displacement_collection
 
 
+def _ref_k_raw(grid, ref_k0, ref_k_faces = 'top'):
+    """Returns the index, in the k axis of the points array, of the top or base interface of a layer."""
+
+    if not grid.k_gaps:
+        k = ref_k0
+    elif ref_k0 == grid.nk:
+        k = grid.nk_plus_k_gaps
+    else:
+        k = int(grid.k_raw_index_array[ref_k0])
+    return k + 1 if ref_k_faces == 'base' else k
+
+
 def _pl(n, use_es = False):
     if n == 1:
         return ''
diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index b4f217a..4c4ab93 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -126,8 +126,7 @@ def drape_to_surface(epc_file,
     log.debug('setting up pillar sample points and directional vectors')
     line_p = unsplit_points[0, :, :, :].reshape((-1, 3))
     line_v = unsplit_points[-1, :, :, :].reshape((-1, 3)) - line_p
-    if ref_k_faces == 'base':
-        ref_k0 += 1
+    ref_k_raw = rqdm_c._ref_k_raw(grid, ref_k0, ref_k_faces)
 
     # access triangulated surface as triangle node indices into array of points
     log.debug('fetching surface points and triangle corner indices')
@@ -157,7 +156,7 @@ def drape_to_surface(epc_file,
 
     # compute a translation vector per pillar
     log.debug('computing translation vectors for pillars')
-    translate = picks - unsplit_points[ref_k0, :, :, :].reshape((-1, 3))
+    translate = picks - unsplit_points[ref_k_raw, :, :, :].reshape((-1, 3))
 
     # shift all points by translation vectors
     _shift_by_translation_vectors(grid, translate)
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 3127b66..c31696c 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -88,9 +88,8 @@ def fault_throw_scaling(epc_file,
     assert source_grid.has_split_coordinate_lines, 'cannot scale fault throws in unfaulted grid'
     assert scaling_factor is not None or (connection_set is not None and scaling_dict is not None)
 
-    if ref_k_faces == 'base':
-        ref_k0 += 1
-    assert ref_k0 >= 0 and ref_k0 <= source_grid.nk, 'reference layer out of range'
+    assert ref_k0 >= 0 and (ref_k0 + 1 if ref_k_faces == 'base' else ref_k0) <= source_grid.nk,  \
+        'reference layer out of range'
 
     # take a copy of the grid
     log.debug('copying grid')
@@ -100,6 +99,7 @@ def fault_throw_scaling(epc_file,
     # todo: handle pillars with no geometry defined, and cells without geometry defined
     assert grid.geometry_defined_for_all_pillars(), 'not all pillars have defined geometry'
 
+    ref_k0 = rqdm_c._ref_k_raw(grid, ref_k0, ref_k_faces)  # index into points array from here on
     primaries = (grid.nj + 1) * (grid.ni + 1)
     offsets = np.zeros(grid.points_cached.shape[1:])
 
@@ -249,7 +249,7 @@ def global_fault_throw_scaling(epc_file,
 def _set_offsets_based_on_scaling_factor(grid, scaling_factor, offsets, ref_k0, primaries):
     # fetch unsplit equivalent of grid points for reference layer interface
     log.debug('fetching unsplit equivalent grid points')
-    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk + 1, -1, 3)
+    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk_plus_k_gaps + 1, -1, 3)
     # determine existing throws on split pillars
     semi_throws = np.zeros(grid.points_cached.shape[1:])  # same throw applied to all layers
     unique_spi = np.unique(grid.split_pillar_indices_cached)
@@ -348,8 +348,8 @@ def _neighbourly_adjustment(grid, offsets, adjusted, cell_range):
                     contributions += 1
             if contributions == 0:
                 continue
-            dxy_dz = ((grid.points_cached[grid.nk, p, :2] - grid.points_cached[0, p, :2]) /
-                      (grid.points_cached[grid.nk, p, 2] - grid.points_cached[0, p, 2]))
+            dxy_dz = ((grid.points_cached[-1, p, :2] - grid.points_cached[0, p, :2]) /
+                      (grid.points_cached[-1, p, 2] - grid.points_cached[0, p, 2]))
             offsets[p, 2] = offset_decay * accum / float(contributions)
             offsets[p, :2] = offsets[p, 2] * dxy_dz
             grid.points_cached[:, p, :] += offsets[p, :].reshape((1, 3))
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 7c3b283..742f2d2 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -110,7 +110,8 @@ def local_depth_adjustment(epc_file,
         nkp1, njp1, nip1, xyz = grid.points_cached.shape
         reshaped_points = grid.points_cached.copy().reshape((nkp1, njp1 * nip1, xyz))
     assert reshaped_points.ndim == 3 and reshaped_points.shape[2] == 3
-    assert ref_k0 >= 0 and ref_k0 < reshaped_points.shape[0]
+    assert ref_k0 >= 0 and ref_k0 <= grid.nk
+    ref_k0 = rqdm_c._ref_k_raw(grid, ref_k0)  # index into points array from here on
 
     log.debug('reshaped_points.shape: ' + str(reshaped_points.shape))
 
-- 
2.43.0


From 8f0e1bd1bba0aa93ee1573aaced3d427ebb981d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 206/231] fix: interpolated grid keeps k gaps of the source
 grids

---
 resqpy/derived_model/_interpolated_grid.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 014d991..a80083f 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -68,6 +68,8 @@ def interpolated_grid(epc_file,
     assert grid_a.k_direction_is_down == grid_b.k_direction_is_down, 'source grids have different k directions'
     assert grid_a.grid_is_right_handed == grid_b.grid_is_right_handed, 'source grids have different ijk handedness'
     assert grid_a.pillar_shape == grid_b.pillar_shape, 'source grids have different resqml pillar shapes'
+    assert bool(grid_a.k_gaps) == bool(grid_b.k_gaps) and (not grid_a.k_gaps or np.all(
+        grid_a.k_gap_after_array == grid_b.k_gap_after_array)), 'source grids have different k gaps'
 
     b_weight = a_to_b_0_to_1
     a_weight = 1.0 - b_weight
@@ -156,6 +158,10 @@ def _inherit_basics(grid, grid_a, grid_b):
     grid.k_direction_is_down = grid_a.k_direction_is_down
     grid.grid_is_right_handed = grid_a.grid_is_right_handed
     grid.pillar_shape = grid_a.pillar_shape
+    grid.k_gaps = grid_a.k_gaps
+    if grid_a.k_gaps:
+        grid.k_gap_after_array = grid_a.k_gap_after_array.copy()
+        grid._set_k_raw_index_array()
     grid.has_split_coordinate_lines = (grid_a.has_split_coordinate_lines or grid_b.has_split_coordinate_lines)
     # inherit the coordinate reference system used by the grid geometry
     grid.crs_uuid = grid_a.crs_uuid
@@ -191,10 +197,13 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
     _close_vertical_voids(grid, grid_cp, grid_a.z_units())
     # reduce cp array extent in k
     log.debug('reducing k extent of interpolated corner point array (sharing points vertically)')
-    k_reduced_cp_array = np.zeros((grid.nk + 1, grid.nj, grid.ni, 2, 2, 3))  # (nk+1, nj, ni, jp, ip, xyz)
+    k_reduced_cp_array = np.zeros((grid.nk_plus_k_gaps + 1, grid.nj, grid.ni, 2, 2, 3))  # (nk+1, nj, ni, jp, ip, xyz)
     k_reduced_cp_array[0, :, :, :, :, :] = grid_cp[0, :, :, 0, :, :, :]
     k_reduced_cp_array[-1, :, :, :, :, :] = grid_cp[-1, :, :, 1, :, :, :]
-    if grid.nk > 1:
+    if grid.k_gaps:
+        k_reduced_cp_array[grid.k_raw_index_array] = grid_cp[:, :, :, 0, :, :, :]
+        k_reduced_cp_array[grid.k_raw_index_array + 1] = grid_cp[:, :, :, 1, :, :, :]
+    elif grid.nk > 1:
         k_reduced_cp_array[1:-1, :, :, :, :, :] = grid_cp[:-1, :, :, 1, :, :, :]
     # create primary pillar reference indices as one of four column corners around pillar, active column preferred
     log.debug('creating primary pillar reference neighbourly indices')
@@ -256,7 +265,7 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
     # create points array as used in resqml
     log.debug('creating points array as used in resqml format')
     if grid.has_split_coordinate_lines:
-        points_array = np.zeros((grid.nk + 1, (grid.nj + 1) * (grid.ni + 1) + len(extras_list), 3))
+        points_array = np.zeros((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1) + len(extras_list), 3))
         index = 0
         # primary pillars
         for pillar_j in range(grid.nj + 1):
@@ -276,7 +285,7 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
                     index += 1
         assert index == (grid.nj + 1) * (grid.ni + 1) + len(extras_list)
     else:  # unsplit pillars
-        points_array = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1, 3))
+        points_array = np.zeros((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3))
         for j in range(grid.nj + 1):
             for i in range(grid.ni + 1):
                 (jp, ip) = primary_pillar_jip[j, i]
@@ -327,6 +336,8 @@ def _add_split_pillars_for_extras(grid, extras_count, extras_use, extras_list):
 def _close_vertical_voids(grid, grid_cp, z_units):
     if grid.nk > 1:
         z_gap = grid_cp[1:, :, :, 0, :, :, :] - grid_cp[:-1, :, :, 1, :, :, :]
+        if grid.k_gaps:
+            z_gap[grid.k_gap_after_array] = 0.0  # leave k gaps in place
         max_gap = np.max(np.abs(z_gap))
         log.info('maximum vertical void distance after corner point interpolation: {0:.3f} {1}'.format(
             max_gap, z_units))
-- 
2.43.0


From ba9f46d2221fb5d8e45ed4154a9aac3a18789468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 207/231] fix: displacement properties of derived grids are
 stored when properties are inherited too

---
 resqpy/derived_model/_drape_to_surface.py       | 2 +-
 resqpy/derived_model/_fault_throw_scaling.py    | 2 +-
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 resqpy/derived_model/_tilted_grid.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 4c4ab93..0c210c7 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -177,7 +177,7 @@ def drape_to_surface(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid flexed from ' + str(rqet.citation_title_for_node(source_grid.root))
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index c31696c..7003b5f 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -141,7 +141,7 @@ def fault_throw_scaling(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid with fault throws scaled by ' + str(scaling_factor) + ' from ' +  \
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 742f2d2..abde94d 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -167,7 +167,7 @@ def local_depth_adjustment(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid derived from {0} with local depth shift of {1:3.1f} applied'.format(
diff --git a/resqpy/derived_model/_tilted_grid.py b/resqpy/derived_model/_tilted_grid.py
index cd347f1..efe7ba6 100644
--- a/resqpy/derived_model/_tilted_grid.py
+++ b/resqpy/derived_model/_tilted_grid.py
@@ -82,7 +82,7 @@ def tilted_grid(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'tilted version ({0:4.2f} degree dip) of '.format(abs(dip)) + str(
-- 
2.43.0


From c22b64f5985cad789ff082369889bc8b4ec2be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 208/231] fix: connection set for faults added to a grid in a
 new file

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..24558e0 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -269,7 +269,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
-- 
2.43.0


From 89a375159001e5de46ccccc97338a4f642d1ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 209/231] fix: direction of pillars in a grid with one layer
 when adding faults

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 24558e0..4ff2c7b 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -231,7 +231,7 @@ def _pillar_vector(grid, p_index):
     k_top = 0
     while np.any(np.isnan(grid.points_cached[k_top, p_index])):
         k_top += 1
-    k_bot = grid.nk_plus_k_gaps - 1
+    k_bot = grid.nk_plus_k_gaps
     while np.any(np.isnan(grid.points_cached[k_bot, p_index])):
         k_bot -= 1
     if k_bot == k_top:  # following coded to treat None directions as downwards
-- 
2.43.0


From 38a1bab15e083146c8e4cc46b4329f7d268afc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 210/231] fix: box around a column given by x, y location

---
 resqpy/derived_model/_extract_box_for_well.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 51185ff..935afcc 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -112,7 +112,8 @@ def extract_box_for_well(epc_file = None,
     if max_k0 is None:
         max_k0 = source_grid.nk - 1
     assert 0 <= min_k0 <= max_k0 < source_grid.nk
-    assert trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None
+    assert (trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None or
+            column_xy is not None)
     if radius is None:
         radius = 0.0  # cells directly penetrated through a k face will still be included
     assert radius >= 0.0
@@ -356,7 +357,7 @@ def _check_column(source_grid, column_ji0, column_xy, well_name):
         column_ji0 = source_grid.find_cell_for_point_xy(column_xy[0], column_xy[1])
         if column_ji0[0] is None or column_ji0[1] is None:
             log.error('no column found for x, y: ' + str(column_xy[0]) + ', ' + str(column_xy[1]))
-        return None, None
+            return None, None
     assert len(column_ji0) == 2
     assert 0 <= column_ji0[0] < source_grid.nj and 0 <= column_ji0[1] < source_grid.ni
     if not well_name:
-- 
2.43.0


From cc7d607ffb61825c3933cac0d1dc7ee7075d2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 211/231] fix: named fault with a throw scaling factor of one
 is not subject to the global factor

---
 resqpy/derived_model/_fault_throw_scaling.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 7003b5f..57a2839 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -273,8 +273,6 @@ def _set_offsets_based_on_scaling_dict(grid, connection_set, scaling_dict, offse
         if fault_name not in scaling_dict:
             continue  # no scaling for this fault
         fault_scaling = scaling_dict[fault_name]
-        if fault_scaling == 1.0:
-            continue
         log.info('scaling throw on fault ' + fault_name + ' by factor of: {0:.4f}'.format(fault_scaling))
         kelp_j, kelp_i = connection_set.simplified_sets_of_kelp_for_feature_index(fault_index)
         p_list = []  # list of adjusted pillars
-- 
2.43.0


From 4c9e0d4031afe821ce8ee4e5629967f2a33b7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 212/231] fix: connection set inherited in throw scaling brings
 its interpretations to a new file

---
 resqpy/derived_model/_fault_throw_scaling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 57a2839..04f42fd 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -368,6 +368,9 @@ def _inherit_gcs_list(epc_file, gcs_list, source_grid, grid):
         assert len(grid_list_modifications)
         for gi in grid_list_modifications:
             gcs.grid_list[gi] = grid
+        for _, interp_uuid, _ in gcs.feature_list:
+            if gcs_inheritance_model.part_for_uuid(interp_uuid) is None:
+                gcs_inheritance_model.copy_uuid_from_other_model(gcs.model, interp_uuid)
         gcs.model = gcs_inheritance_model
         gcs.write_hdf5()
         gcs.create_xml(title = gcs_title)
-- 
2.43.0


From c9ae298a7f8eabfdf5a4c026e2ae42dfb312f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 213/231] fix: no box returned when no column found at x, y
 location

---
 resqpy/derived_model/_extract_box_for_well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 935afcc..39fa9ba 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -163,6 +163,8 @@ def extract_box_for_well(epc_file = None,
         bw_cells = blocked_well.cell_indices_for_grid_uuid(source_grid.uuid)
     else:
         column_ji0, well_name = _check_column(source_grid, column_ji0, column_xy, well_name)
+        if column_ji0 is None:
+            return None, None
 
     # create cell mask
     inclusion_mask, outer_inactive_mask = _build_cell_masks(source_grid, centres, min_k0, max_k0, trajectory,
-- 
2.43.0


From d39d2a1a2d69f654b190d8a917129f16a529a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 214/231] fix: negative crs rotation not ignored in local depth
 adjustment

---
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index abde94d..71ab0d6 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -92,7 +92,7 @@ def local_depth_adjustment(epc_file,
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     if not use_local_coords:
         rotation = grid.crs.rotation
-        if rotation > 0.001:
+        if abs(rotation) > 0.001:
             log.error('unable to account for rotation in crs: use local coordinates')
             return
         centre_x -= grid.crs.x_offset
-- 
2.43.0


From c67d4fb86f88eef35d43096d3a9684309b85682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:28 +0000
Subject: [PATCH 215/231] fix: grid returned when adding faults does not use an
 out of date pillar mapping

---
 resqpy/derived_model/_add_faults.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 4ff2c7b..2a42816 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -360,6 +360,9 @@ def _process_full_pillar_list_dict(grid, full_pillar_list_dict, left_right_throw
         log.debug(
             f'generating fault {fault_key} pillar count {len(full_pillar_list)}; left, right throw {left_right_throw}')
         _fault_from_pillar_list(grid, full_pillar_list, left_right_throw[0], left_right_throw[1])
+    # discard any mapping cached before the pillars were split
+    grid.pillars_for_column = None
+    grid.invalidate_corner_points()
 
 
 def _populate_composite_face_sets_for_polylines(model, grid, polylines, lines_crs_uuid, grid_crs, lines_file_list,
-- 
2.43.0


From a80cd78c1f3333d4e3790e9298de630299c6cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 216/231] fix: gathering an ensemble with more than one grid of
 the same shape

---
 resqpy/derived_model/_gather_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 0910a1f..455f74e 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -89,7 +89,7 @@ def gather_ensemble(case_epc_list,
                     if grid_extent in host_grid_shapes:
                         if title_match_required:
                             case_grid_title = rqet.citation_title_for_node(grid_root)
-                            for host_grid_index in len(host_grid_uuids):
+                            for host_grid_index in range(len(host_grid_uuids)):
                                 if grid_extent == host_grid_shapes[
                                         host_grid_index] and case_grid_title == host_grid_titles[host_grid_index]:
                                     host_index = host_grid_index
-- 
2.43.0


From bfbf0e8ba319ba3bc6015b0381680cd310c29389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 217/231] fix: blocked well property is put in the new epc file
 when one is named

---
 resqpy/derived_model/_add_one_blocked_well_property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/derived_model/_add_one_blocked_well_property.py b/resqpy/derived_model/_add_one_blocked_well_property.py
index 2826713..f278f42 100644
--- a/resqpy/derived_model/_add_one_blocked_well_property.py
+++ b/resqpy/derived_model/_add_one_blocked_well_property.py
@@ -72,6 +72,12 @@ def add_one_blocked_well_property(epc_file,
 
     # open up model and establish grid object
     model = rq.Model(epc_file)
+    if new_epc_file:
+        new_model = rq.Model(new_epc_file, new_epc = True, create_basics = True, create_hdf5_ext = True)
+        for uuid in (blocked_well_uuid, time_series_uuid, string_lookup_uuid, local_property_kind_uuid):
+            if uuid is not None:
+                new_model.copy_uuid_from_other_model(model, uuid)
+        model = new_model
 
     blocked_well = rqw.BlockedWell(model, uuid = blocked_well_uuid)
     assert blocked_well is not None, f'no blocked well object found with uuid {blocked_well_uuid}'
-- 
2.43.0


From a3718775b49e4e62ee4d7055808418644e696385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 218/231] fix: y coordinates also converted when importing
 corner points with differing xy and z units

---
 resqpy/rq_import/_import_nexus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..eb70cab 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -251,7 +251,7 @@ def import_nexus(
     if corp_xy_units == corp_z_units and resqml_xy_units == resqml_z_units:
         bwam.convert_lengths(cp_array, corp_xy_units, resqml_xy_units)
     else:
-        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:1], corp_xy_units, resqml_xy_units)
+        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:2], corp_xy_units, resqml_xy_units)
         bwam.convert_lengths(cp_array[:, :, :, :, :, :, 2], corp_z_units, resqml_z_units)
 
     # invert z if required
-- 
2.43.0


From b2b2caf193fb22b1e36cbc7a85ff68f1c206d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 219/231] fix: eight mode is passed on when importing corner
 points

---
 resqpy/rq_import/_import_nexus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index eb70cab..d450a64 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -208,6 +208,7 @@ def import_nexus(
                 corp_bin = True,
                 comment_char = None,  # comment char will be detected automatically
                 data_free_of_comments = False,
+                eight_mode = corp_eight_mode,
                 use_binary = use_binary)
         else:
             cp_binary_file = abt.cp_binary_filename(
@@ -226,6 +227,7 @@ def import_nexus(
                     corp_bin = False,
                     comment_char = None,  # comment char will be detected automatically
                     data_free_of_comments = False,
+                    eight_mode = corp_eight_mode,
                     use_binary = use_binary)
                 if use_binary:
                     wd.write_pure_binary_data(cp_binary_file,
-- 
2.43.0


From a0a4ca5a04674dda5848d43c68f5cc781c956c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 220/231] fix: maximum void when importing corner points is in
 the units of the file, as documented

---
 resqpy/rq_import/_import_nexus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index d450a64..dfa747c 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -326,7 +326,7 @@ def import_nexus(
                             active_mask = active_mask,
                             geometry_defined_everywhere = geometry_defined_everywhere,
                             treat_as_nan = treat_as_nan,
-                            max_z_void = max_z_void,
+                            max_z_void = bwam.convert_lengths(max_z_void, corp_z_units, resqml_z_units),
                             split_pillars = split_pillars,
                             split_tolerance = split_tolerance,
                             ijk_handedness = ijk_handedness,
-- 
2.43.0


From 27a7033f0395f8bf22d483b3fc715d7f4393411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 221/231] fix: properties skipped by decoarsening keep their
 own values

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 2a51449..0610920 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -580,6 +580,7 @@ class GridPropertyCollection(rqp.PropertyCollection):
                 log.warning(
                     f'decoarsening of transmissibility {keyword} skipped due to simple methods not yielding correct values'
                 )
+                continue
             elif kind in decoarsen_length_kinds:
                 facet_dir = import_item[12] if import_item[11] == 'direction' else None
                 if kind in ['thickness', 'permeability thickness'] or (facet_dir == 'K'):
@@ -590,6 +591,7 @@ class GridPropertyCollection(rqp.PropertyCollection):
                     redistributed = coarsened[decoarsen_array] / i_share
                 else:
                     log.warning(f'decoarsening of length property {keyword} skipped as direction not established')
+                    continue
             else:
                 redistributed = coarsened[decoarsen_array]
             self.__dict__[import_item[3]] = redistributed.reshape(self.grid.extent_kji)
-- 
2.43.0


From ef1ff0f12ce63d3b42aa74d0500b4d64827f1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 222/231] fix: pure binary copy of an array is written with the
 type implied by the file extension

---
 resqpy/olio/write_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/write_data.py b/resqpy/olio/write_data.py
index 1ed63a7..313702d 100644
--- a/resqpy/olio/write_data.py
+++ b/resqpy/olio/write_data.py
@@ -103,7 +103,7 @@ def write_array_to_ascii_file(file_name,
             # could abort at this point, or raise
 
     if use_binary:
-        extension, _ = abt.binary_file_extension_and_np_type_for_data_type(data_type)
+        extension, ab_type = abt.binary_file_extension_and_np_type_for_data_type(data_type)
         binary_file_name = file_name + extension
         if append and (keyword is not None):
             key = keyword.split()[0].lower()
@@ -115,7 +115,7 @@ def write_array_to_ascii_file(file_name,
             ap = np.where(np.isnan(a), nan_substitute_value, a)
         try:
             with open(binary_file_name, 'wb') as binary_file_out:
-                ap.tofile(binary_file_out)
+                np.asarray(ap).astype(ab_type).tofile(binary_file_out)
             log.info('Binary data file %s created', binary_file_name)
         except Exception:
             log.warning('Failed to write data to binary file %s', binary_file_name)
-- 
2.43.0


From 576d8454aa9c4ae03a79f2dbc22928854510972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 223/231] fix: unit vectors of an array of more than two
 dimensions which includes a zero vector

---
 resqpy/olio/vector_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 9455450..7096043 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -97,7 +97,7 @@ def unit_vectors(v):
     """Returns vectors with same direction as those in v but with unit length."""
     scaling = np.sqrt(np.sum(v * v, axis = -1))
     zero_mask = np.zeros(v.shape, dtype = bool)
-    zero_mask[np.where(scaling == 0.0), :] = True
+    zero_mask[scaling == 0.0] = True
     restore = np.seterr(all = 'ignore')
     result = np.where(zero_mask, 0.0, v / np.expand_dims(scaling, -1))
     np.seterr(**restore)
-- 
2.43.0


From 5e5e1ced717f70ca6a653bde3bdd9407fe317233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:39 +0000
Subject: [PATCH 224/231] fix: unit of measure of a column of a dataframe

---
 resqpy/olio/dataframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index c0ba987..c4153fd 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -170,10 +170,10 @@ class DataFrame:
     def column_uom(self, col_index):
         """Returns units of measure for the specified column, or Euc if no units present."""
 
-        if self.units_table is None:
-            return 'Euc'
         assert 0 <= col_index < self.n_cols, 'column index out of range'
-        return self.units_table.get_string(col_index)
+        if self.uom_list is None:
+            return 'Euc'
+        return self.uom_list[col_index]
 
     def write_hdf5_and_create_xml(self):
         """Write dataframe data to hdf5 file and create xml for RESQML objects to represent dataframe."""
-- 
2.43.0


From 8d43c8758caf7dca9ef772fb13a1ed89d1abb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:39 +0000
Subject: [PATCH 225/231] fix: the dataframe passed to RelPerm is not modified

---
 resqpy/olio/relperm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index f43a3dc..ecf03a1 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -70,6 +70,7 @@ class RelPerm(DataFrame):
             self.low_sal = low_sal
             self.table_index = table_index
 
+            df = df.copy()  # leaves the caller's dataframe unchanged
             df.columns = [x.capitalize() for x in df.columns]
             if 'Pc' in df.columns and df.columns[-1] != 'Pc':
                 raise ValueError('Pc', 'capillary pressure data should be in the last column of the dataframe')
-- 
2.43.0


From d97c3bcaa8d68af0e9192a73984bcc7e4167cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 226/231] fix: a dataframe added as a new realization is
 stored, for a table of any shape

---
 resqpy/olio/dataframe.py | 43 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index c4153fd..fc452e0 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -91,6 +91,7 @@ class DataFrame:
         self.n_rows = self.n_cols = 0
         self.uom_list = None
         self.realization = realization
+        self.realization_stored = False  # set True when there is a property for the realization
         self.title = title
         self.mesh = None  # only generated when needed for write_hdf5(), create_xml()
         self.pc = None  # property collection; only generated when needed for write_hdf5(), create_xml()
@@ -130,6 +131,7 @@ class DataFrame:
                         assert self.realization is not None, 'no realization specified when accessing ensemble dataframe'
                     da = existing_pc.single_array_ref(realization = self.realization)
                     assert da is not None and da.ndim == 2 and da.shape == (self.n_rows, self.n_cols)
+                    self.realization_stored = True
                 else:
                     assert realization is None
                 self.df = pd.DataFrame(da, columns = self.column_lookup.get_list())
@@ -139,7 +141,7 @@ class DataFrame:
                         realization = self.realization) is None, 'dataframe realization already exists'
                 self.df = df.copy()
                 assert len(self.df) == self.n_rows
-                assert len(self.df.columns) == self.n_rows
+                assert len(self.df.columns) == self.n_cols
         else:
             assert df is not None, 'no dataframe provided when instantiating DataFrame object'
             self.df = df.copy()
@@ -241,24 +243,27 @@ class DataFrame:
             self.mesh.write_hdf5()
             mesh_root = self.mesh.create_xml(title = self.title)
             rqet.create_metadata_xml(mesh_root, {'dataframe': 'true'})
-            if self.realization is not None:
-                self.pc = rqp.PropertyCollection()
-                self.pc.set_support(support = self.mesh)
-                dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
-                if dataframe_pk_uuid is None:
-                    dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
-                    dataframe_pk.create_xml()
-                    dataframe_pk_uuid = dataframe_pk.uuid
-                self.pc.add_cached_array_to_imported_list(np.array(self.df),
-                                                          'dataframe',
-                                                          self.title,
-                                                          uom = 'Euc',
-                                                          property_kind = 'dataframe',
-                                                          local_property_kind_uuid = dataframe_pk_uuid,
-                                                          realization = self.realization,
-                                                          indexable_element = 'nodes')
-                self.pc.write_hdf5_for_imported_list()
-                self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+
+        # data for a realization is held in a property, which is added once (not for data loaded from an existing property)
+        if self.realization is not None and not self.realization_stored:
+            self.pc = rqp.PropertyCollection()
+            self.pc.set_support(support = self.mesh)
+            dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
+            if dataframe_pk_uuid is None:
+                dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
+                dataframe_pk.create_xml()
+                dataframe_pk_uuid = dataframe_pk.uuid
+            self.pc.add_cached_array_to_imported_list(np.array(self.df),
+                                                      'dataframe',
+                                                      self.title,
+                                                      uom = 'Euc',
+                                                      property_kind = 'dataframe',
+                                                      local_property_kind_uuid = dataframe_pk_uuid,
+                                                      realization = self.realization,
+                                                      indexable_element = 'nodes')
+            self.pc.write_hdf5_for_imported_list()
+            self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+            self.realization_stored = True
 
 
 class TimeTable(DataFrame):
-- 
2.43.0


From 8f521a913236fb58da3f7fcba0f9596a5d392310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 227/231] fix: extra metadata of a dataframe is stored

---
 resqpy/olio/dataframe.py | 5 ++++-
 resqpy/olio/relperm.py   | 7 -------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index fc452e0..e10ed5a 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -242,7 +242,10 @@ class DataFrame:
                                      crs_uuid = crs_uuid)
             self.mesh.write_hdf5()
             mesh_root = self.mesh.create_xml(title = self.title)
-            rqet.create_metadata_xml(mesh_root, {'dataframe': 'true'})
+            metadata = {'dataframe': 'true'}
+            if self.extra_metadata:
+                metadata.update(self.extra_metadata)
+            rqet.create_metadata_xml(mesh_root, metadata)
 
         # data for a realization is held in a property, which is added once (not for data loaded from an existing property)
         if self.realization is not None and not self.realization_stored:
diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index ecf03a1..3c8b69d 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -244,13 +244,6 @@ class RelPerm(DataFrame):
                 f.close()
                 print(f'Appended to DAT file: {filename} at {filepath}')
 
-    def write_hdf5_and_create_xml(self):
-        """Write relative permeability table data to hdf5 file and create xml for dataframe objects."""
-        super().write_hdf5_and_create_xml()
-        mesh_root = self.mesh.root
-        # create an xml of extra metadata to indicate that this is a relative permeability table
-        rqet.create_metadata_xml(mesh_root, self.extra_metadata)
-
 
 def text_to_relperm_dict(relperm_data, is_file = True):
     """Return dict of dataframes with relative permeability and capillary pressure data and phase combinations.
-- 
2.43.0


From 1fc8ff5e7562b918ac3f088b7caad673a8e5a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 228/231] fix: interpolation of capillary pressure with missing
 values and of columns named in capitals

---
 resqpy/olio/relperm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 3c8b69d..41723f4 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -181,10 +181,11 @@ class RelPerm(DataFrame):
            A simple linear interpolation is performed.
         """
         df = self.df.copy()
-        if kr_or_pc_col.capitalize() not in df.columns or kr_or_pc_col.capitalize() == df.columns[0]:
+        kr_or_pc_col = kr_or_pc_col.capitalize()
+        if kr_or_pc_col not in df.columns or kr_or_pc_col == df.columns[0]:
             raise ValueError('incorrect column name provided for interpolation')
-        if kr_or_pc_col == 'PC':
-            df = df[df['PC'].notnull()]
+        if kr_or_pc_col == 'Pc':
+            df = df[df['Pc'].notnull()]
         sat_col = df.columns[0]
         # ensure that the saturation values are monotonically increasing
         df = df.sort_values(by = sat_col)
-- 
2.43.0


From e29a125d7664174afcab9a28286bdff74cc4710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 229/231] fix: relative permeability tables written as text
 after reloading, and tables of oil saturation read from text

---
 resqpy/olio/relperm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 41723f4..0740599 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -215,7 +215,7 @@ class RelPerm(DataFrame):
         ascii_file = os.path.join(filepath, filename + '.dat')
         df.columns = map(str.upper, df.columns)
         if {'KRW', 'KRO'}.issubset(set(df.columns)):
-            if self.low_sal:
+            if str(self.low_sal).lower() == 'true':  # note: is a string when loaded from an existing object
                 table_name_keyword = 'WOTABLE (LOW_SAL)\n'
             else:
                 table_name_keyword = 'WOTABLE\n'
@@ -278,6 +278,7 @@ def text_to_relperm_dict(relperm_data, is_file = True):
     df_cols_dict = {
         'SW': 'Sw',
         'SG': 'Sg',
+        'SO': 'So',
         'KRW': 'Krw',
         'KRG': 'Krg',
         'KROW': 'Kro',
-- 
2.43.0


From 58efb481104b0f87776301db59b61027fa9a7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:06 +0000
Subject: [PATCH 230/231] fix: relative permeability text with tabs between
 columns

---
 resqpy/olio/relperm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 0740599..d099242 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -268,7 +268,7 @@ def text_to_relperm_dict(relperm_data, is_file = True):
         string_original = relperm_data
     # split the string based on newlines and remove any comments or other escape characters
     escapes = ''.join([chr(char) for char in range(1, 32)])
-    string_formatted = [x.strip(escapes).split(' ') for x in filter(None, string_original.split('\n')) if '!' not in x]
+    string_formatted = [x.strip(escapes).split() for x in filter(None, string_original.split('\n')) if '!' not in x]
     # remove all empty strings
     data = [list(filter(None, x)) for x in string_formatted]
     # get indices of start of each new relperm table based on Nexus keywords
-- 
2.43.0


From a1caa6cf9de08de062bdf818b53ad7fa14d0c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:40 +0000
Subject: [PATCH 231/231] fix: lines of relative permeability text with a
 comment after the data

---
 resqpy/olio/relperm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index d099242..90d8389 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -268,9 +268,9 @@ def text_to_relperm_dict(relperm_data, is_file = True):
         string_original = relperm_data
     # split the string based on newlines and remove any comments or other escape characters
     escapes = ''.join([chr(char) for char in range(1, 32)])
-    string_formatted = [x.strip(escapes).split() for x in filter(None, string_original.split('\n')) if '!' not in x]
-    # remove all empty strings
-    data = [list(filter(None, x)) for x in string_formatted]
+    string_formatted = [x.split('!')[0].strip(escapes).split() for x in filter(None, string_original.split('\n'))]
+    # remove empty lines, including those which only held a comment
+    data = list(filter(None, string_formatted))
     # get indices of start of each new relperm table based on Nexus keywords
     table_start_positions = [
         i for i, l in enumerate(data) if len({'WOTABLE', 'GOTABLE', 'GWTABLE'}.intersection(set(l))) == 1
-- 
2.43.0

