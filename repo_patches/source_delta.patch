From ff74cb791cd30aaab9c4355eee03a941f97542d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 01/36] fix: read and write big endian doubles in big endian
 byte order

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..35fac2d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From 9f0c50512fd7c4f9fcb0fa2c776953c29c2c057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 02/36] fix: write a BinRef that has no utf-8 name

---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From 7576d2113919a65cfabd675f3830b3775646ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 03/36] fix: write MPGADescriptor.sub_frame_alignment unsigned,
 as it is read

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..c9bbf49 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 648f0eb310a7c5980f69fd03e46cb1ab9270988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 04/36] fix: AudioSuitePluginEffect mob id words are unsigned

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..32b63af 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From 2f69d6a7675105b1b8444d99c7f3912684952e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 05/36] fix: allow ASPIPlugin to be created by the factory

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 32b63af..199213e 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__(self)
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From 5fbfd4638f3aba54b3513b9a783c92695468567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 06/36] fix: Composition honours its name and refuses an
 unknown mob type

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 199213e..16e3c1e 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1038,7 +1038,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % str(mob_type))
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 597ea5e93e22ebfa521900a06beab4a1e0e02a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 07/36] fix: native reader reads signed fields signed

---
 src/avb/_ext.pyx      |  7 ++++---
 src/avb/_ext_core.cpp | 17 +++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..e478b1a 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -93,14 +93,15 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct ControlPointProperty:
         int16_t code
         ControlPointValueType type
-        uint32_t value
+        int32_t value
         double double_value
 
     cdef struct ControlPoint:
         int32_t offset_num
         int32_t offset_den
         int32_t timescale
-        uint32_t value
+        int32_t value
+        uint32_t ref
         double double_value
         vector[ControlPointProperty] pp
 
@@ -220,7 +221,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = utils.AVBObjectRef(root, cp.ref)
 
             pp_list = []
             for pp in cp.pp:
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..57982ea 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -104,7 +104,7 @@ struct BytesData {
 struct ControlPointProperty {
     int16_t code;
     ControlPointValueType type;
-    uint32_t value;
+    int32_t value;
     double double_value;
 };
 
@@ -113,7 +113,8 @@ struct ControlPoint {
     int32_t offset_den;
     int32_t timescale;
 
-    uint32_t value;
+    int32_t value;
+    uint32_t ref;
     double double_value;
     vector<ControlPointProperty> pp;
 };
@@ -428,7 +429,7 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
@@ -555,13 +556,13 @@ static int read_paramclip(Buffer *f, Properties *p)
 
         switch (value_type) {
             case CP_TYPE_INT:
-                cp->value = read_u32le(f);
+                cp->value = (int32_t)read_u32le(f);
                 break;
             case CP_TYPE_DOUBLE:
                 cp->double_value = read_double_le(f);
                 break;
             case CP_TYPE_REFERENCE:
-                cp->value = read_u32le(f);
+                cp->ref = read_u32le(f);
                 break;
             default:
                 fprintf(stderr, "unknown value_type: %d\n", value_type);
@@ -577,7 +578,7 @@ static int read_paramclip(Buffer *f, Properties *p)
             pp->type = (ControlPointValueType)read_u16le(f);
             switch (pp->type) {
                 case CP_TYPE_INT:
-                    pp->value = read_u32le(f);
+                    pp->value = (int32_t)read_u32le(f);
                     break;
                 case CP_TYPE_DOUBLE:
                     pp->double_value = read_double_le(f);
@@ -814,7 +815,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1108,7 +1109,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From a745f712d510a2060cbc280a2aaaf4ff0587b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 08/36] fix: native reader delivers strings, rationals and
 fourccs as the pure reader does

---
 src/avb/_ext.pyx      | 44 +++++++++++++++++++++++--------------------
 src/avb/_ext_core.cpp | 21 ++++++++++++++++-----
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index e478b1a..d0e77d3 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -80,6 +80,7 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct StringData:
         const char *name
         StringType type
+        bint optional
         vector[uint8_t] data
 
     cdef struct BytesData:
@@ -138,6 +139,7 @@ cdef extern from "_ext_core.cpp" nogil:
         vector[ControlPointData] control_points
         vector[IntArrayData] arrays
         vector[BytesData] bytearrays
+        vector[BytesData] fourccs
 
     cdef int read_attributes(Buffer *f, vector[AttrData] &d) except+
     cdef int read_comp(Buffer *f, Properties *p) except+
@@ -213,7 +215,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
@@ -293,20 +295,20 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
-    cdef const char * ptr
+cdef object decode_string(vector[uint8_t] &data):
+    cdef bytes value = b""
+    if data.size() > 0:
+        value = (<const char *>&data[0])[:data.size()]
+    return value.strip(b"\x00").decode("macroman")
 
+cdef void strings2dict(dict d, Properties *p):
     cdef StringData item
-    cdef size_t data_size;
 
     for item in p.strings:
-        data_size = item.data.size()
-
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        else:
-            d[item.name.decode('utf-8')] = u""
+        value = decode_string(item.data)
+        if item.optional:
+            value = value or None
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -356,6 +358,13 @@ cdef void bytearray2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
+cdef void fourcc2dict(dict d, Properties *p):
+    cdef BytesData item
+    cdef const char *ptr
+    for item in p.fourccs:
+        ptr = <const char *>&item.data[0]
+        d[item.name.decode('utf-8')] = <bytes> ptr[:4]
+
 cdef dict process_poperties(object root, Properties *p):
     cdef dict result = AVBPropertyData()
 
@@ -381,6 +390,8 @@ cdef dict process_poperties(object root, Properties *p):
         int_array2dict(result, p)
     if p.bytearrays.size():
         bytearray2dict(result, p)
+    if p.fourccs.size():
+        fourcc2dict(result, p)
     if p.control_points.size():
         controlpoints2dict(root, result, p)
     if p.children.size():
@@ -419,12 +430,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = decode_string(item.data)
 
         elif item.type == OBJ_ATTR:
             value = utils.AVBObjectRef(root, item.value)
@@ -437,9 +443,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[decode_string(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 57982ea..e8bdda7 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -129,6 +129,7 @@ struct ControlPointData {
 struct StringData {
     const char *name;
     StringType type;
+    bool optional;
     vector<uint8_t> data;
 };
 
@@ -164,6 +165,7 @@ struct Properties {
     vector<ControlPointData> control_points;
     vector<IntArrayData> arrays;
     vector<BytesData> bytearrays;
+    vector<BytesData> fourccs;
 };
 
 static inline uint8_t read_u8(Buffer *f)
@@ -250,7 +252,7 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool optional)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -258,6 +260,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 
     s.name = name;
     s.type = t;
+    s.optional = optional;
     read_data16(f, s.data);
 }
 
@@ -420,6 +423,14 @@ static inline vector<uint8_t> & add_bytearray(Properties *p, const char * name)
     return d->data;
 }
 
+static inline vector<uint8_t> & add_fourcc(Properties *p, const char * name)
+{
+    p->fourccs.push_back(BytesData());
+    BytesData *d = &p->fourccs[p->fourccs.size()-1];
+    d->name = name;
+    return d->data;
+}
+
 
 static int read_comp(Buffer *f, Properties *p)
 {
@@ -433,8 +444,8 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
@@ -636,7 +647,7 @@ static int read_paramitem(Buffer *f, Properties *p)
             return -1;
     }
 
-    add_string(p, f, "name", MACROMAN);
+    add_string(p, f, "name", MACROMAN, false);
     add_bool(p, "enable", read_bool(f));
     add_object_ref(p, "control_track", read_u32le(f));
 
@@ -933,7 +944,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
     add_object_ref(p, "next_did_desc", read_u32le(f));
 
-    vector<uint8_t> &compress_method = add_bytearray(p, "compress_method");
+    vector<uint8_t> &compress_method = add_fourcc(p, "compress_method");
     compress_method.resize(4);
     compress_method[3] = read_u8(f);
     compress_method[2] = read_u8(f);
-- 
2.43.0


From 91475365543c0ed92c3728bc8734fdf24673c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 09/36] fix: edits of a component list loaded by the native
 reader mark its sequence

---
 src/avb/_ext.pyx | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index d0e77d3..9ef2ee9 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -179,12 +179,12 @@ cdef void refs2dict(object root, dict d, Properties* p):
     for item in p.refs:
         d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, object parent, dict d, Properties* p):
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
-        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
+        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
         reflist.extend(item.data)
         d[item.name.decode('utf-8')] = reflist
 
@@ -321,14 +321,13 @@ cdef void children2dict(object root, dict d, Properties *p):
         plist = []
 
         for child_properties in item.data:
-            pdata = process_poperties(root, &child_properties)
-
             if child_properties.type == TRACK:
                 obj_class = utils.AVBClassName_dict['Track']
             elif child_properties.type == PARAM:
                 obj_class = utils.AVBClassName_dict['EffectParam']
 
             object_instance = obj_class.__new__(obj_class, root=root)
+            pdata = process_poperties(root, object_instance, &child_properties)
             object_instance.property_data = pdata
             plist.append(object_instance)
 
@@ -365,13 +364,13 @@ cdef void fourcc2dict(dict d, Properties *p):
         ptr = <const char *>&item.data[0]
         d[item.name.decode('utf-8')] = <bytes> ptr[:4]
 
-cdef dict process_poperties(object root, Properties *p):
+cdef dict process_poperties(object root, object parent, Properties *p):
     cdef dict result = AVBPropertyData()
 
     if p.refs.size():
         refs2dict(root, result, p)
     if p.reflists.size():
-        reflist2dict(root, result, p)
+        reflist2dict(root, parent, result, p)
     if p.ints.size():
         ints2dict(result, p)
     if p.doubles.size():
@@ -473,7 +472,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -492,7 +491,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -514,7 +513,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -534,7 +533,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -553,7 +552,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -572,7 +571,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -591,7 +590,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -614,7 +613,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -634,7 +633,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -654,7 +653,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -675,7 +674,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -696,7 +695,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     # print_property_sizes(&p)
     object_instance.property_data = result
@@ -716,7 +715,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     if ret < 0:
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
-- 
2.43.0


From 1f8e8d97a47453835273bf14b566193e4fda068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 10/36] fix: native reader keeps the property order of the pure
 reader

---
 src/avb/_ext.pyx      | 36 ++++++++++++++++++++++--------------
 src/avb/_ext_core.cpp | 17 +++++++++++++++++
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 9ef2ee9..371ead8 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -126,6 +126,7 @@ cdef extern from "_ext_core.cpp" nogil:
 
     cdef struct Properties:
         PropertyType type
+        vector[const char *] order
         vector[IntData]   refs
         vector[IntData]   ints
         vector[BoolData]   bools
@@ -365,36 +366,43 @@ cdef void fourcc2dict(dict d, Properties *p):
         d[item.name.decode('utf-8')] = <bytes> ptr[:4]
 
 cdef dict process_poperties(object root, object parent, Properties *p):
+    cdef dict values = {}
     cdef dict result = AVBPropertyData()
+    cdef const char *name
 
     if p.refs.size():
-        refs2dict(root, result, p)
+        refs2dict(root, values, p)
     if p.reflists.size():
-        reflist2dict(root, parent, result, p)
+        reflist2dict(root, parent, values, p)
     if p.ints.size():
-        ints2dict(result, p)
+        ints2dict(values, p)
     if p.doubles.size():
-        doubles2dict(result, p)
+        doubles2dict(values, p)
     if p.strings.size():
-        strings2dict(result, p)
+        strings2dict(values, p)
     if p.bools.size():
-        bools2dict(result, p)
+        bools2dict(values, p)
     if p.uuids.size():
-        uuid2dict(result, p)
+        uuid2dict(values, p)
     if p.mob_ids.size():
-        mob_id2dict(result, p)
+        mob_id2dict(values, p)
     if p.dates.size():
-        dates2dict(result, p)
+        dates2dict(values, p)
     if p.arrays.size():
-        int_array2dict(result, p)
+        int_array2dict(values, p)
     if p.bytearrays.size():
-        bytearray2dict(result, p)
+        bytearray2dict(values, p)
     if p.fourccs.size():
-        fourcc2dict(result, p)
+        fourcc2dict(values, p)
     if p.control_points.size():
-        controlpoints2dict(root, result, p)
+        controlpoints2dict(root, values, p)
     if p.children.size():
-        children2dict(root, result, p)
+        children2dict(root, values, p)
+
+    # the order of the pure python reader, it decides the order objects are written in
+    for name in p.order:
+        key = name.decode('utf-8')
+        result[key] = values[key]
 
     return result
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index e8bdda7..becb539 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -147,6 +147,7 @@ struct AttrData {
 
 struct Properties {
     PropertyType type;
+    vector<const char *> order;
     vector<BoolData> bools;
     vector<IntData> refs;
     vector<IntData> dates;
@@ -259,6 +260,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
     StringData &s = p->strings[string_size];
 
     s.name = name;
+    p->order.push_back(name);
     s.type = t;
     s.optional = optional;
     read_data16(f, s.data);
@@ -281,6 +283,7 @@ static inline void add_object_ref(Properties *p, const char* name, uint64_t valu
     d.name = name;
     d.data.u64 = value;
     p->refs.push_back(d);
+    p->order.push_back(name);
 }
 
 static inline void add_uint(Properties *p, const char* name, uint64_t value)
@@ -290,6 +293,7 @@ static inline void add_uint(Properties *p, const char* name, uint64_t value)
     d.name = name;
     d.data.u64 = value;
     p->ints.push_back(d);
+    p->order.push_back(name);
 }
 
 static inline void add_int(Properties *p, const char* name, int64_t value)
@@ -300,6 +304,7 @@ static inline void add_int(Properties *p, const char* name, int64_t value)
     d.data.s64 = value;
     d.is_signed = true;
     p->ints.push_back(d);
+    p->order.push_back(name);
 }
 
 static inline void add_double(Properties *p, const char* name, double value)
@@ -309,6 +314,7 @@ static inline void add_double(Properties *p, const char* name, double value)
     d.name = name;
     d.data = value;
     p->doubles.push_back(d);
+    p->order.push_back(name);
 }
 
 
@@ -319,6 +325,7 @@ static inline void add_date(Properties *p, const char* name, uint64_t value)
     d.name = name;
     d.data.u64 = value;
     p->dates.push_back(d);
+    p->order.push_back(name);
 }
 
 static inline void add_bool(Properties *p, const char* name, bool value)
@@ -328,6 +335,7 @@ static inline void add_bool(Properties *p, const char* name, bool value)
     d.name = name;
     d.data = value;
     p->bools.push_back(d);
+    p->order.push_back(name);
 }
 
 static inline int read_mob_id(Properties *p, Buffer *f, const char* name)
@@ -390,6 +398,7 @@ static inline int read_mob_id(Properties *p, Buffer *f, const char* name)
     }
 
     p->mob_ids.push_back(mob_id);
+    p->order.push_back(name);
 
     return 0;
 }
@@ -397,6 +406,7 @@ static inline int read_mob_id(Properties *p, Buffer *f, const char* name)
 static inline int add_raw_uuid(Properties *p, const char * name, Buffer *f)
 {
     p->uuids.push_back(BytesData());
+    p->order.push_back(name);
     BytesData *d = &p->uuids[p->uuids.size()-1];
     d->name = name;
     d->data.resize(16);
@@ -410,6 +420,7 @@ static inline int add_raw_uuid(Properties *p, const char * name, Buffer *f)
 static inline vector<int64_t> & add_int_array(Properties *p, const char * name)
 {
     p->arrays.push_back(IntArrayData());
+    p->order.push_back(name);
     IntArrayData *d = &p->arrays[p->arrays.size()-1];
     d->name = name;
     return d->data;
@@ -418,6 +429,7 @@ static inline vector<int64_t> & add_int_array(Properties *p, const char * name)
 static inline vector<uint8_t> & add_bytearray(Properties *p, const char * name)
 {
     p->bytearrays.push_back(BytesData());
+    p->order.push_back(name);
     BytesData *d = &p->bytearrays[p->bytearrays.size()-1];
     d->name = name;
     return d->data;
@@ -426,6 +438,7 @@ static inline vector<uint8_t> & add_bytearray(Properties *p, const char * name)
 static inline vector<uint8_t> & add_fourcc(Properties *p, const char * name)
 {
     p->fourccs.push_back(BytesData());
+    p->order.push_back(name);
     BytesData *d = &p->fourccs[p->fourccs.size()-1];
     d->name = name;
     return d->data;
@@ -478,6 +491,7 @@ static int read_sequence(Buffer *f, Properties *p)
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
+    p->order.push_back(reflist.name);
     reflist.data.reserve(count);
     for (size_t i =0; i < count; i++) {
         reflist.data.push_back(read_u32le(f));
@@ -555,6 +569,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
     cp_data->name = "control_points";
+    p->order.push_back(cp_data->name);
     cp_data->type = ParamControlPointType;
     cp_data->value_type = value_type;
     cp_data->data.resize(point_count);
@@ -696,6 +711,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
     child.name = "tracks";
+    p->order.push_back(child.name);
     vector <Properties> &tracks = child.data;
     tracks.resize(track_count);
 
@@ -1164,6 +1180,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
     child.name = "parameters";
+    p->order.push_back(child.name);
 
     vector <Properties> &parameters = child.data;
     parameters.resize(parameter_count);
-- 
2.43.0


From acf91d65c31af8ea1be654fe765a6577681268c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 11/36] fix: native reader refuses malformed and truncated
 objects and reads within its buffer

---
 src/avb/_ext.pyx      | 172 ++++++++++++++------------------
 src/avb/_ext_core.cpp | 222 +++++++++++++++++++++++++++++-------------
 src/avb/ioctx.py      |   2 +-
 3 files changed, 226 insertions(+), 170 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 371ead8..a14f17b 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -123,6 +123,7 @@ cdef extern from "_ext_core.cpp" nogil:
         const uint8_t *ptr
         const uint8_t *end
         const char *error_message
+        bint overrun
 
     cdef struct Properties:
         PropertyType type
@@ -175,21 +176,46 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef void init_buffer(Buffer *buf, const unsigned char[:] data):
+    cdef Py_ssize_t size = data.shape[0]
+    buf.root = NULL
+    if size > 0:
+        buf.root = &data[0]
+    buf.ptr = buf.root
+    buf.end = buf.root + size
+    buf.error_message = ""
+    buf.overrun = False
+
+cdef int check_read(int ret, Buffer *buf, object name) except -1:
+    if ret < 0:
+        raise ValueError("Error reading %s: %s" % (name, buf.error_message.decode("utf-8")))
+    if buf.overrun or buf.ptr != buf.end:
+        raise ValueError("Error reading %s: wrong size" % name)
+    return 0
+
+cdef object object_ref(object root, uint64_t index):
+    ref = utils.AVBObjectRef(root, index)
+    if root.check_refs and not ref.valid:
+        raise ValueError("bad index: %d" % index)
+    return ref
+
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, object parent, dict d, Properties* p):
+cdef void reflist2dict(object root, object parent, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
+        for i in item.data:
+            object_ref(root, i)
         reflist.extend(item.data)
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -224,7 +250,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.ref)
+                cpdata['value'] = object_ref(root, cp.ref)
 
             pp_list = []
             for pp in cp.pp:
@@ -248,7 +274,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -257,23 +283,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -285,7 +311,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -302,7 +328,7 @@ cdef object decode_string(vector[uint8_t] &data):
         value = (<const char *>&data[0])[:data.size()]
     return value.strip(b"\x00").decode("macroman")
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef StringData item
 
     for item in p.strings:
@@ -311,7 +337,7 @@ cdef void strings2dict(dict d, Properties *p):
             value = value or None
         d[item.name.decode('utf-8')] = value
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -334,7 +360,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -346,7 +372,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -358,7 +384,7 @@ cdef void bytearray2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
-cdef void fourcc2dict(dict d, Properties *p):
+cdef void fourcc2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef const char *ptr
     for item in p.fourccs:
@@ -409,10 +435,7 @@ cdef dict process_poperties(object root, object parent, Properties *p):
 
 def read_attr_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef AttrData item
     cdef vector[AttrData] d
@@ -426,8 +449,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_attributes(&buf, d)
 
-    if ret < 0:
-        raise ValueError("Error reading Attributes: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "Attributes")
 
     for item in d:
 
@@ -440,7 +462,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = decode_string(item.data)
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
@@ -467,18 +489,14 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
 
 def read_sequence_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_sequence(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "SEQU")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -486,18 +504,14 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
 
 def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_sourceclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "SCLP")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -505,10 +519,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -517,8 +528,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(6)
         ret = read_paramclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "PRCL")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -527,18 +537,14 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_paramitem(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "PRIT")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -547,18 +553,14 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
 
 def read_trackref_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_trackref(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "TRKR")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -566,18 +568,14 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
 
 def read_filler_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_filler(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "FILL")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -585,18 +583,14 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
 
 def reads_selector_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_selector(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "SLCT")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -604,10 +598,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
 
 def read_composition_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -617,8 +608,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         p.strings.reserve(2)
         ret = read_composition(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "CMPO")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -627,18 +617,14 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
 
 def read_media_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_media_descriptor(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "MDES")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -647,18 +633,14 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
 
 def read_did_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_did_descriptor(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "DIDD")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -668,18 +650,14 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
 
 def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_cdci_descriptor(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "CDCI")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, object_instance, &p)
@@ -688,10 +666,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
 
 def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -700,8 +675,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(12)
         ret = read_trackeffect(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "TKFX")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
@@ -710,18 +684,14 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
 
 def read_effectparamlist_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_effectparamlist(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
+    check_read(ret, &buf, "FXPS")
 
     cdef dict result = process_poperties(root, object_instance, &p)
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index becb539..4595d7b 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -1,5 +1,7 @@
 #include <vector>
 #include <math.h>
+#include <stdio.h>
+#include <string.h>
 
 #ifdef _MSC_VER
 
@@ -38,8 +40,9 @@ using namespace std;
 struct Buffer {
     const uint8_t *root;
     const uint8_t *ptr;
-    const uint8_t *end;
+    const uint8_t *end; // one past the last byte
     const char *error_message;
+    bool overrun;
 };
 
 enum StringType {
@@ -171,23 +174,42 @@ struct Properties {
 
 static inline uint8_t read_u8(Buffer *f)
 {
-    if (f->ptr <= f->end)
+    if (f->ptr < f->end)
         return *f->ptr++;
+    f->overrun = true;
     return 0;
 }
 
+static inline size_t bytes_left(const Buffer *f)
+{
+    return f->end - f->ptr;
+}
+
 #define S1(x) #x
 #define S2(x) S1(x)
 #define ASSERT_MESSAGE "Assert error: " __FILE__ " : " S2(__LINE__)
 
 #define read_assert_tag(f, value) \
-    if (value != read_u8(f)) { \
+    if (value != read_u8(f) || (f)->overrun) { \
         f->error_message = ASSERT_MESSAGE; \
         return -1; \
     } \
 
 #define check(value) \
-    if (value < 0) {  \
+    if ((value) < 0) {  \
+        return -1; \
+    } \
+
+// an item of a list takes at least item_size bytes, a count that does not fit is damaged
+#define check_count(f, count, item_size) \
+    if ((uint64_t)(count) * (item_size) > bytes_left(f)) { \
+        f->error_message = ASSERT_MESSAGE; \
+        return -1; \
+    } \
+
+#define check_not_negative(f, count) \
+    if ((count) < 0) { \
+        f->error_message = ASSERT_MESSAGE; \
         return -1; \
     } \
 
@@ -200,7 +222,7 @@ static inline uint16_t read_u16le(Buffer *f)
 {
     uint16_t value;
     value =  read_u8(f);
-    value |= read_u8(f) << 8;
+    value |= (uint16_t)read_u8(f) << 8;
     return value;
 }
 
@@ -208,7 +230,7 @@ static inline uint32_t read_u32le(Buffer *f)
 {
     uint32_t value;
     value =  read_u16le(f);
-    value |= read_u16le(f) << 16;
+    value |= (uint32_t)read_u16le(f) << 16;
     return value;
 }
 
@@ -222,38 +244,51 @@ static inline uint64_t read_u64le(Buffer *f)
 static inline double read_double_le(Buffer *f)
 {
     uint64_t value = read_u64le(f);
-    return *(double*)&value;
+    double result;
+    memcpy(&result, &value, sizeof(result));
+    return result;
 }
 
-static inline double read_exp10_encoded_float(Buffer *f)
+static inline int read_exp10_encoded_float(Buffer *f, double &value)
 {
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
-    return mantissa * pow(10.0, (int)exp10);
+    // does not fit in a double
+    if (exp10 > 308) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+
+    value = mantissa * pow(10.0, (int)exp10);
+    return 0;
 }
 
-static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
+static inline int read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    check_count(f, size, 1);
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
     }
+    return 0;
 }
 
-static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
+static inline int read_data16(Buffer *f, std::vector<uint8_t> &s)
 {
     uint16_t size = read_u16le(f);
     if (size < 65535) {
+        check_count(f, size, 1);
         s.resize(size);
         for(int i =0; i < size; i++) {
             s[i] = read_u8(f);
         }
     }
+    return 0;
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool optional)
+static inline int add_string(Properties *p, Buffer *f, const char* name, StringType t, bool optional)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -263,15 +298,14 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
     p->order.push_back(name);
     s.type = t;
     s.optional = optional;
-    read_data16(f, s.data);
+    return read_data16(f, s.data);
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
+     if (f->ptr < f->end && *f->ptr == 0x01) {
+        f->ptr++;
         return true;
-
-     f->ptr--;
+     }
      return false;
 }
 
@@ -455,10 +489,12 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
-    add_double(p, "edit_rate", read_exp10_encoded_float(f));
+    double edit_rate = 0;
+    check(read_exp10_encoded_float(f, edit_rate));
+    add_double(p, "edit_rate", edit_rate);
 
-    add_string(p, f, "name", MACROMAN, true);
-    add_string(p, f, "effect_id", MACROMAN, true);
+    check(add_string(p, f, "name", MACROMAN, true));
+    check(add_string(p, f, "effect_id", MACROMAN, true));
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
@@ -483,11 +519,12 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
     uint32_t count = read_u32le(f);
+    check_count(f, count, 4);
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
@@ -503,7 +540,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -513,7 +550,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -523,7 +560,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -539,7 +576,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -555,16 +592,24 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_int(p, "interp_kind", (int32_t)read_u32le(f));
 
-    ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
+    uint16_t type = read_u16le(f);
+    if (type != CP_TYPE_INT && type != CP_TYPE_DOUBLE && type != CP_TYPE_REFERENCE) {
+        fprintf(stderr, "unknown value_type: %d\n", type);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+    ControlPointValueType value_type = (ControlPointValueType)type;
     add_int(p, "value_type", value_type);
 
-    uint32_t point_count = read_u32le(f);
+    int32_t point_count = (int32_t)read_u32le(f);
+    check_not_negative(f, point_count);
+    check_count(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -574,7 +619,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     cp_data->value_type = value_type;
     cp_data->data.resize(point_count);
 
-    for (size_t i=0; i < point_count; i++) {
+    for (int32_t i=0; i < point_count; i++) {
         ControlPoint *cp = &cp_data->data[i];
         cp->offset_num = (int32_t)read_u32le(f);
         cp->offset_den = (int32_t)read_u32le(f);
@@ -596,21 +641,25 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
 
-        uint16_t pp_count = read_u16le(f);
+        int16_t pp_count = (int16_t)read_u16le(f);
+        check_not_negative(f, pp_count);
+        check_count(f, pp_count, 8);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
             pp->code = (int16_t)read_u16le(f);
-            pp->type = (ControlPointValueType)read_u16le(f);
-            switch (pp->type) {
+            uint16_t pp_type = read_u16le(f);
+            switch (pp_type) {
                 case CP_TYPE_INT:
+                    pp->type = CP_TYPE_INT;
                     pp->value = (int32_t)read_u32le(f);
                     break;
                 case CP_TYPE_DOUBLE:
+                    pp->type = CP_TYPE_DOUBLE;
                     pp->double_value = read_double_le(f);
                     break;
                 default:
-                    fprintf(stderr, "unknown value_type: %d\n", pp->type);
+                    fprintf(stderr, "unknown value_type: %d\n", pp_type);
                     f->error_message = ASSERT_MESSAGE;
                     return -1;
             }
@@ -662,7 +711,7 @@ static int read_paramitem(Buffer *f, Properties *p)
             return -1;
     }
 
-    add_string(p, f, "name", MACROMAN, false);
+    check(add_string(p, f, "name", MACROMAN, false));
     add_bool(p, "enable", read_bool(f));
     add_object_ref(p, "control_track", read_u32le(f));
 
@@ -685,7 +734,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -698,7 +747,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -707,6 +756,9 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
     int32_t track_count =  (int32_t)read_u32le(f);
+    if (track_count < 0)
+        track_count = 0;
+    check_count(f, track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -779,7 +831,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -812,17 +864,25 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected", selected);
+
+    if (selected >= p->children[0].data.size()) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
     read_assert_tag(f, 0x03);
 
@@ -831,7 +891,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -853,7 +913,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -867,7 +927,7 @@ static int read_composition(Buffer *f, Properties *p)
     return 0;
 }
 
-static int read_media_descriptor(Buffer *f,  Properties *p)
+static int read_descriptor(Buffer *f,  Properties *p)
 {
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
@@ -892,7 +952,7 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
         } else if (tag== 0x02) {
             read_assert_tag(f, 65);
             vector<uint8_t> &data = add_bytearray(p, "wchar");
-            read_data32(f, data);
+            check(read_data32(f, data));
         } else if (tag == 0x03 ) {
             read_assert_tag(f, 72);
             add_object_ref(p, "attributes", read_u32le(f));
@@ -906,13 +966,22 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_media_descriptor(Buffer *f,  Properties *p)
+{
+    check(read_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
 static int read_media_file_descriptor(Buffer *f,  Properties *p)
 {
-    check(read_media_descriptor(f, p));
+    check(read_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
-    add_double(p, "edit_rate", read_exp10_encoded_float(f));
+    double edit_rate = 0;
+    check(read_exp10_encoded_float(f, edit_rate));
+    add_double(p, "edit_rate", edit_rate);
     add_int(p, "length",      (int32_t)read_u32le(f));
     add_int(p, "is_omfi",     (int16_t)read_u16le(f));
     add_int(p, "data_offset", (int32_t)read_u32le(f));
@@ -920,9 +989,9 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
-static int read_did_descriptor(Buffer *f,  Properties *p)
+static int read_did(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -949,8 +1018,11 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
-    size_t line_map_byte_size = read_u32le(f);
-    for (size_t i = 0; i < line_map_byte_size/4; i++) {
+    int32_t line_map_byte_size = (int32_t)read_u32le(f);
+    if (line_map_byte_size < 0)
+        line_map_byte_size = 0;
+    check_count(f, line_map_byte_size / 4, 4);
+    for (int32_t i = 0; i < line_map_byte_size / 4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
 
@@ -1128,9 +1200,16 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_did_descriptor(Buffer *f,  Properties *p)
+{
+    check(read_did(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1174,8 +1253,11 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     add_int(p, "orig_length",    (int32_t)read_u32le(f));
     add_int(p, "window_offset",  (int32_t)read_u32le(f));
 
-    uint32_t parameter_count = read_u32le(f);
+    int32_t parameter_count = (int32_t)read_u32le(f);
+    if (parameter_count < 0)
+        parameter_count = 0;
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
+    check_count(f, parameter_count, 102);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -1185,7 +1267,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     vector <Properties> &parameters = child.data;
     parameters.resize(parameter_count);
 
-    for (size_t i = 0; i < parameter_count; i++) {
+    for (int32_t i = 0; i < parameter_count; i++) {
 
         Properties &param = parameters[i];
         param.type = PARAM;
@@ -1228,18 +1310,22 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
-        uint32_t color_count =read_u32le(f);
+        int32_t color_count = (int32_t)read_u32le(f);
+        check_not_negative(f, color_count);
+        check_count(f, color_count, 4);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
-        for (size_t j=0; j < color_count; j++) {
+        for (int32_t j=0; j < color_count; j++) {
             colors.push_back((int32_t)read_u32le(f));
         }
 
-        uint32_t param_size = read_u32le(f);
+        int32_t param_size = (int32_t)read_u32le(f);
+        check_not_negative(f, param_size);
+        check_count(f, param_size, 1);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
         user_param.resize(param_size);
-        for (size_t j=0; j < param_size; j++) {
+        for (int32_t j=0; j < param_size; j++) {
             user_param[j] = read_u8(f);
         }
 
@@ -1259,35 +1345,35 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_count(f, attr_count, 8);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
-        ptr->type = (AttrType)read_u32le(f);
-        read_data16(f, ptr->name);
-        switch (ptr->type) {
+        AttrData *ptr = &d[i];
+        uint32_t type = read_u32le(f);
+        check(read_data16(f, ptr->name));
+        switch (type) {
             case INT_ATTR:
+                ptr->type = INT_ATTR;
                 ptr->value = read_u32le(f);
                 break;
             case STR_ATTR:
-                read_data16(f, ptr->data);
+                ptr->type = STR_ATTR;
+                check(read_data16(f, ptr->data));
                 break;
             case OBJ_ATTR:
+                ptr->type = OBJ_ATTR;
                 ptr->value = read_u32le(f);
                 break;
             case BOB_ATTR:
-                read_data32(f, ptr->data);
+                ptr->type = BOB_ATTR;
+                check(read_data32(f, ptr->data));
                 break;
             default:
-                fprintf(stderr, "unknown attr type: %d\n", (uint32_t)ptr->type);
+                fprintf(stderr, "unknown attr type: %d\n", type);
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 35fac2d..98f9636 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -129,7 +129,7 @@ class AVBIOContext(object):
         mantissa = self.read_s32(f)
         exp10 = self.read_s16(f)
 
-        return float(mantissa) * pow(10, exp10)
+        return float(mantissa) * pow(10.0, exp10)
 
     def write_exp10_encoded_float(self, f, value):
         exponent = 0
-- 
2.43.0


From fef7ce35fb8d7b707ac6202e9cd1e21f5cffa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 12/36] fix: write edit rates rounded, not truncated, and only
 59.94 as 59940/1000

---
 src/avb/ioctx.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 98f9636..937ceb7 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -133,21 +133,24 @@ class AVBIOContext(object):
 
     def write_exp10_encoded_float(self, f, value):
         exponent = 0
-        while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
+        scaled = value
+        # the decimal with the fewest digits that is this value
+        while abs(int(round(scaled)) - scaled) > abs(scaled) * 1e-14:
+            if abs(scaled * 10) >= 0x7FFFFFFF:
                 break
             if exponent <= -6:
                 break
-            value *= 10
             exponent -= 1
+            scaled = value * pow(10.0, -exponent)
+
+        mantissa = int(round(scaled))
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
-        else:
-            self.write_s32(f, int(value))
-            self.write_s16(f, exponent)
+        if exponent == -2 and mantissa in exp10_pretty:
+            mantissa, exponent = exp10_pretty[mantissa]
+
+        self.write_s32(f, mantissa)
+        self.write_s16(f, exponent)
 
 
     def read_string(self, f, encoding = 'macroman'):
-- 
2.43.0


From 1cccf57d201624ff9144def83048fde680594685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 13/36] fix: write the format descriptor count signed, as it is
 read

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..b5428e3 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
-- 
2.43.0


From f4b30eb4037e1fc8cd1ea9d13bd65057bdbd6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 14/36] fix: every operation of a reference list sees its
 objects and has its effect

---
 src/avb/core.py | 80 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 6 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..fb373b2 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -74,10 +74,15 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            if item is not None:
+                item = item.copy(root)
+            obj.append(item)
         return obj
 
     def extend(self, x):
+        if isinstance(x, AVBRefList):
+            # entries may be unresolved references of another file
+            x = list(x)
         super(AVBRefList, self).extend(x)
         self.mark_modified()
 
@@ -89,8 +94,14 @@ class AVBRefList(list):
         super(AVBRefList, self).insert(i, x)
         self.mark_modified()
 
+    def index(self, x, *args):
+        return list(self).index(x, *args)
+
+    def count(self, x):
+        return list(self).count(x)
+
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
+        super(AVBRefList, self).__delitem__(self.index(x))
         self.mark_modified()
 
     def pop(self, i=-1):
@@ -99,15 +110,15 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__delitem__(slice(None))
         self.mark_modified()
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__setitem__(slice(None), sorted(self, key=key, reverse=reverse))
         self.mark_modified()
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
     def deref(self, value):
@@ -119,9 +130,14 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        result = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(value) for value in result]
+        return self.deref(result)
 
     def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            value = list(value)
         super(AVBRefList, self).__setitem__(index, value)
         self.mark_modified()
 
@@ -129,10 +145,62 @@ class AVBRefList(list):
         super(AVBRefList, self).__delitem__(index)
         self.mark_modified()
 
+    if sys.version_info.major < 3:
+        def __getslice__(self, i, j):
+            return self[slice(i, j)]
+
+        def __setslice__(self, i, j, value):
+            self[slice(i, j)] = value
+
+        def __delslice__(self, i, j):
+            del self[slice(i, j)]
+
     def __iter__(self):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
+    def __contains__(self, x):
+        return x in list(self)
+
+    def __eq__(self, other):
+        if not isinstance(other, list):
+            return NotImplemented
+        return list(self) == list(other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __repr__(self):
+        return repr(list(self))
+
+    def __add__(self, other):
+        if not isinstance(other, list):
+            return NotImplemented
+        return list(self) + list(other)
+
+    def __radd__(self, other):
+        if not isinstance(other, list):
+            return NotImplemented
+        return list(other) + list(self)
+
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
+    def __mul__(self, n):
+        return list(self) * n
+
+    __rmul__ = __mul__
+
+    def __imul__(self, n):
+        super(AVBRefList, self).__imul__(n)
+        self.mark_modified()
+        return self
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From 30c00d27a5c7b16e62c6a6e654c9eb1b2a23ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 15/36] fix: every operation of an attribute map sees its
 objects and marks the edit

---
 src/avb/attributes.py | 15 +++++++++++++++
 src/avb/core.py       | 30 ++++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..5f5cd68 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -50,6 +50,19 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        result = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return result
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
@@ -61,6 +74,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = None
             else:
                 obj[key] = value.copy(root)
         return obj
diff --git a/src/avb/core.py b/src/avb/core.py
index fb373b2..d4c5930 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -7,6 +7,10 @@ from __future__ import (
 
 import sys
 from collections import OrderedDict
+try:
+    from collections.abc import ItemsView, ValuesView
+except ImportError:
+    from collections import ItemsView, ValuesView
 from . import utils
 
 sentinel = object()
@@ -43,12 +47,34 @@ class AVBPropertyData(OrderedDict):
         return self.deref(super(AVBPropertyData, self).__getitem__(key))
 
     def items(self):
-        for key, value in super(AVBPropertyData, self).items():
-            yield key, self.deref(value)
+        return ItemsView(self)
+
+    def values(self):
+        return ValuesView(self)
 
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def pop(self, *args, **kwargs):
+        return self.deref(super(AVBPropertyData, self).pop(*args, **kwargs))
+
+    def popitem(self, *args, **kwargs):
+        key, value = super(AVBPropertyData, self).popitem(*args, **kwargs)
+        return key, self.deref(value)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __eq__(self, other):
+        if isinstance(other, AVBPropertyData):
+            other = OrderedDict(other.items())
+        return OrderedDict(self.items()) == other
+
+    def __ne__(self, other):
+        return not self == other
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
-- 
2.43.0


From fac8ecbea18cc8a8ace43b21cdb9262321de1473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 16/36] fix: a copy has only the original's properties and
 shares no mutable value with it

---
 src/avb/core.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index d4c5930..b90b503 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 try:
@@ -257,6 +258,13 @@ def walk_references(obj):
         yield obj
 
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    if isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    return copy.deepcopy(value)
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -314,24 +322,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # only what the original has, not what the constructor filled in
+        obj.property_data = AVBPropertyData()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From f6e68c24c954d1855ed2e5869d4087fb9606eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 17/36] fix: new objects do not share their default lists

---
 src/avb/bin.py  | 3 +--
 src/avb/core.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index b5428e3..7cdde7a 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -86,8 +86,7 @@ class BinViewSetting(Setting):
         self.kind = u'Bin View'
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
-        self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns = [dict(column) for column in default_bin_columns]
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index b90b503..2566668 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -281,7 +281,7 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            self.__setattr__(pdef.name, copy_value(pdef.default, self.root))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From 742ca7caf5a99fae3b69e8ba3eae0c908f4ba841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 18/36] fix: refuse a string of 65535 bytes, which would read
 back as none

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 937ceb7..45897d1 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -173,6 +173,9 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # 65535 marks a null string
+        if size >= 65535:
+            raise ValueError("string too long: %d bytes" % size)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From 91233d4582303c685ed98dc61565e63b51acf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 19/36] fix: write a date in an hour repeated by a clock change
 as the instant it is

---
 src/avb/ioctx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 45897d1..98d0da5 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import math
 import time
 from datetime import datetime
 from struct import (pack, unpack)
@@ -92,6 +93,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        if hasattr(d, 'timestamp'):
+            # tells apart the two passes of an hour repeated when clocks go back
+            return int(math.floor(d.timestamp()))
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From 16d84ec1f15566967b87613ca4070145bed6d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 20/36] fix: dependant_mobs ends when mobs refer to each other
 in a cycle

---
 src/avb/trackgroups.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 16e3c1e..c028686 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -231,20 +231,24 @@ class TrackGroup(Component):
         """
 
         visited = set()
+        expanded = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
 
-            for obj in walk_references(mob):
-                if isinstance(obj, SourceClip):
-                    ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
+            # mobs can refer to each other in a cycle
+            if mob.mob_id not in expanded:
+                expanded.add(mob.mob_id)
+                for obj in walk_references(mob):
+                    if isinstance(obj, SourceClip):
+                        ref_mob = obj.mob
+                        if not ref_mob:
+                            continue
+                        if ref_mob.mob_id not in expanded:
+                            stack.append(ref_mob)
+                            children_processed = False
 
             if children_processed:
                 stack.pop(-1)
-- 
2.43.0


From 16f29fb69b8326ab2e5935932ee8d217b91280b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 21/36] fix: a component starts at its position, not one edit
 unit later

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..83e4fea 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From fe9f1d332e6a4f1874d260ffcb0e49166e9632d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 22/36] fix: find_by_mob_id answers for the bin as it is now

---
 src/avb/bin.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 7cdde7a..bc42784 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -370,21 +370,25 @@ class Bin(core.AVBObject):
 
     def find_by_mob_id(self, mob_id):
 
+        # items and mob ids can change at any time, never trust the dictionary
+        index, mob = self._mob_dict.get(mob_id, (0, None))
+        if (mob is not None and mob.mob_id == mob_id and
+            index < len(self.items) and self.items[index].mob is mob):
+            return mob
+
         # build mob_id dictionary
-        if not self._mob_dict:
-            for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
+        self._mob_dict = {}
+        for index, mob in enumerate(self.mobs):
+            if hasattr(mob, 'mob_id'):
+                self._mob_dict[mob.mob_id] = (index, mob)
 
-        return self._mob_dict.get(mob_id, None)
+        return self._mob_dict.get(mob_id, (0, None))[1]
 
     def add_mob(self, mob):
         bin_item = self.root.create.BinItem()
         bin_item.mob = mob
         self.items.append(bin_item)
 
-        if self._mob_dict:
-            self._mob_dict[mob.mob_id] = mob
-
         return bin_item
 
     @property
-- 
2.43.0


From fb9b4b650d3ff7b20df4623726eb570022b684f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 23/36] fix: refuse sifted settings the format has no room for

---
 src/avb/bin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index bc42784..59e5f37 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -339,8 +339,10 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, self.display_mode)
         ctx.write_bool(f, self.sifted)
 
-        for i in range(6):
-            s = self.sifted_settings[i]
+        if len(self.sifted_settings) != 6:
+            raise ValueError("a bin has 6 sifted settings, not %d" % len(self.sifted_settings))
+
+        for s in self.sifted_settings:
             ctx.write_s16(f, s.method)
             ctx.write_string(f, s.string)
             ctx.write_string(f, s.column)
-- 
2.43.0


From 2b6575710ee59ce1a617aa7dd675bdec4bf0e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 24/36] fix: refuse to write an AudioSuitePluginEffect that
 could not be read

---
 src/avb/trackgroups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index c028686..fe6e355 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -546,6 +546,10 @@ class AudioSuitePluginEffect(TrackEffect):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # anything else could not be read again
+        if len(self.plugins) != 1:
+            raise ValueError("only a single plugin is supported, not %d" % len(self.plugins))
+
         ctx.write_s32(f, len(self.plugins))
         for plugin in self.plugins:
             ctx.write_string(f, plugin.name)
-- 
2.43.0


From c0cfab156e1dbdafce4a55023ee899fdfada803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 25/36] fix: a creator taken from the factory keeps creating
 its own kind

---
 src/avb/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..7f0ff4a 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -7,6 +7,7 @@ from __future__ import (
 
 import datetime
 
+import functools
 import struct
 import io
 import os
@@ -58,11 +59,9 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return functools.partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -84,9 +83,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 82bce0706336b3792cb9a93094757f81cc161f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 26/36] fix: a write that fails leaves its target alone, and a
 file can be written over its own source

---
 src/avb/file.py | 51 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 7f0ff4a..353d6fe 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -109,6 +109,7 @@ class AVBFile(object):
 
         self.octx = None
         self.ictx = None
+        self.source = None
 
         if fileobject is None:
             self.setup_empty()
@@ -347,24 +348,42 @@ class AVBFile(object):
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
         try:
-            with io.open(path, 'wb') as f:
-                count_pos = self.write_header(f)
-                for obj in walk_references(self.content):
-                    if obj.instance_id in self.ref_mapping:
-                        continue
-
-                    self.next_chunk_id += 1
-                    self.ref_mapping[obj.instance_id] = self.next_chunk_id
-                    self.write_object(f, obj)
-
-                pos = f.tell()
-                f.seek(count_pos)
-                ctx.write_u32(f, self.next_chunk_id)
-                ctx.write_u32(f, self.next_chunk_id)
-                f.seek(pos)
+            # the target is only touched once everything could be encoded
+            f = io.BytesIO()
+            count_pos = self.write_header(f)
+            for obj in walk_references(self.content):
+                if obj.root is not self:
+                    raise ValueError("object is from different file: " + str(obj))
+                if obj.instance_id in self.ref_mapping:
+                    continue
+
+                self.next_chunk_id += 1
+                self.ref_mapping[obj.instance_id] = self.next_chunk_id
+                self.write_object(f, obj)
+
+            f.seek(count_pos)
+            ctx.write_u32(f, self.next_chunk_id)
+            ctx.write_u32(f, self.next_chunk_id)
         finally:
             self.octx = None
 
+        self.detach_source(path)
+        with io.open(path, 'wb') as target:
+            target.write(f.getvalue())
+
+    def detach_source(self, path):
+        """keep objects not read yet readable when path is the file they are read from"""
+        try:
+            if not os.path.samestat(os.fstat(self.f.fileno()), os.stat(path)):
+                return
+        except (AttributeError, EnvironmentError, ValueError):
+            # no source, not a real file, closed or no target yet
+            return
+
+        self.f.seek(0)
+        self.source = self.f
+        self.f = io.BytesIO(self.f.read())
+
     def chunks(self):
         for i in range(len(self.object_positions)):
             yield self.read_chunk(i)
@@ -377,6 +396,8 @@ class AVBFile(object):
     def close(self):
         if self.f:
             self.f.close()
+        if self.source:
+            self.source.close()
 
     def __exit__(self, exc_type, exc_value, traceback):
         self.close()
-- 
2.43.0


From 6d50023d7a72dc579822347216697ff32ee44741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 27/36] fix: close a file that was opened but could not be
 parsed

---
 src/avb/file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 353d6fe..3c5970e 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -117,9 +117,17 @@ class AVBFile(object):
 
         if is_fileobject_like(fileobject):
             self.f = fileobject
-        else:
-            self.f = io.open(fileobject, 'rb', buffering=buffering)
+            self.setup_from_file(use_ext)
+            return
+
+        self.f = io.open(fileobject, 'rb', buffering=buffering)
+        try:
+            self.setup_from_file(use_ext)
+        except:
+            self.f.close()
+            raise
 
+    def setup_from_file(self, use_ext):
         f = self.f
         file_bytes = f.read(2)
         self.fast_readers = {}
-- 
2.43.0


From 21c631cd3b2032f833ff73ff6ac174ec60c90dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 28/36] fix: bezier interpolation has a value for every time
 between its points

---
 src/avb/interpolation.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..41fa3b7 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -56,7 +56,8 @@ def bezier_cubic_roots(pa, pb, pc, pd):
             return result
 
         # quadratic solution
-        q = math.sqrt(b*b - 4*a*c)
+        # there can be floating point error
+        q = math.sqrt(max(0.0, b*b - 4*a*c))
         a2 = 2.0*a
         root = (q-b)/a2
         if valid_root(root):
@@ -133,6 +134,19 @@ def bezier_cubic_roots(pa, pb, pc, pd):
 
     return result
 
+def bezier_bisect_root(pa, pb, pc, pd):
+    # only for curves that never go backwards
+    start = 0.0
+    end = 1.0
+    for i in range(64):
+        mid = (start + end) * 0.5
+        if cubic_bezier(pa, pb, pc, pd, mid) < 0.0:
+            start = mid
+        else:
+            end = mid
+
+    return (start + end) * 0.5
+
 def scale_handle(p0, p1, p2):
     # scale using similar triangles
     #         o <- p1
@@ -152,7 +166,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
@@ -176,12 +190,14 @@ def bezier_interpolate(p0, p1, p2, p3, x):
 
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
-    if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+    if roots:
+        root = roots[0]
+    else:
+        # the root got lost to floating point error
+        root = bezier_bisect_root(pa, pb, pc, pd)
 
     # use the root as t for y
-    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
+    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, root)))
     return y
 
 def bezier_interpolate_old(p0, p1, p2, p3, t):
-- 
2.43.0


From 97df3614c7ea598bf4b1e0b8082538c76d93921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 29/36] fix: integrate ranges of a single time and ranges
 before the first point

---
 src/avb/components.py    | 2 +-
 src/avb/interpolation.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 83e4fea..8da3af6 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -801,7 +801,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 41fa3b7..8bc9540 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -305,6 +305,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = start - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-- 
2.43.0


From 5015d2c8182630bed49c410098aec442c1300760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 30/36] fix: refuse lists of the wrong length and partly set
 extensions instead of dropping values

A rect, colour, box, aspect ratio or other fixed length list with too many
entries was written without them (MarkerBookCom.color even made a file that
could not be read), and a DIDDescriptor with only some of the fields of an
extension was written without any.
---
 src/avb/bin.py         |  1 +
 src/avb/components.py  |  4 ++++
 src/avb/essence.py     | 13 ++++++++++---
 src/avb/ioctx.py       |  7 +++++++
 src/avb/misc.py        |  2 ++
 src/avb/trackgroups.py |  1 +
 6 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 59e5f37..4fc7a26 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -351,6 +351,7 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, len(self.sort_columns))
 
         for col in self.sort_columns:
+            ctx.check_length(col, 2)
             ctx.write_u8(f, col[0])
             ctx.write_string(f, col[1])
 
diff --git a/src/avb/components.py b/src/avb/components.py
index 8da3af6..4250923 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -627,6 +627,7 @@ class ParamClip(Clip):
         ctx.write_s32(f, len(self.control_points))
 
         for cp in self.control_points:
+            ctx.check_length(cp.offset, 2)
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.timescale)
@@ -910,17 +911,20 @@ class ControlClip(Clip):
 
         ctx.write_s32(f, len(self.control_points))
         for cp in self.control_points:
+            ctx.check_length(cp.offset, 2)
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.time_scale)
 
             ctx.write_bool(f, True)
+            ctx.check_length(cp.value, 2)
             ctx.write_s32(f, cp.value[0])
             ctx.write_s32(f, cp.value[1])
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
                 ctx.write_s16(f, pp.code)
+                ctx.check_length(pp.value, 2)
                 ctx.write_s32(f, pp.value[0])
                 ctx.write_s32(f, pp.value[1])
 
diff --git a/src/avb/essence.py b/src/avb/essence.py
index c9bbf49..33f1567 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -792,6 +792,7 @@ class DIDDescriptor(MediaFileDescriptor):
 
         ctx.write_s16(f, self.frame_layout)
 
+        ctx.check_length(self.aspect_ratio, 2)
         ctx.write_s32(f, self.aspect_ratio[0])
         ctx.write_s32(f, self.aspect_ratio[1])
 
@@ -852,7 +853,13 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.frame_start_offset)
 
-        if hasattr(self, 'valid_box') and hasattr(self, 'essence_box') and hasattr(self, 'source_box'):
+        for box in ('valid_box', 'essence_box', 'source_box', 'framing_box'):
+            if hasattr(self, box):
+                ctx.check_length(getattr(self, box), 4)
+                for point in getattr(self, box):
+                    ctx.check_length(point, 2)
+
+        if hasattr(self, 'valid_box') or hasattr(self, 'essence_box') or hasattr(self, 'source_box'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
@@ -919,7 +926,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.source_box[3][1])
 
-        if hasattr(self, 'framing_box') and hasattr(self, 'reformatting_option'):
+        if hasattr(self, 'framing_box') or hasattr(self, 'reformatting_option'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
@@ -953,7 +960,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 80)
             ctx.write_raw_uuid(f, self.transfer_characteristic)
 
-        if hasattr(self, 'color_primaries') and hasattr(self, 'coding_equations'):
+        if hasattr(self, 'color_primaries') or hasattr(self, 'coding_equations'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 11)
             ctx.write_u8(f, 80)
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 98d0da5..a08954d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -311,7 +311,13 @@ class AVBIOContext(object):
 
         return [a,b,c,d]
 
+    @staticmethod
+    def check_length(v, length):
+        if len(v) != length:
+            raise ValueError("expected %d values, got %d" % (length, len(v)))
+
     def write_rect(self, f, v):
+        self.check_length(v, 4)
         self.write_s16(f, 1)
         self.write_s16(f, v[0])
         self.write_s16(f, v[1])
@@ -328,6 +334,7 @@ class AVBIOContext(object):
         return [r,g,b]
 
     def write_rgb_color(self, f, v):
+        self.check_length(v, 3)
         self.write_s16(f, 1)
         self.write_u16(f, v[0])
         self.write_u16(f, v[1])
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 6723677..8a185b5 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -354,6 +354,7 @@ class EffectParamList(core.AVBObject):
             ctx.write_s32(f, p.crop_bottom)
 
             # boxTop
+            ctx.check_length(p.box, 4)
             ctx.write_s32(f, p.box[0])
             # boxBottom
             ctx.write_s32(f, p.box[1])
@@ -932,6 +933,7 @@ class Marker(MobRef):
         #version
         ctx.write_s16(f, 1)
 
+        ctx.check_length(self.color, 3)
         for c in self.color:
             ctx.write_u16(f, c)
 
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index fe6e355..7b7d17a 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -817,6 +817,7 @@ class MotionEffect(TimeWarp):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x03)
 
+        ctx.check_length(self.speed_ratio, 2)
         ctx.write_s32(f, self.speed_ratio[0])
         ctx.write_s32(f, self.speed_ratio[1])
 
-- 
2.43.0


From e374cb7038e3fbe724a705e8779252fdf4713d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 31/36] fix: refuse to write a ParamClip of unknown value type
 and a Selector without its selected track

Both were written but could not be read again.
---
 src/avb/components.py  | 6 +++++-
 src/avb/trackgroups.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 4250923..67e9d55 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -621,6 +621,10 @@ class ParamClip(Clip):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # an unknown type can not be read back
+        if self.value_type not in (CP_TYPE_INT, CP_TYPE_DOUBLE, CP_TYPE_REFERENCE):
+            raise ValueError("unknown value type: %d" % self.value_type)
+
         ctx.write_s32(f, self.interp_kind)
         ctx.write_s16(f, self.value_type)
 
@@ -639,7 +643,7 @@ class ParamClip(Clip):
             elif self.value_type == CP_TYPE_REFERENCE:
                 ctx.write_object_ref(self.root, f, cp.value)
             else:
-                raise ValueError("unknown value type: %d" % cp.value_type)
+                raise ValueError("unknown value type: %d" % self.value_type)
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 7b7d17a..bcbe448 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1021,6 +1021,10 @@ class Selector(TrackGroup):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # can not be read back
+        if self.selected >= len(self.tracks):
+            raise ValueError("selected track %d of %d tracks" % (self.selected, len(self.tracks)))
+
         ctx.write_bool(f, self.is_ganged)
         ctx.write_u16(f, self.selected)
 
-- 
2.43.0


From 5aec334351c0c0fa24de24efa30e4a29a897603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 32/36] fix: refuse to write half of an extension of a
 DIDDescriptor or RGBADescriptor

Only the first field of the group was looked at, the others were dropped
silently when it was missing.
---
 src/avb/essence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 33f1567..acec4c0 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -832,7 +832,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.first_frame_offset)
 
-        if hasattr(self, 'client_fill_start'):
+        if hasattr(self, 'client_fill_start') or hasattr(self, 'client_fill_end'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x04)
             ctx.write_u8(f, 71)
@@ -1293,7 +1293,8 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 77)
             ctx.write_u64(f, self.frame_index_offset)
 
-        if hasattr(self, 'has_comp_min_ref'):
+        if (hasattr(self, 'has_comp_min_ref') or hasattr(self, 'comp_min_ref') or
+            hasattr(self, 'has_comp_max_ref') or hasattr(self, 'comp_max_ref')):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x02)
             ctx.write_u8(f, 66)
@@ -1308,7 +1309,7 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 72)
             ctx.write_u32(f, self.comp_max_ref)
 
-        if hasattr(self, 'alpha_min_ref'):
+        if hasattr(self, 'alpha_min_ref') or hasattr(self, 'alpha_max_ref'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x03)
             ctx.write_u8(f, 72)
-- 
2.43.0


From a39a24cfda612926c78f0a254e8757fa10b208a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 33/36] fix: create.Composition(name=...) raised TypeError

The name of the class and the constructor's name argument collided.
---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 3c5970e..daacc7e 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -63,11 +63,11 @@ class AVBFactory(object):
     def __getattr__(self, name):
         return functools.partial(self.from_name, name)
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0


From 39218ff595c0047e27b870b048a543ff6d7fe784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 34/36] fix: a rate keeps the last decimal that still fits its
 mantissa

---
 src/avb/ioctx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index a08954d..1386dcd 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -140,7 +140,7 @@ class AVBIOContext(object):
         scaled = value
         # the decimal with the fewest digits that is this value
         while abs(int(round(scaled)) - scaled) > abs(scaled) * 1e-14:
-            if abs(scaled * 10) >= 0x7FFFFFFF:
+            if abs(round(scaled * 10)) > 0x7FFFFFFF:
                 break
             if exponent <= -6:
                 break
-- 
2.43.0


From ca94f77891615ffb276fdb0afb14d88d9c9c1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:29 +0000
Subject: [PATCH 35/36] fix: bezier interpolation lost accuracy for almost
 quadratic curves

---
 src/avb/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 8bc9540..d280acc 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -192,8 +192,9 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     roots = bezier_cubic_roots(pa, pb, pc, pd)
     if roots:
         root = roots[0]
-    else:
-        # the root got lost to floating point error
+
+    # the root can get lost or become inaccurate due to floating point error
+    if not roots or abs(cubic_bezier(pa, pb, pc, pd, root)) > 1e-9 * (p3[0] - p0[0]):
         root = bezier_bisect_root(pa, pb, pc, pd)
 
     # use the root as t for y
-- 
2.43.0


From 48cc6e7ecfc53a5b38c6eaa9a16e071b47161a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 36/36] fix: writing deep or heavily shared structures failed
 or took exponential time

---
 src/avb/core.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 2566668..9df0b25 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -228,7 +228,7 @@ class AVBRefList(list):
         self.mark_modified()
         return self
 
-def walk_references(obj):
+def direct_references(obj):
 
     if isinstance(obj, list):
         property_values = obj
@@ -247,15 +247,38 @@ def walk_references(obj):
 
         if isinstance(v, list):
             for item in v:
-                for sub_v in walk_references(item):
-                    yield sub_v
+                yield item
 
         if hasattr(v, 'class_id') and v.class_id:
-            for sub_v in walk_references(v):
-                yield sub_v
+            yield v
+
 
-    if hasattr(obj, 'class_id') and obj.class_id:
-        yield obj
+def walk_references(obj):
+    """every object below obj once, after the objects it refers to, obj last"""
+
+    # not recursive and only once per object, so that deep and shared
+    # structures are no problem
+    visited = set()
+    stack = []
+    references = iter([obj])
+
+    while True:
+        for item in references:
+            if hasattr(item, 'class_id') and item.class_id:
+                key = (id(item.root), item.instance_id)
+                if key in visited:
+                    continue
+                visited.add(key)
+
+            stack.append((item, references))
+            references = direct_references(item)
+            break
+        else:
+            if not stack:
+                return
+            item, references = stack.pop()
+            if hasattr(item, 'class_id') and item.class_id:
+                yield item
 
 
 def copy_value(value, root):
-- 
2.43.0

