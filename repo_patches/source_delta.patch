From e68dbe0628c04a316b6d9b4a9334a8052892e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 01/31] fix: mask sub-field values so that writing one never
 changes its neighbours

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..279363f 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -87,7 +87,7 @@ public:
         using traits = detail::field_traits<T,Pos,Bits>;
         // Fetch the current value in host order, then mask off the field bits
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From 04f505870b8260634c6f38d2492618ad5fac6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 02/31] fix: store the 0x7FFF defaults of Eb/No, BER and SNR as
 the raw word value

---
 include/vrtgen/packing/cif1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..8f608e7 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -233,8 +233,8 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        m_packed.set<31,16>(0x7FFF);
+        m_packed.set<15,16>(0x7FFF);
     }
 
     /**
@@ -429,7 +429,7 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        m_packed.set<31,16>(0x7FFF);
     }
 
     /**
-- 
2.43.0


From 328a310f4395c2c46d24930f85512a89420fe9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 03/31] fix: convert azimuth angles above 255 degrees without
 overflowing the conversion

---
 include/vrtgen/packing/cif1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 8f608e7..04e60f3 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -151,7 +151,7 @@ public:
      */
     void azimuthal_angle(double value) noexcept
     {
-        subfield_15(value);
+        m_packed.set<15,16>(vrtgen::fixed::to_int<32,7>(value));
     }
 
 }; // end class PointingVector
-- 
2.43.0


From fd26fd1a8f65b80f7f44e7ae376d415a07a123e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 04/31] fix: give every member of a new Spectrum a defined
 value

---
 include/vrtgen/packing/cif1.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 04e60f3..c4efb3d 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -804,15 +804,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{ 0 };
+    uint32_t m_num_window_points{ 0 };
+    uint64_t m_resolution{ 0 };
+    uint64_t m_span{ 0 };
+    uint32_t m_num_averages{ 0 };
+    uint32_t m_weighting_factor{ 0 };
+    int32_t m_f1_index{ 0 };
+    int32_t m_f2_index{ 0 };
+    uint32_t m_window_time_delta{ 0 };
 
 }; // class Spectrum
 
-- 
2.43.0


From 7ee14a3921ffcf4eb8e873bc6c3595128d094a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 05/31] fix: read back negative spectrum resolution and span
 values

---
 include/vrtgen/packing/cif1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index c4efb3d..ae25eef 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -806,8 +806,8 @@ private:
     vrtgen::packed<uint32_t> m_window_type;
     uint32_t m_num_transform_points{ 0 };
     uint32_t m_num_window_points{ 0 };
-    uint64_t m_resolution{ 0 };
-    uint64_t m_span{ 0 };
+    int64_t m_resolution{ 0 };
+    int64_t m_span{ 0 };
     uint32_t m_num_averages{ 0 };
     uint32_t m_weighting_factor{ 0 };
     int32_t m_f1_index{ 0 };
-- 
2.43.0


From 8e88f19049069ade7b6ffcdbbaa91ba1650767ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 06/31] fix: drop the pending value of an optional structure
 field when it is reset

---
 .../cpp/templates/macros/function_defs/cif.jinja2      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..7bdc4e6 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -153,7 +153,6 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   else %}
 {%     if field.is_optional %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
-        m_{{ field.name }}.reset();
 {%     else %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
 {%     endif %}
@@ -161,6 +160,9 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         update_positions();
         update_packet_size();
     }
+{%   if field.is_optional and not type_helper.is_scalar(field) %}
+    m_{{ field.name }}.reset();
+{%   endif %}
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
@@ -230,12 +232,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {
 {% if cif.is_optional%}
-    if (m_{{ cif.name }}.has_value()) {
 {%   for field in cif.fields if field.is_optional %}
-        if (m_{{ cif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}();
-        }
+    reset_{{ field.name }}();
 {%   endfor %}
+    if (m_{{ cif.name }}.has_value()) {
 {%   if cif.name == 'cif_1' %}
         m_{{ packet.cif0.name }}.cif1_enable(false);
 {%   elif cif.name == 'cif_2' %}
-- 
2.43.0


From b20ec94a527a4c9ef4cae36c639a7d0afc74ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 07/31] fix: zero the padding bytes when a payload is replaced
 by one that is not a whole number of words

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From 586c1d46125f7643c8bd4dea13845ffdcf7a8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 08/31] fix: leave out the timestamp word when its type is
 given as none

---
 src/vrtgen/parser/model/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..bd79aa0 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -110,10 +110,18 @@ class Packet:
             self.header.tsi.enabled = True
             self.header.tsi.required = True
             self.header.tsi.value = self.timestamp.tsi.value
+            if self.timestamp.tsi.value == TSI.NONE:
+                # the packet carries no integer timestamp
+                self.timestamp.integer.enabled = False
+                self.timestamp.integer.required = False
         if self.timestamp.fractional.enabled:
             self.header.tsf.enabled = True
             self.header.tsf.required = True
             self.header.tsf.value = self.timestamp.tsf.value
+            if self.timestamp.tsf.value == TSF.NONE:
+                # the packet carries no fractional timestamp
+                self.timestamp.fractional.enabled = False
+                self.timestamp.fractional.required = False
 
 @dataclass
 class StateEventIndicators(PackedStruct):
-- 
2.43.0


From 5173ff1842251c028987273b6996f34cbde7073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 09/31] fix: keep every sub-field of a user-defined stream
 identifier

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From cf4b73c179d92f9aa7d5f697480ac60aff52b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 10/31] fix: refuse trailer specifications whose user-defined
 bits overlap other indicators

---
 src/vrtgen/parser/model/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 59030c1..32308f8 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -58,7 +58,6 @@ class Trailer(StateEventIndicators):
 
     def _parse_mapping(self, mapping):
         packed_tag_pos = 8
-        greater_than_two = False
         try:
             for key,val in mapping.items():
                 if not key in [f.name for f in self.fields]:
@@ -78,8 +77,6 @@ class Trailer(StateEventIndicators):
                             member_val += 1
                         user_defined_enum = BinaryEnum(key, enum_members)
                         user_defined_enum.bits = bits
-                        if bits > 2:
-                            greater_than_two = True
                         pos = packed_tag_pos + bits - 1
                         self.subfields.append(EnumType(key, enabled=True, required=True, user_defined=True, type_=user_defined_enum, packed_tag=PackedTag(pos,bits,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', bits=bits, enabled=True, required=True, user_defined=True, is_enable=True, is_enum=True, packed_tag=PackedTag(pos+12,bits,0,0)))
@@ -89,9 +86,9 @@ class Trailer(StateEventIndicators):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
 
-            if len(self.subfields) > 4 and self.sample_frame.enabled:
-                raise ValueError('Cannot have user_defined_higher and sample_frame')
-            if greater_than_two and self.sample_frame.enabled:
+            if packed_tag_pos > 12:
+                raise ValueError('too many user defined bits for the trailer')
+            if packed_tag_pos > 10 and self.sample_frame.enabled:
                 raise ValueError('Cannot have user_defined_higher and sample_frame')
         except:
             raise
-- 
2.43.0


From 7b04b14794e7b35dbaa8eef411ab54092f108cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 11/31] fix: allow a sub-field as wide as its word

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 279363f..4839c6b 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask{ (static_cast<T>(~T{}) >> (sizeof(T) * 8 - bits)) << shift };
 }; // end struct field_traits
 
 } // end namespace detail
-- 
2.43.0


From 7d73d9b8f7748955278641e72ba03837cbc009fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 12/31] fix: one-bit enumerations in a trailer compile

---
 .../backend/cpp/templates/macros/types/user_class.jinja2      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..4d3d18a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -77,7 +77,7 @@ private:
 auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type }}>
 {
     if ({{ field.name }}_enable()) {
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
@@ -89,7 +89,7 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
 auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
 {
     {{ field.name }}_enable(true);
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
-- 
2.43.0


From 9f5679721e3401fcff2f7f7fd702361e43012681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 13/31] fix: generate query-state acknowledge packets with
 required fields

---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
-- 
2.43.0


From 0e600f60f9e8c87f5849cbd67506708ccdeb9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 14/31] fix: acknowledge packets match every packet of their
 kind whatever its pad bits

---
 .../cpp/templates/macros/function_defs/match.jinja2   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..1d9e21c 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -132,6 +132,15 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name == 'tsi' and field.value.value == 0b111 %}
+{%     continue %}
+{%   endif %}
+{%   if field.name == 'tsf' and field.value.value == 0b111 %}
+{%     continue %}
+{%   endif %}
+{%   if field.name == 'tsm' and field.value.value == 0b111 %}
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +161,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
-- 
2.43.0


From 9403d65a08cba2c7681fc44e2ee184fca6c64a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 15/31] fix: offer warnings and errors for every field of the
 control packet

---
 src/vrtgen/parser/model/command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..86ec096 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From 1a7e7547df56f1c07addde183e0be1ef0ca042d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 16/31] fix: extension commands with only CIF1 or CIF2 fields
 carry the CIF0 that announces them

---
 src/vrtgen/parser/model/command.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 86ec096..9d8cb7f 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -240,6 +240,13 @@ class ExtensionControlPacket(ControlPacket):
         self.cif_0.enabled = False
         self.cif_0.required = False
 
+    def _parse_mapping(self, mapping):
+        super()._parse_mapping(mapping)
+        # The other CIF words are announced by CIF0
+        if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:
+            self.cif_0.enabled = True
+            self.cif_0.required = True
+
 @dataclass
 class WarningErrorFields(PackedStruct):
     """
-- 
2.43.0


From fd635309c5aa358ea1786f70c445f2d6be6e8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 17/31] fix: guard the error members of acknowledge packets by
 the error option

---
 src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..cf70b73 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -172,17 +172,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
-- 
2.43.0


From 986b8352700415f7250bca11e8c56ac70a734c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 18/31] fix: a new query-state acknowledge packet states its
 packet size

---
 .../cpp/templates/macros/function_defs/constructors.jinja2       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..e723873 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -717,6 +717,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
-- 
2.43.0


From f4a56cae5bf2a082499a1b1c984bda16e3cd77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 19/31] fix: warning and error setters and resets keep the
 indicator words and the acknowledge word consistent

---
 .../cpp/templates/macros/types/weif.jinja2    | 54 +++++++++++--------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..0aa369e 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -19,6 +19,9 @@
 {%- import "macros/function_defs/common.jinja2" as common %}
 
 {%- macro weif_functions(packet, packet_name, weif, is_warning, type_helper) %}
+{% set weif0 = packet.wif0 if is_warning else packet.eif0 %}
+{% set weif1 = packet.wif1 if is_warning else packet.eif1 %}
+{% set weif_enable = ('wif' if is_warning else 'eif') + ('1' if weif.name == weif1.name else '2') + '_enable' %}
 {{ common.const_ref_getter(packet_name, weif, type_helper) | trim }}
 
 auto {{ packet_name }}::reset_{{ weif.name }}() -> void
@@ -38,30 +41,20 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
 {% endfor %}
+    if (m_{{ weif.name }}.has_value()) {
         const auto pos{ m_positions.at("{{ weif.name }}") };
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
         m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
+{% if weif.name == weif0.name %}
+        m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}(false);
+        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
+        if (m_{{ weif0.name }}.has_value()) {
+            m_{{ weif0.name }}->{{ weif_enable }}(false);
+            m_{{ weif0.name }}->pack_into(m_data.data() + m_positions.at("{{ weif0.name }}"));
         }
 {% endif %}
         update_positions();
@@ -87,6 +80,14 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
+{% if weif.name != weif0.name %}
+    if (!m_{{ weif0.name }}.has_value()) {
+        m_{{ weif0.name }} = {{ type_helper.member_type(weif0) }}{};
+        m_data.insert(m_data.begin() + m_positions.at("{{ weif0.name }}"), m_{{ weif0.name }}->size(), 0);
+        update_positions();
+        update_packet_size();
+    }
+{% endif %}
     if (!m_{{ weif.name }}.has_value()) {
         m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
         m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
@@ -101,6 +102,10 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
         update_packet_size();
     }
     m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
+{% if weif.name != weif0.name %}
+    m_{{ weif0.name }}->{{ weif_enable }}(true);
+    m_{{ weif0.name }}->pack_into(m_data.data() + m_positions.at("{{ weif0.name }}"));
+{% endif %}
 {% if is_warning %}
     m_{{ packet.cam.name }}.ack_w(true);
 {% else %}
@@ -114,12 +119,15 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
+    if (m_{{ weif.name }}.has_value() && m_{{ weif.name }}->{{ field.name }}()) {
+        const auto pos{ m_positions.at("{{ func_name }}") };
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
+        m_{{ weif.name }}->{{ field.name }}(false);
+        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+        update_positions();
+        update_packet_size();
+    }
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
 }
 
 {% endfor %}
-- 
2.43.0


From 6e1a89404a016acca4158a09b6511ff7bf2a9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 20/31] fix: insert responses set through references at their
 place, also in parsed acknowledge packets

---
 .../cpp/templates/ack_packet.cpp.jinja2       | 40 +++++++++----------
 .../macros/function_defs/constructors.jinja2  |  1 +
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..b5ba10d 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -36,44 +36,44 @@ auto {{ packet_name }}::update_positions() -> void
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
+    m_positions["{{ packet.wif0.name }}"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value()) {
         curr_pos += m_{{ packet.wif0.name }}->size();
     }
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
+    m_positions["{{ packet.wif1.name }}"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value()) {
         curr_pos += m_{{ packet.wif1.name }}->size();
     }
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
+    m_positions["{{ packet.wif2.name }}"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value()) {
         curr_pos += m_{{ packet.wif2.name }}->size();
     }
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
+    m_positions["{{ packet.eif0.name }}"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value()) {
         curr_pos += m_{{ packet.eif0.name }}->size();
     }
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
+    m_positions["{{ packet.eif1.name }}"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value()) {
         curr_pos += m_{{ packet.eif1.name }}->size();
     }
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
+    m_positions["{{ packet.eif2.name }}"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value()) {
         curr_pos += m_{{ packet.eif2.name }}->size();
     }
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -81,7 +81,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -89,7 +89,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -97,7 +97,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
@@ -105,7 +105,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
@@ -113,7 +113,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
@@ -146,10 +146,10 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
-        m_{{ packet.wif0.name }}->{{ field.name }}(true);
         m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
@@ -175,12 +175,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.wif0.name }}->wif1_enable(true);
         m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ packet.wif1.name }}->{{ field.name }}(true);
         m_{{ packet.wif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif1.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
@@ -194,7 +194,7 @@ auto {{ packet_name }}::sync() -> void
     if (m_{{ field_name }}.has_value()) {
         if (!m_{{ packet.wif0.name }}.has_value()) {
             m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
+            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
             update_positions();
             update_packet_size();
         }
@@ -206,12 +206,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-        m_{{ packet.wif2.name }}->{{ field.name }}(true);
+        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
         m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
@@ -231,10 +231,10 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
-        m_{{ packet.eif0.name }}->{{ field.name }}(true);
         m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
@@ -260,12 +260,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.eif0.name }}->eif1_enable(true);
         m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif1.name }}->{{ field.name }}(true);
         m_{{ packet.eif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif1.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
@@ -291,12 +291,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.eif0.name }}->eif2_enable(true);
         m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif2.name }}->{{ field.name }}(true);
         m_{{ packet.eif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif2.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index e723873..2909add 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -697,6 +697,7 @@ curr_pos += m_{{ field.name }}.size();
     }
 {%   endif %}
 {% endif %}
+    update_positions();
 }
 {% endmacro %}
 
-- 
2.43.0


From 7c8854c333402a5cf78d2417ba0d8f35f1f67ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 21/31] fix: GPS ASCII: derive the word count from the text and
 pad the last word

---
 include/vrtgen/packing/cif0.hpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..27845a2 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1050,7 +1050,7 @@ public:
      */
     uint32_t number_of_words() const noexcept
     {
-        return m_packed.get<31,32,uint32_t>();
+        return (m_ascii_sentences.size() + 3) / 4;
     }
 
     /**
@@ -1090,8 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
-        number_of_words(m_ascii_sentences.size()/4);
+        m_ascii_sentences.resize(std::size_t{ number_of_words() } * 4);
     }
 
     /**
@@ -1101,7 +1100,7 @@ public:
     std::size_t size() const noexcept
     {
         return m_packed.size() +
-               m_ascii_sentences.size();
+               std::size_t{ number_of_words() } * 4;
     }
 
     /**
@@ -1110,9 +1109,12 @@ public:
      */
     void pack_into(uint8_t* buffer_ptr) const
     {
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        auto packed = m_packed;
+        packed.set<31,32>(number_of_words());
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
         std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
+        std::memset(buffer_ptr + m_ascii_sentences.size(), 0, size() - packed.size() - m_ascii_sentences.size());
     }
 
     /**
@@ -1124,23 +1126,11 @@ public:
         auto ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_ascii_sentences.resize(number_of_words()*4);
-        std::copy(ptr, ptr + number_of_words()*4, m_ascii_sentences.data());
+        m_ascii_sentences.resize(std::size_t{ m_packed.get<31,32,uint32_t>() } * 4);
+        std::copy(ptr, ptr + m_ascii_sentences.size(), m_ascii_sentences.data());
     }
 
 private:
-    /**
-     * @brief Sets the Number of Words subfield value
-     * @param value Number of Words subfield value to set
-     * 
-     * Number of Words subfield is 32 bits long at bit position 31 in word 2
-     * See VITA 49.2-2017 Figure 9.4.7-1
-     */
-    void number_of_words(uint32_t value) noexcept
-    {
-        m_packed.set<31,32>(value);
-    }
-
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint8_t> m_ascii_sentences;
 
-- 
2.43.0


From bfb28f898d19c4bfab9587512155cc1bb91a1cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 22/31] fix: context association lists: big-endian elements,
 tag list enable follows the tag list

---
 include/vrtgen/packing/cif0.hpp | 75 ++++++++++++++-------------------
 1 file changed, 31 insertions(+), 44 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 27845a2..07aea1d 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1452,29 +1452,15 @@ public:
         source_list_size(m_source_list.size());
         system_list_size(m_system_list.size());
         vector_component_list_size(m_vector_component_list.size());
+        async_channel_tag_list_enable(!m_async_channel_tag_list.empty());
         async_channel_list_size(m_async_channel_list.size());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_source_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_system_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_vector_component_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_async_channel_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_async_channel_tag_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
+        buffer_ptr = pack_list(m_source_list, buffer_ptr);
+        buffer_ptr = pack_list(m_system_list, buffer_ptr);
+        buffer_ptr = pack_list(m_vector_component_list, buffer_ptr);
+        buffer_ptr = pack_list(m_async_channel_list, buffer_ptr);
+        pack_list(m_async_channel_tag_list, buffer_ptr);
     }
 
     /**
@@ -1486,34 +1472,35 @@ public:
         auto* ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_source_list.resize(source_list_size());
-        for (std::size_t i=0; i<m_source_list.size(); ++i) {
-            std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_system_list.resize(system_list_size());
-        for (std::size_t i=0; i<m_system_list.size(); ++i) {
-            std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_vector_component_list.resize(vector_component_list_size());
-        for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
-            std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_async_channel_list.resize(async_channel_list_size());
-        for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
-            std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
+        ptr = unpack_list(m_source_list, source_list_size(), ptr);
+        ptr = unpack_list(m_system_list, system_list_size(), ptr);
+        ptr = unpack_list(m_vector_component_list, vector_component_list_size(), ptr);
+        ptr = unpack_list(m_async_channel_list, async_channel_list_size(), ptr);
+        unpack_list(m_async_channel_tag_list, async_channel_tag_list_enable() ? async_channel_list_size() : 0, ptr);
+    }
+
+private:
+    static uint8_t* pack_list(const std::vector<uint32_t>& list, uint8_t* buffer_ptr)
+    {
+        for (const auto elem : list) {
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
+            buffer_ptr += sizeof(value);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
-        for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
-            std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
+        return buffer_ptr;
+    }
+
+    static const uint8_t* unpack_list(std::vector<uint32_t>& list, std::size_t count, const uint8_t* buffer_ptr)
+    {
+        list.resize(count);
+        for (auto& elem : list) {
+            std::memcpy(&elem, buffer_ptr, sizeof(elem));
+            elem = vrtgen::swap::from_be(elem);
+            buffer_ptr += sizeof(elem);
         }
+        return buffer_ptr;
     }
 
-private:
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint32_t> m_source_list;
     std::vector<uint32_t> m_system_list;
-- 
2.43.0


From 0473babc24bd74210a6721dae2a0d45f56fc45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 23/31] fix: index list: big-endian entries, header fields and
 padding match the entries

---
 include/vrtgen/packing/cif1.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index ae25eef..392f193 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1130,22 +1130,28 @@ public:
         retval += sizeof(m_total_size);
         retval += m_packed.size();
         if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
+            retval += (m_entries.size() * sizeof(T) + 3) / 4 * 4;
         }
         return retval;
     }
 
     void pack_into(uint8_t* buffer_ptr) const
     {
-        std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
-        buffer_ptr += sizeof(m_total_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        static_assert(std::is_integral_v<T> && sizeof(T) <= 4);
+        const auto total_size = vrtgen::swap::to_be(static_cast<uint32_t>(size() / 4));
+        auto packed = m_packed;
+        packed.set<31,4>(static_cast<uint8_t>(sizeof(T)));
+        packed.set<19,20>(static_cast<uint32_t>(m_entries.size()));
+        std::memcpy(buffer_ptr, &total_size, sizeof(total_size));
+        buffer_ptr += sizeof(total_size);
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
         for (const auto elem : m_entries) {
-            static_assert(std::is_trivially_copyable_v<decltype(elem)>);
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
+            buffer_ptr += sizeof(value);
         }
+        std::memset(buffer_ptr, 0, size() - sizeof(total_size) - packed.size() - m_entries.size() * sizeof(T));
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
@@ -1158,6 +1164,7 @@ public:
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
             std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
+            m_entries[i] = vrtgen::swap::from_be(m_entries[i]);
             ptr += sizeof(m_entries[i]);
         }
     }
-- 
2.43.0


From 30b890c857e54256cf93f9bc441c47e28a23c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 24/31] fix: sector/step-scan: array size, words per record and
 record count match the records

---
 include/vrtgen/packing/cif1.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 392f193..845cd0e 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1036,10 +1036,14 @@ public:
 
     void pack_into(uint8_t* buffer_ptr) const
     {
-        std::memcpy(buffer_ptr, &m_array_size, sizeof(m_array_size));
-        buffer_ptr += sizeof(m_array_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        const auto array_size = vrtgen::swap::to_be(static_cast<uint32_t>(size() / 4));
+        auto packed = m_packed;
+        packed.set<23,12>(static_cast<uint16_t>(m_records.empty() ? 0 : m_records.front().size() / 4));
+        packed.set<11,12>(static_cast<uint16_t>(m_records.size()));
+        std::memcpy(buffer_ptr, &array_size, sizeof(array_size));
+        buffer_ptr += sizeof(array_size);
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
         m_subfield_cif.pack_into(buffer_ptr);
         buffer_ptr += m_subfield_cif.size();
         for (const auto& elem : m_records) {
-- 
2.43.0


From 0bae7701addf035a945f716ce9d869e0b665b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 25/31] fix: OUI literals: hexadecimal digits only, reserved
 OUI refused in either letter case

---
 src/vrtgen/parser/value.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..9718bdf 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -88,8 +88,8 @@ def parse_enable(value):
     except KeyError:
         raise ValueError('invalid enable value: ' + value)
 
-_HEX_DIGIT = r'[0-9a-zA-Z]'
-_OUI_RE = re.compile(r'({0})-({0})-({0})$'.format(_HEX_DIGIT*2))
+_HEX_DIGIT = r'[0-9a-fA-F]'
+_OUI_RE = re.compile(r'({0})-({0})-({0})'.format(_HEX_DIGIT*2))
 def parse_oui(value):
     """
     Parsers an Organizationally Unique Identifier literal.
@@ -97,9 +97,9 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
-    match = _OUI_RE.match(str(value))
+    match = _OUI_RE.fullmatch(str(value))
     if not match:
         raise ValueError('OUI format must be XX-XX-XX')
     return int(''.join(match.groups()), 16)
-- 
2.43.0


From b0aaec22bdf310f11f6e7c888c21fbd245930211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 26/31] fix: class codes and stream identifiers that do not fit
 their field are refused

---
 src/vrtgen/parser/loader.py            |  3 ++-
 src/vrtgen/parser/model/information.py |  3 +++
 src/vrtgen/parser/model/prologue.py    |  4 ++--
 src/vrtgen/parser/value.py             | 10 ++++++++++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index a4eb07b..5f0f074 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -22,6 +22,7 @@ from vrtgen.parser.model import data, context, command
 from vrtgen.parser.model.types import packing
 from vrtgen.parser.model import prologue, cif0, cif1, cif2, cif7
 from vrtgen.parser.model import information
+from vrtgen.parser.value import parse_integer
 
 def data_packet_constructor(loader, node) -> data.DataPacket:
     """
@@ -102,7 +103,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
                 raise
             if not isinstance(node_scalar_value, int):
                 raise ValueError('stream_id value must be an int, not',type(node_scalar_value))
-            stream_id.value = node_scalar_value
+            stream_id.value = parse_integer(node_scalar_value, stream_id.bits)
     else:
         pos = 0
         fields = [('name',str,'stream_id')]
diff --git a/src/vrtgen/parser/model/information.py b/src/vrtgen/parser/model/information.py
index 83c2031..0c88920 100644
--- a/src/vrtgen/parser/model/information.py
+++ b/src/vrtgen/parser/model/information.py
@@ -1,6 +1,7 @@
 from dataclasses import dataclass, field
 
 from vrtgen.parser.model.base import Packet, ListType
+from vrtgen.parser.value import parse_integer
 
 
 @dataclass
@@ -18,6 +19,8 @@ class InformationClass:
         for key,val in mapping.items():
             if key == 'packet_classes':
                 self.__dict__[key].values = val
+            elif key == 'code':
+                self.code = parse_integer(val, 16)
             else:
                 self.__dict__[key] = val
 
diff --git a/src/vrtgen/parser/model/prologue.py b/src/vrtgen/parser/model/prologue.py
index d4c570b..caf0210 100644
--- a/src/vrtgen/parser/model/prologue.py
+++ b/src/vrtgen/parser/model/prologue.py
@@ -25,9 +25,9 @@ class ClassIdentifier(PackedStruct):
                 if key == 'oui':
                     self.oui.value = value.parse_oui(val)
                 elif key == 'packet_code':
-                    self.packet_code.value = val
+                    self.packet_code.value = value.parse_integer(val, self.packet_code.bits)
                 elif key == 'information_code':
-                    self.information_code.value = val
+                    self.information_code.value = value.parse_integer(val, self.information_code.bits)
                 else:
                     raise KeyError(val)
             except:
diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 9718bdf..ada352a 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -168,3 +168,13 @@ def parse_entry_size(value):
         return _ENTRY_SIZE_VALUES[str(value)]
     except KeyError:
         raise ValueError('invalid entry size: ' + value)
+
+def parse_integer(value, bits):
+    """
+    Parses an unsigned integer literal for a field of the given size.
+    """
+    if not isinstance(value, int) or isinstance(value, bool):
+        raise TypeError('invalid integer value: ' + str(value))
+    if not 0 <= value < (1 << bits):
+        raise ValueError('integer value does not fit into {} bits: {}'.format(bits, value))
+    return value
-- 
2.43.0


From e993a781fe0e116383be09f08443f4741667b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 27/31] fix: IntegerType: number of bits is a positive integer
 or refused

---
 src/vrtgen/parser/model/types/packing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/model/types/packing.py b/src/vrtgen/parser/model/types/packing.py
index 54933d5..143708f 100644
--- a/src/vrtgen/parser/model/types/packing.py
+++ b/src/vrtgen/parser/model/types/packing.py
@@ -97,7 +97,9 @@ class IntegerType(Field):
     def parse_mapping(self, **mapping):
         for key,val in mapping.items():
             if key == 'bits':
-                self.bits = int(val)
+                if not isinstance(val, int) or isinstance(val, bool) or val < 1:
+                    raise ValueError('invalid number of bits: ' + str(val))
+                self.bits = val
             if key == 'value':
                 self.value = val
 
-- 
2.43.0


From c3869a8b78328a046da0ec2d71e6e9f44cf41400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 28/31] fix: CAM action mode: required and optional regardless
 of letter case

---
 src/vrtgen/parser/model/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 9d8cb7f..a755d09 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -84,7 +84,7 @@ class ControlAcknowledgeMode(PackedStruct):
                 self.__dict__[key].enabled = True
                 self.__dict__[key].required = True
             elif key == 'action_mode':
-                if val == 'required' or val == 'optional':
+                if isinstance(val, str) and val.casefold() in ('required', 'optional'):
                     mode = parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
-- 
2.43.0


From e2c72a4c69f9cd87e40224c08378838f57e40aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:33 +0000
Subject: [PATCH 29/31] fix: never read or write outside the data in unpack
 constructors and match

The generated unpack constructors copied packet-size words from the received
data and unpacked every indicated field without looking at how many bytes there
were, and match() read the prologue of data shorter than it. Bytes missing from
truncated data are now taken to be zero, a packet size too small for the packet
is corrected, and match() reports data shorter than the prologue as a mismatch.
---
 .../macros/function_defs/constructors.jinja2  | 53 +++++++++++++++++--
 .../macros/function_defs/match.jinja2         | 21 ++++++++
 .../backend/cpp/templates/packet.hpp.jinja2   |  1 +
 3 files changed, 72 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 2909add..bcc32b1 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -250,10 +250,27 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 }
 {% endmacro %}
 
+{#- bytes missing from truncated data are taken to be zero -#}
+{%- macro provide_bytes(packet, bytes) %}
+if (m_data.size() < curr_pos{{ ' + ' + bytes if bytes }}) {
+    m_data.resize(curr_pos{{ ' + ' + bytes if bytes }});
+}
+{%- endmacro %}
+
+{%- macro restore_packet_size(packet) %}
+if (m_data.size() != m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t)) {
+    update_packet_size();
+}
+{%- endmacro %}
+
 {%- macro unpack_prologue(packet, type_helper) %}
-m_{{ packet.header.name }}.unpack_from(data.data());
-m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
-std::memcpy(m_data.data(), data.data(), m_data.size());
+m_data.resize(m_{{ packet.header.name }}.size());
+std::memcpy(m_data.data(), data.data(), std::min(m_data.size(), data.size()));
+m_{{ packet.header.name }}.unpack_from(m_data.data());
+const auto packet_bytes = m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t);
+m_data.resize(std::max(packet_bytes, min_bytes()));
+std::memcpy(m_data.data(), data.data(), std::min(packet_bytes, data.size()));
+{{ restore_packet_size(packet) | trim }}
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
@@ -311,6 +328,7 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
+{{ provide_bytes(packet, 'm_' ~ packet.cif0.name ~ '.size()') | trim }}
 m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
@@ -319,10 +337,12 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
+    {{ provide_bytes(packet, 'm_' ~ packet.cif1.name ~ '->size()') | indent(4) | trim }}
     m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
+{{ provide_bytes(packet, 'm_' ~ packet.cif1.name ~ '.size()') | trim }}
 m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
@@ -332,10 +352,12 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
+    {{ provide_bytes(packet, 'm_' ~ packet.cif2.name ~ '->size()') | indent(4) | trim }}
     m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
+{{ provide_bytes(packet, 'm_' ~ packet.cif2.name ~ '.size()') | trim }}
 m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
@@ -345,10 +367,12 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
+    {{ provide_bytes(packet, 'm_' ~ packet.cif7.name ~ '->size()') | indent(4) | trim }}
     m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
+{{ provide_bytes(packet, 'm_' ~ packet.cif7.name ~ '.size()') | trim }}
 m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
@@ -368,6 +392,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    {{ provide_bytes(packet, 'm_' ~ field.name ~ '->size()') | indent(4) | trim }}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -379,6 +404,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
+    {{ provide_bytes(packet, 'm_' ~ field.name ~ '_attributes->size()') | indent(4) | trim }}
     m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
@@ -390,11 +416,13 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+{{ provide_bytes(packet, 'm_' ~ field.name ~ '.size()') | trim }}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
+{{ provide_bytes(packet, 'm_' ~ field.name ~ '_attributes.size()') | trim }}
 m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
@@ -417,6 +445,7 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    {{ provide_bytes(packet, 'm_' ~ field.name ~ '->size()') | indent(4) | trim }}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -428,6 +457,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+{{ provide_bytes(packet, 'm_' ~ field.name ~ '.size()') | trim }}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
@@ -450,6 +480,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    {{ provide_bytes(packet, 'm_' ~ field.name ~ '->size()') | indent(4) | trim }}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -461,12 +492,15 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+{{ provide_bytes(packet, 'm_' ~ field.name ~ '.size()') | trim }}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
 {%   endfor %}
 {% endif %}
+{{ provide_bytes(packet, '') | trim }}
+{{ restore_packet_size(packet) | trim }}
 {% endmacro %}
 
 {%- macro unpack_constructor(packet, type_helper) %}
@@ -581,12 +615,14 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
+        {{ provide_bytes(packet, 'm_' ~ packet.wif0.name ~ '->size()') | indent(8) | trim }}
         m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
+            {{ provide_bytes(packet, 'm_' ~ packet.wif1.name ~ '->size()') | indent(12) | trim }}
             m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
@@ -595,6 +631,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
+            {{ provide_bytes(packet, 'm_' ~ packet.wif2.name ~ '->size()') | indent(12) | trim }}
             m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
@@ -605,12 +642,14 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
+        {{ provide_bytes(packet, 'm_' ~ packet.eif0.name ~ '->size()') | indent(8) | trim }}
         m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
+            {{ provide_bytes(packet, 'm_' ~ packet.eif1.name ~ '->size()') | indent(12) | trim }}
             m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
@@ -619,6 +658,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
+            {{ provide_bytes(packet, 'm_' ~ packet.eif2.name ~ '->size()') | indent(12) | trim }}
             m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
@@ -631,6 +671,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_warnings->size()') | indent(12) | trim }}
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -642,6 +683,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_warnings->size()') | indent(12) | trim }}
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -654,6 +696,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_warnings->size()') | indent(12) | trim }}
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -667,6 +710,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_errors->size()') | indent(12) | trim }}
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -678,6 +722,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_errors->size()') | indent(12) | trim }}
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -690,6 +735,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            {{ provide_bytes(packet, 'm_' ~ field.name ~ '_errors->size()') | indent(12) | trim }}
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -697,6 +743,7 @@ curr_pos += m_{{ field.name }}.size();
     }
 {%   endif %}
 {% endif %}
+    {{ restore_packet_size(packet) | indent(4) | trim }}
     update_positions();
 }
 {% endmacro %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 1d9e21c..1225e7b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -21,6 +21,9 @@
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Failed to match header. Received data is too short." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -57,6 +60,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Failed to match {{ packet.class_id.name }}. Received data is too short." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -84,6 +90,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Failed to match {{ packet.cam.name }}. Received data is too short." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
@@ -105,6 +114,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.trailer.enabled and packet.trailer.user_defined %}
     auto {{ packet.trailer.name }} = {{ type_helper.value_type(packet.trailer) }}{};
+    if (header.packet_size() * sizeof(uint32_t) > data.size() || header.packet_size() * sizeof(uint32_t) < curr_pos + {{ packet.trailer.name }}.size()) {
+        return { "Failed to match {{ packet.trailer.name }}. Packet size does not match the received data." };
+    }
     {{ packet.trailer.name }}.unpack_from(data.data() + (header.packet_size() * sizeof(uint32_t)) - {{ packet.trailer.name }}.size());
 {%   for field in packet.trailer.fields if field.enabled and not field.is_optional %}
     if ({{ packet.trailer.name }}.{{ field.name }}_enable() != true) {
@@ -124,6 +136,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Failed to match header. Received data is too short." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -160,6 +175,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Failed to match {{ packet.class_id.name }}. Received data is too short." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -187,6 +205,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Failed to match {{ packet.cam.name }}. Received data is too short." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   if is_vx %}
     if (({{ packet.cam.name }}.{{ packet.cam.ack_v.name }}() != true) && ({{ packet.cam.name }}.{{ packet.cam.ack_x.name }}() != true)) {
diff --git a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
index 6cb1806..8bc6acb 100644
--- a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
@@ -51,6 +51,7 @@ private:
 {%- macro define_header() %}
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <span>
-- 
2.43.0


From 7d7d8d0f2370476ec8662fdc977b3e5f0b601728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:26 +0000
Subject: [PATCH 30/31] fix: IPv6 socket endpoints: use the members of
 sockaddr_in6

---
 include/vrtgen/socket/socket_endpoint.hpp | 62 +++++++++++++++++++++--
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..5cbc884 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -62,6 +62,33 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Extract the address family member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get address family from
+     * @return Reference to the address family from the given sockaddr
+     */
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_family;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port from
+     * @return Reference to the port from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port from
+     * @return Constant reference to the port from the given sockaddr
+     */
+    static const in_port_t& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +120,33 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Extract the address family member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get address family from
+     * @return Reference to the address family from the given sockaddr
+     */
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_family;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port from
+     * @return Reference to the port from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port from
+     * @return Constant reference to the port from the given sockaddr
+     */
+    static const in_port_t& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -138,8 +192,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        endpoint::detail::endpoint_traits<domain_type>::family(m_sockaddr) = domain_type;
+        endpoint::detail::endpoint_traits<domain_type>::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +249,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(endpoint::detail::endpoint_traits<domain_type>::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +258,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        endpoint::detail::endpoint_traits<domain_type>::port(m_sockaddr) = htons(port);
     }
 
     /**
-- 
2.43.0


From 59a1eb845fa65733d452e587259f6c09df95f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:42 +0000
Subject: [PATCH 31/31] fix: sockets close each of their descriptors exactly
 once

---
 include/vrtgen/socket/socket_base.hpp |  5 ++++-
 include/vrtgen/socket/tcp.hpp         | 24 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..a9b8fe3 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -59,7 +59,10 @@ public:
      */
     void close()
     {
-        ::close(m_socket);
+        if (is_open()) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..c2b47c4 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -52,8 +52,21 @@ public:
 
     /**
      * @brief Destructor
+     *        Closes the accepted connection, if any.
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        m_close_connection();
+    }
+
+    /**
+     * @brief Close the accepted connection, if any, and the socket
+     */
+    void close()
+    {
+        m_close_connection();
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +94,7 @@ public:
         if (res < 0) {
             return false;
         }
+        m_close_connection();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -122,6 +136,14 @@ private:
         return m_connected_socket != this->INVALID_SOCKET;
     }
 
+    void m_close_connection()
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
 }; // end class stream_socket
 
 namespace tcp {
-- 
2.43.0

