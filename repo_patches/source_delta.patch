From e3bc964f39f8f72642cd4f8fc160436efed329bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 001/120] fix: CaliReader: read fields with an empty value at
 the end of a line

---
 src/reader/CaliReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..7d4d8da 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (static_cast<size_t>(end_ - it_) >= N) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
-- 
2.43.0


From 9b44b286af892f1790eb4e5c507b16d9fc2aca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 002/120] fix: CaliReader: accept snapshot and globals records
 without entries, as CaliWriter writes them

---
 src/reader/CaliReader.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 7d4d8da..1ab27f3 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -55,6 +55,16 @@ public:
         return false;
     }
 
+    /// Match a record label: \a key, followed by a comma or the end of the line
+    inline bool matches_label(size_t N, const char* key)
+    {
+        auto p = it_;
+        if (matches(N, key) && (!good() || matches(',')))
+            return true;
+        it_ = p;
+        return false;
+    }
+
     std::string context() { return std::string { it_, end_ }; }
 };
 
@@ -240,11 +250,11 @@ struct CaliReader::CaliReaderImpl {
         SnapshotProcessFn&  snap_proc
     )
     {
-        if (is.matches(11, "__rec=node,")) {
+        if (is.matches_label(10, "__rec=node")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches_label(9, "__rec=ctx")) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches_label(13, "__rec=globals")) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From 93c1a9a09412d15663d85fc0dd007272fdccfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 003/120] fix: keep non-ASCII (UTF-8) characters in .cali and
 JSON strings

---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From 42d0ad7666bbf397bd651e6515d3b2d6e20b7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 004/120] fix: CaliperMetadataDB: do not dereference the null
 result of merging an invalid node

---
 src/reader/CaliperMetadataDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..9904691 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From 88719909e1c1ae9d4a01483bad5dd077abfcb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 005/120] fix: CaliReader: skip and report snapshot entries
 that refer to unknown nodes

---
 src/reader/CaliReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 1ab27f3..09f0404 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -208,10 +208,17 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        auto add_entry = [this, &rec](const Entry& e) {
+            if (e.node())
+                rec.push_back(e);
+            else
+                set_error("Invalid node or attribute ID in snapshot record");
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            add_entry(db.merge_entry(id, idmap));
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            add_entry(db.merge_entry(attr[i], data[i], idmap));
 
         snap_proc(db, rec);
     }
-- 
2.43.0


From 12846c092fe821d7ad3a1fdea4da8a99a085884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 006/120] fix: cali_variant_compare: do not truncate the 64-bit
 difference of int and pointer values

---
 src/common/cali_variant.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..07bce28 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -454,7 +454,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
     if (lhstype == rhstype) {
         switch (lhstype) {
         case CALI_TYPE_INV:
-            return lhs.value.v_int - rhs.value.v_int;
+            return lhs.value.v_int < rhs.value.v_int ? -1 : (lhs.value.v_int > rhs.value.v_int ? 1 : 0);
         case CALI_TYPE_USR:
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
@@ -472,7 +472,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return lhs.value.v_int < rhs.value.v_int ? -1 : (lhs.value.v_int > rhs.value.v_int ? 1 : 0);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -491,7 +491,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            {
+                uintptr_t lptr = (uintptr_t) lhs.value.unmanaged_ptr;
+                uintptr_t rptr = (uintptr_t) rhs.value.unmanaged_ptr;
+                return lptr < rptr ? -1 : (lptr > rptr ? 1 : 0);
+            }
         }
     }
 
-- 
2.43.0


From 8f8e65dde0f58411d0f46cc3a781bc8bd470225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 007/120] fix: Preprocessor: truncate() must not cut 64-bit
 integers to int

---
 src/reader/Preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..ab96915 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -181,7 +181,7 @@ public:
         Variant v_res(res);
 
         if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
+            v_res = cali_make_variant_from_int64(static_cast<int64_t>(res));
         else if (type == CALI_TYPE_UINT)
             v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
 
-- 
2.43.0


From 6b4912bfed9080bc3ced209aba50122ef8b40f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 008/120] fix: reject non-numeric scale arguments in CalQL
 instead of throwing an uncaught exception

---
 src/reader/Aggregator.cpp   | 20 +++++++++++++++++---
 src/reader/CalQLParser.cpp  | 23 +++++++++++++++++++++++
 src/reader/Preprocessor.cpp | 20 +++++++++++++++++---
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..84c45e4 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
@@ -26,6 +27,19 @@ using namespace cali;
 namespace
 {
 
+double get_scale_from_string(const std::string& str)
+{
+    char*  end = nullptr;
+    double val = std::strtod(str.c_str(), &end);
+
+    if (end == str.c_str()) {
+        Log(0).stream() << "Invalid numeric argument in query: " << str << std::endl;
+        return 1.0;
+    }
+
+    return val;
+}
+
 std::size_t compute_key_hash(const std::vector<Entry>& key)
 {
     std::size_t hash = 0;
@@ -202,7 +216,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
-            , m_scale { std::stod(scale_str) }
+            , m_scale { get_scale_from_string(scale_str) }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg.front()); }
@@ -323,7 +337,7 @@ public:
             , m_inclusive { inclusive }
         {
             if (cfg.size() > 1)
-                m_scale = std::stod(cfg[1]);
+                m_scale = get_scale_from_string(cfg[1]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg, false); }
@@ -559,7 +573,7 @@ public:
             , m_inclusive { is_inclusive }
         {
             if (cfg.size() > 2)
-                m_scale = std::stod(cfg[2]);
+                m_scale = get_scale_from_string(cfg[2]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 5e3aa40..4595aac 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -11,6 +11,8 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstdlib>
+#include <cstring>
 #include <sstream>
 
 using namespace cali;
@@ -57,6 +59,21 @@ bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig
     return false;
 }
 
+/// \brief Check that all given numeric ("scale") arguments of a function are numbers
+bool has_valid_scale_args(const QuerySpec::FunctionSignature& sig, const std::vector<std::string>& args)
+{
+    for (size_t i = 0; i < args.size() && static_cast<int>(i) < sig.max_args; ++i) {
+        if (std::strcmp(sig.args[i], "scale") == 0) {
+            char* end = nullptr;
+            std::strtod(args[i].c_str(), &end);
+            if (end == args[i].c_str() || *end != '\0')
+                return false;
+        }
+    }
+
+    return true;
+}
+
 bool extract_path_keyword(std::vector<std::string>& list)
 {
     bool ret = false;
@@ -195,6 +212,8 @@ struct CalQLParser::CalQLParserImpl {
             if (i >= 0) {
                 if (defs[i].min_args > argsize || defs[i].max_args < argsize) {
                     set_error(std::string("Invalid number of arguments for ") + defs[i].name, is);
+                } else if (!has_valid_scale_args(defs[i], args)) {
+                    set_error(std::string("Invalid numeric argument for ") + defs[i].name, is);
                 } else {
                     spec.aggregate.selection = QuerySpec::AggregationSelection::List;
                     spec.aggregate.list.emplace_back(defs[i], args);
@@ -296,6 +315,8 @@ struct CalQLParser::CalQLParserImpl {
 
                         if (defs[i].min_args > argsize || defs[i].max_args < argsize) {
                             set_error(std::string("Invalid number of arguments for ") + defs[i].name, is);
+                        } else if (!has_valid_scale_args(defs[i], args)) {
+                            set_error(std::string("Invalid numeric argument for ") + defs[i].name, is);
                         } else {
                             spec.aggregate.selection = QuerySpec::AggregationSelection::List;
 
@@ -543,6 +564,8 @@ struct CalQLParser::CalQLParserImpl {
 
             if (defs[i].min_args > argsize || defs[i].max_args < argsize)
                 set_error(std::string("Invalid number of arguments for operator ") + opname, is);
+            else if (!has_valid_scale_args(defs[i], args))
+                set_error(std::string("Invalid numeric argument for operator ") + opname, is);
             else {
                 auto it = std::find_if(
                     spec.preprocess_ops.begin(),
diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index ab96915..6de83f9 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -16,6 +16,7 @@
 #include "caliper/common/cali_types.h"
 
 #include <cmath>
+#include <cstdlib>
 #include <vector>
 #include <utility>
 
@@ -24,6 +25,19 @@ using namespace cali;
 namespace
 {
 
+double get_scale_from_string(const std::string& str)
+{
+    char*  end = nullptr;
+    double val = std::strtod(str.c_str(), &end);
+
+    if (end == str.c_str()) {
+        Log(0).stream() << "Invalid numeric argument in query: " << str << std::endl;
+        return 1.0;
+    }
+
+    return val;
+}
+
 Variant get_value(
     const CaliperMetadataAccessInterface& db,
     const std::string&                    attr_name,
@@ -70,7 +84,7 @@ class ScaledRatioKernel : public Kernel
         : m_res_attr_name(def), m_nom_attr_name(args[0]), m_dnm_attr_name(args[1]), m_scale(1.0)
     {
         if (args.size() > 2)
-            m_scale = std::stod(args[2]);
+            m_scale = get_scale_from_string(args[2]);
     }
 
 public:
@@ -116,7 +130,7 @@ class ScaleKernel : public Kernel
     ScaleKernel(const std::string& def, const std::vector<std::string>& args)
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_scale(1.0)
     {
-        m_scale = std::stod(args[1]);
+        m_scale = get_scale_from_string(args[1]);
     }
 
 public:
@@ -155,7 +169,7 @@ class TruncateKernel : public Kernel
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_factor(1.0)
     {
         if (args.size() > 1)
-            m_factor = std::stod(args[1]);
+            m_factor = get_scale_from_string(args[1]);
     }
 
 public:
-- 
2.43.0


From 78dac1031a7d0b12b8a1ef724d1d4453bba0ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 009/120] fix: Aggregator: do not lose partial results merged
 into a database without the target attribute

---
 src/reader/Aggregator.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 84c45e4..9467cba 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -100,8 +100,12 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else // there may be partial results from another database
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -501,9 +505,9 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
@@ -777,12 +781,13 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
-                return false;
-            if (a.sum) {
+            if (m_stat_attrs.sum) {
                 a = m_stat_attrs;
                 return true;
             }
+            // there may be partial results from another database even if there is no target attribute
+            if (!m_target_attr && !db.get_attribute("var.count#" + m_target_attr_name))
+                return false;
 
             int prop = CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE;
 
-- 
2.43.0


From dfbc24376e444af9c491b7fe1a1876fffb832b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 010/120] fix: Aggregator: percent_total must keep its partial
 sum when a partial total is not positive

---
 src/reader/Aggregator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 9467cba..1b83c7a 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -692,10 +692,10 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
-        if (m_isum && total > 0.0) {
+        if (!m_sum.empty())
             list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (!m_isum.empty() && total > 0.0)
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
-        }
     }
 
 private:
-- 
2.43.0


From b16ddb864e3ce98430597fdbb623af19ee268080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 011/120] fix: Aggregator: do not count values twice when
 merging partial results

Inclusive results were propagated to the parents again when merging partial
results, and results for targets that are also keys were added to the target.
---
 src/reader/Aggregator.cpp | 123 ++++++++++++++++++++++++++++++++------
 1 file changed, 104 insertions(+), 19 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 1b83c7a..e8eb688 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -117,8 +117,16 @@ inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, Aggrega
     cali_id_t tgt_attr_id = attr.target_attr(db).id();
     cali_id_t drv_attr_id = attr.derived_attr(db).id();
     int count = 0;
+    // if the record has a partial result, the target is already included in it (e.g. if the target is a key, too)
     for (const Entry& e : rec)
-        if (e.node()->id() == tgt_attr_id || e.node()->id() == drv_attr_id) {
+        if (e.node()->id() == drv_attr_id) {
+            F(e);
+            ++count;
+        }
+    if (count > 0)
+        return count;
+    for (const Entry& e : rec)
+        if (e.node()->id() == tgt_attr_id) {
             F(e);
             ++count;
         }
@@ -268,17 +276,20 @@ public:
     class Config : public AggregateKernelConfig
     {
         AggregationAttributeManager m_attr_mgr;
+        AggregationAttributeManager m_own_mgr; // an entry's own part of an inclusive sum, to merge partial results
         bool m_is_inclusive;
 
     public:
 
         AggregationAttributeManager& attr() { return m_attr_mgr; }
+        AggregationAttributeManager& own_attr() { return m_own_mgr; }
 
         bool is_inclusive() const override { return m_is_inclusive; }
         AggregateKernel* make_kernel() override { return new SumKernel(this); }
 
         Config(const std::string& target_name, bool is_inclusive) :
             m_attr_mgr { target_name, is_inclusive ? "inclusive#" : "sum#" },
+            m_own_mgr { target_name, "isum.own#", CALI_ATTR_HIDDEN },
             m_is_inclusive { is_inclusive }
         { }
 
@@ -297,18 +308,59 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply(db, rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply(db, rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum)
-            rec.push_back(Entry(m_config->attr().derived_attr(db), m_sum));
+        if (!m_isum)
+            return;
+
+        rec.push_back(Entry(m_config->attr().derived_attr(db), m_isum));
+
+        // if parts of the sum come from children, save the entry's own part so we can merge partial results
+        if (m_config->is_inclusive() && !(m_sum == m_isum)) {
+            if (!m_sum)
+                m_sum = make_zero(m_isum.type());
+            rec.push_back(Entry(m_config->own_attr().derived_attr(db), m_sum));
+        }
     }
 
 private:
 
-    Variant m_sum;
+    int apply(CaliperMetadataAccessInterface& db, const EntryList& rec, std::function<void(const Entry&)> F)
+    {
+        if (m_config->is_inclusive()) {
+            int count = apply_to_matching_entries(db, m_config->own_attr(), rec, F);
+            if (count > 0)
+                return count;
+        }
+
+        return apply_to_matching_entries(db, m_config->attr(), rec, F);
+    }
+
+    static Variant make_zero(cali_attr_type type)
+    {
+        switch (type) {
+        case CALI_TYPE_DOUBLE:
+            return Variant(0.0);
+        case CALI_TYPE_UINT:
+            return Variant(cali_make_variant_from_uint(0));
+        default:
+            return Variant(cali_make_variant_from_int64(0));
+        }
+    }
+
+    Variant m_sum;  // own part
+    Variant m_isum; // including children
     Config* m_config;
 };
 
@@ -356,20 +408,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum) {
+        if (m_sum)
             rec.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
-            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_sum.to_double())));
-        }
+        if (m_isum)
+            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_isum.to_double())));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -511,8 +572,13 @@ public:
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
+        // if the record has a partial result, the target is already included in it (e.g. if the target is a key, too)
+        bool is_partial = std::any_of(list.begin(), list.end(), [count_attr](const Entry& e) {
+            return e.attribute() == count_attr.id();
+        });
+
         for (const Entry& e : list) {
-            if (e.attribute() == tgt_attr.id()) {
+            if (e.attribute() == tgt_attr.id() && !is_partial) {
                 m_sum += e.value();
                 ++m_count;
                 ++count;
@@ -598,28 +664,41 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
         int count = 0;
-        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
-        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){
+                m_sum1 += e.value();
+                m_isum1 += e.value();
+            });
+        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){
+                m_sum2 += e.value();
+                m_isum2 += e.value();
+            });
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_isum1 += e.value(); });
+        apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_isum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
             rec.push_back(Entry(m_config->m_tgt1.derived_attr(db), m_sum1));
-        if (m_sum2) {
+        if (m_sum2)
             rec.push_back(Entry(m_config->m_tgt2.derived_attr(db), m_sum2));
-            if (m_sum1)
-                rec.push_back(
-                    Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_sum1.to_double() / m_sum2.to_double()))
-                );
-        }
+        if (m_isum1 && m_isum2)
+            rec.push_back(
+                Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_isum1.to_double() / m_isum2.to_double()))
+            );
     }
 
 private:
 
     Variant m_sum1;
     Variant m_sum2;
+    Variant m_isum1; // inclusive sums
+    Variant m_isum2;
     Config* m_config;
 };
 
@@ -821,8 +900,14 @@ public:
             return 0;
 
         int count = 0;
+
+        // if the record has a partial result, the target is already included in it (e.g. if the target is a key, too)
+        bool is_partial = std::any_of(list.begin(), list.end(), [&stat_attr](const Entry& e) {
+            return e.attribute() == stat_attr.count.id();
+        });
+
         for (const Entry& e : list) {
-            if (e.attribute() == target_attr.id()) {
+            if (e.attribute() == target_attr.id() && !is_partial) {
                 double v = e.value().to_double();
                 m_sum += v;
                 m_sqsum += (v * v);
-- 
2.43.0


From 5a476c53c10ce8b41dcc6c6535210ea8159effde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 012/120] fix: Aggregator: rows without records must not add to
 the count when merging partial results

---
 src/reader/Aggregator.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index e8eb688..9b77314 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -168,14 +168,17 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr;
 
     public:
 
         Attribute attr(CaliperMetadataAccessInterface& db) { return m_count_attr.get(db); }
+        // marks rows that do not represent any records (e.g., parent entries for inclusive metrics)
+        Attribute nocount_attr(CaliperMetadataAccessInterface& db) { return m_nocount_attr.get(db); }
 
         AggregateKernel* make_kernel() override { return new CountKernel(this); }
 
-        Config() : m_count_attr { "count", CALI_TYPE_UINT } {}
+        Config() : m_count_attr { "count", CALI_TYPE_UINT }, m_nocount_attr { "count.none", CALI_TYPE_UINT, CALI_ATTR_HIDDEN } {}
 
         static AggregateKernelConfig* create(const std::vector<std::string>&) { return new Config; }
     };
@@ -186,11 +189,13 @@ public:
     {
         Attribute count_attr = m_config->attr(db);
         cali_id_t count_attr_id = count_attr.id();
+        cali_id_t nocount_attr_id = m_config->nocount_attr(db).id();
         for (const Entry& e : list)
             if (e.attribute() == count_attr_id) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr_id)
+                return 0;
 
         ++m_count;
         return 1;
@@ -201,6 +206,8 @@ public:
         uint64_t count = m_count.load();
         if (count > 0)
             list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        else
+            list.push_back(Entry(m_config->nocount_attr(db), Variant(cali_make_variant_from_uint(1))));
     }
 
 private:
@@ -216,6 +223,7 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr { "count.none", CALI_TYPE_UINT, CALI_ATTR_HIDDEN };
         CustomAttributeManager m_result_attr { "scount", CALI_TYPE_DOUBLE };
 
         double m_scale;
@@ -240,12 +248,14 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
-        Attribute count_attr = m_config->m_count_attr.get(db);
+        Attribute count_attr   = m_config->m_count_attr.get(db);
+        Attribute nocount_attr = m_config->m_nocount_attr.get(db);
         for (const Entry& e : list)
             if (e.attribute() == count_attr.id()) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr.id())
+                return 0;
 
         ++m_count;
         return 1;
@@ -256,7 +266,8 @@ public:
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
             list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
-        }
+        } else
+            list.push_back(Entry(m_config->m_nocount_attr.get(db), Variant(cali_make_variant_from_uint(1))));
     }
 
 private:
-- 
2.43.0


From 0dc193b50ff5ed428cbf38511455950999fd0420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 013/120] fix: Entry::value(attribute) must not return
 attribute metadata for immediate entries

---
 src/common/Entry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/Entry.cpp b/src/common/Entry.cpp
index e733b00..e4cd96f 100644
--- a/src/common/Entry.cpp
+++ b/src/common/Entry.cpp
@@ -31,6 +31,8 @@ Variant Entry::value(cali_id_t attr_id) const
 {
     if (m_node && m_node->id() == attr_id)
         return m_value;
+    if (is_immediate()) // do not search the attribute's metadata
+        return Variant();
 
     for (const Node* node = m_node; node; node = node->parent())
         if (node->attribute() == attr_id)
-- 
2.43.0


From 3d465b05588d1cce815bdb04a56e11f537c01521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 014/120] fix: Aggregator: non-nested key entries in different
 order are the same key

---
 src/reader/Aggregator.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 9b77314..4285f38 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1050,6 +1050,7 @@ struct Aggregator::AggregatorImpl {
 
     struct AggregateEntry {
         std::vector<Entry>                            key;
+        Entry                                         out_entry; // non-path entry in its original order
         std::vector<std::unique_ptr<AggregateKernel>> kernels;
         std::size_t                                   next_entry_idx;
     };
@@ -1141,7 +1142,7 @@ struct Aggregator::AggregatorImpl {
         return false;
     }
 
-    AggregateEntry* get_aggregation_entry(const std::vector<Entry>& key)
+    AggregateEntry* get_aggregation_entry(const std::vector<Entry>& key, const Entry& out_entry)
     {
         // --- lookup key
 
@@ -1160,7 +1161,7 @@ struct Aggregator::AggregatorImpl {
             kernels.emplace_back(k_cfg->make_kernel());
 
         size_t idx = m_entries.size();
-        m_entries.emplace_back(new AggregateEntry { key, std::move(kernels), m_hashmap[hash] });
+        m_entries.emplace_back(new AggregateEntry { key, out_entry, std::move(kernels), m_hashmap[hash] });
         m_hashmap[hash] = idx;
 
         return m_entries[idx].get();
@@ -1207,9 +1208,18 @@ struct Aggregator::AggregatorImpl {
 
         // --- Make node entry for non-path nodes and put it in the key
 
+        Entry out_entry;
+
         if (!non_path_nodes.empty()) {
+            auto cmp = [](const Node* a, const Node* b) { return a->attribute() < b->attribute(); };
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
-            key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
+            out_entry = db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data());
+            // the order of different attributes does not matter for the key
+            if (!std::is_sorted(non_path_nodes.begin(), non_path_nodes.end(), cmp)) {
+                std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), cmp);
+                key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
+            } else
+                key.emplace_back(out_entry);
         }
 
         // --- Add path entry to key
@@ -1224,7 +1234,7 @@ struct Aggregator::AggregatorImpl {
 
         // --- Aggregate
 
-        AggregateEntry* entry = get_aggregation_entry(key);
+        AggregateEntry* entry = get_aggregation_entry(key, out_entry);
 
         for (size_t k = 0; k < entry->kernels.size(); ++k) {
             int matches = entry->kernels[k]->aggregate(db, rec);
@@ -1233,7 +1243,7 @@ struct Aggregator::AggregatorImpl {
             if (m_kernel_configs[k]->is_inclusive() && (matches > 0) && path_node) {
                 for (Node* node = path_node->parent(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
                     key.back() = Entry(node);
-                    AggregateEntry* p_entry = get_aggregation_entry(key);
+                    AggregateEntry* p_entry = get_aggregation_entry(key, out_entry);
                     p_entry->kernels[k]->parent_aggregate(db, rec);
                 }
             }
@@ -1252,6 +1262,9 @@ struct Aggregator::AggregatorImpl {
             if (!entry)
                 continue;
             std::vector<Entry> rec(entry->key);
+            for (Entry& e : rec)
+                if (e.is_reference() && !db.get_attribute(e.attribute()).is_nested())
+                    e = entry->out_entry;
             for (auto const& k : entry->kernels)
                 k->append_result(db, rec);
             push(db, rec);
-- 
2.43.0


From 35c4673392443e59419cb5fca42a649e82471dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 015/120] fix: mpi-caliquery: apply LET before WHERE, as
 cali-query does

---
 src/tools/mpi-caliquery/mpi-caliquery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/mpi-caliquery/mpi-caliquery.cpp b/src/tools/mpi-caliquery/mpi-caliquery.cpp
index e9bbc38..f95b4be 100644
--- a/src/tools/mpi-caliquery/mpi-caliquery.cpp
+++ b/src/tools/mpi-caliquery/mpi-caliquery.cpp
@@ -131,10 +131,10 @@ void process_my_input(int rank, const Args& args, const QuerySpec& spec, Caliper
     };
     SnapshotProcessFn snap_proc = aggregate;
 
-    if (!spec.preprocess_ops.empty())
-        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
     if (spec.filter.selection == QuerySpec::FilterSelection::List)
         snap_proc = SnapshotFilterStep(RecordSelector(spec), snap_proc);
+    if (!spec.preprocess_ops.empty())
+        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
 
     CaliReader reader;
     reader.read(filename, db, node_proc, snap_proc);
-- 
2.43.0


From 39df5c4997a604c4f093e9e9279eaf0deb0d9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 016/120] fix: Aggregator: use partial results that more than
 one operator needs only once when merging

---
 src/reader/Aggregator.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 4285f38..1b69382 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -116,15 +116,14 @@ inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, Aggrega
         return 0;
     cali_id_t tgt_attr_id = attr.target_attr(db).id();
     cali_id_t drv_attr_id = attr.derived_attr(db).id();
-    int count = 0;
-    // if the record has a partial result, the target is already included in it (e.g. if the target is a key, too)
+    // If the record has a partial result, the target is already included in it (e.g. if the target is a key, too).
+    // There may be more than one entry for it, e.g. if two ratios use the same target.
     for (const Entry& e : rec)
         if (e.node()->id() == drv_attr_id) {
             F(e);
-            ++count;
+            return 1;
         }
-    if (count > 0)
-        return count;
+    int count = 0;
     for (const Entry& e : rec)
         if (e.node()->id() == tgt_attr_id) {
             F(e);
@@ -350,9 +349,15 @@ private:
     int apply(CaliperMetadataAccessInterface& db, const EntryList& rec, std::function<void(const Entry&)> F)
     {
         if (m_config->is_inclusive()) {
-            int count = apply_to_matching_entries(db, m_config->own_attr(), rec, F);
-            if (count > 0)
-                return count;
+            cali_id_t own_attr_id = m_config->own_attr().derived_attr(db).id();
+            auto      it          = std::find_if(rec.begin(), rec.end(), [own_attr_id](const Entry& e) {
+                return e.is_immediate() && e.attribute() == own_attr_id;
+            });
+
+            if (it != rec.end()) {
+                F(*it);
+                return 1;
+            }
         }
 
         return apply_to_matching_entries(db, m_config->attr(), rec, F);
-- 
2.43.0


From 6406c6af679abd0c48a6a67d601e6325ba350a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 017/120] fix: CalQLParser: do not cut quoted formatter
 arguments at white space

---
 src/reader/CalQLParser.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 4595aac..daff2c3 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -36,19 +36,21 @@ int get_definition_id(const std::string& w, const QuerySpec::FunctionSignature*
     return defs[retid].name ? retid : -1;
 }
 
+/// \brief Split a "key=value" argument. The argument has been unquoted already,
+///   and everything that does not start with a keyword is a positional argument.
 std::pair<std::string, std::string> get_keyval(const std::string& str)
 {
-    std::istringstream is(str);
+    auto pos = str.find('=');
 
-    std::string first = util::read_word(is, "=");
-    char        c     = util::read_char(is);
+    bool has_key = pos != std::string::npos && pos > 0
+                   && std::all_of(str.begin(), str.begin() + pos, [](unsigned char c) {
+                          return std::isalnum(c) || c == '-' || c == '_';
+                      });
 
-    if (c == '=') {
-        std::string val = util::read_word(is);
-        return std::make_pair(std::move(first), std::move(val));
-    } else {
-        return std::make_pair(std::string(), std::move(first));
-    }
+    if (has_key)
+        return std::make_pair(str.substr(0, pos), str.substr(pos + 1));
+
+    return std::make_pair(std::string(), str);
 }
 
 bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig)
-- 
2.43.0


From a93302034e74936d822d1f3020e603c485692761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 018/120] fix: CalQLParser: SELECT *,x must not drop the other
 attributes

---
 src/reader/CalQLParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index daff2c3..d2e23ba 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -342,7 +342,9 @@ struct CalQLParser::CalQLParserImpl {
                     if (w.empty())
                         set_error("Expected argument for SELECT", is);
                     else {
-                        spec.select.selection = QuerySpec::AttributeSelection::List;
+                        // '*' selects all attributes, including this one
+                        if (spec.select.selection != QuerySpec::AttributeSelection::All)
+                            spec.select.selection = QuerySpec::AttributeSelection::List;
                         spec.select.list.push_back(w);
 
                         selection_attr_name = w;
-- 
2.43.0


From 535b4c749239158c65444c147073d15a332876b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 019/120] fix: do not throw an uncaught exception for bad field
 widths in format strings

---
 src/common/SnapshotTextFormatter.cpp | 4 +++-
 src/reader/UserFormatter.cpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..ca4a9e3 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -12,6 +12,7 @@
 #include "util/split.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <iterator>
 #include <mutex>
 
@@ -70,7 +71,8 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    long width = strtol(field_strings[wfbegin + 1].c_str(), nullptr, 10);
+                    field.width = static_cast<int>(std::max(0l, std::min(width, 80l)));
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..dfccdbc 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -16,6 +16,7 @@
 #include "../common/util/split.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <mutex>
@@ -81,7 +82,8 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    long width = strtol(field_strings[wfbegin + 1].c_str(), nullptr, 10);
+                    field.width = width > 0 ? static_cast<size_t>(width) : 0;
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0


From 56e08ac845e412b4202760bcb3a912f92b64cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 020/120] fix: JsonFormatter: SELECT path selects the path, and
 unknown selected attributes are not listed

---
 src/reader/JsonFormatter.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..108eecc 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -28,6 +28,9 @@ using namespace cali;
 struct JsonFormatter::JsonFormatterImpl {
     std::set<std::string> m_selected;
 
+    bool m_select_list = false; // print selected attributes only
+    bool m_select_path = false; // "path" is selected
+
     OutputStream m_os;
     std::mutex m_os_lock;
 
@@ -72,7 +75,9 @@ struct JsonFormatter::JsonFormatterImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_list = true;
+            m_select_path = spec.select.use_path;
             break;
         }
 
@@ -83,9 +88,9 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::string name = attr.name();
 
-        bool selected = m_selected.count(name) > 0;
+        bool selected = m_selected.count(name) > 0 || (m_select_path && attr.is_nested() && !attr.is_hidden());
 
-        if (!selected && (!m_selected.empty() || attr.is_hidden() || attr.is_global()))
+        if (!selected && (m_select_list || attr.is_hidden() || attr.is_global()))
             return "";
 
         if (attr.is_nested() && !m_opt_sep_nested)
@@ -186,11 +191,9 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::vector<Attribute> attrs;
 
-        if (m_selected.empty())
-            attrs = db.get_all_attributes();
-        else
-            for (const std::string& str : m_selected)
-                attrs.push_back(db.get_attribute(str));
+        for (const Attribute& a : db.get_all_attributes())
+            if (!m_select_list || m_selected.count(a.name()) > 0 || (m_select_path && a.is_nested()))
+                attrs.push_back(a);
 
         // remove nested and hidden attributes
         if (!m_opt_sep_nested)
-- 
2.43.0


From 0389c1b5ea12a0def254b8176f7d57870cdade88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 021/120] fix: JSON writers: write values that are not JSON
 literals (addresses, types, inf/nan) as strings, escape attribute names

---
 src/reader/JsonFormatter.cpp      |  9 ++++----
 src/reader/JsonSplitFormatter.cpp |  4 +++-
 src/reader/JsonUtil.h             | 35 +++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 5 deletions(-)
 create mode 100644 src/reader/JsonUtil.h

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 108eecc..c6418ff 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "JsonUtil.h"
+
 #include "../common/util/format_util.h"
 #include "../common/util/split.hpp"
 
@@ -146,9 +148,7 @@ struct JsonFormatter::JsonFormatterImpl {
                 if (key.empty())
                     continue;
 
-                cali_attr_type type = attr.type();
-
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
+                if (m_opt_quote_all || !util::is_json_literal(e.value()))
                     quote_kvs[std::move(key)] = e.value().to_string();
                 else
                     noquote_kvs[std::move(key)] = e.value().to_string();
@@ -211,7 +211,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "");
+            util::write_json_esc_string(os << '\"', a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ddca4c1..7b2a46c 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/lockfree-tree.hpp"
 
+#include "JsonUtil.h"
+
 #include "../common/util/format_util.h"
 
 #include <algorithm>
@@ -280,7 +282,7 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
 
         for (const Entry& e : list)
             if (e.attribute() == attr.id()) {
-                if (quote)
+                if (quote || !util::is_json_literal(e.value()))
                     util::write_json_esc_string(os << "\"", e.value().to_string()) << "\"";
                 else
                     os << e.value().to_string();
diff --git a/src/reader/JsonUtil.h b/src/reader/JsonUtil.h
new file mode 100644
index 0000000..5b22a87
--- /dev/null
+++ b/src/reader/JsonUtil.h
@@ -0,0 +1,35 @@
+// Copyright (c) 2015-2022, Lawrence Livermore National Security, LLC.
+// See top-level LICENSE file for details.
+
+/// \file JsonUtil.h
+/// Helper functions for writing JSON
+
+#pragma once
+
+#include "caliper/common/Variant.h"
+
+#include <cmath>
+
+namespace cali
+{
+namespace util
+{
+
+/// \brief Return true if the text representation of \a v is a valid JSON literal.
+///   Anything else, including non-finite numbers, must be written as a string.
+inline bool is_json_literal(const Variant& v)
+{
+    switch (v.type()) {
+    case CALI_TYPE_INT:
+    case CALI_TYPE_UINT:
+    case CALI_TYPE_BOOL:
+        return true;
+    case CALI_TYPE_DOUBLE:
+        return std::isfinite(v.to_double());
+    default:
+        return false;
+    }
+}
+
+} // namespace util
+} // namespace cali
-- 
2.43.0


From ec1e740928553d38a9cb895c43616d0e4e8ffb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 022/120] fix: JsonSplitFormatter: columns must not share
 nodes, nodes name their column

---
 src/reader/JsonSplitFormatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index 7b2a46c..ea0cc60 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -51,6 +51,7 @@ class Hierarchy
         {}
 
         const std::string& label() const { return m_label; }
+        const std::string& column() const { return m_column; }
 
         std::ostream& write_json(std::ostream& os) const
         {
@@ -106,7 +107,8 @@ public:
             HierarchyNode* parent = node;
             std::string    label  = e.value().to_string();
 
-            for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
+            for (node = parent->first_child(); node && (label != node->label() || column != node->column());
+                 node = node->next_sibling())
                 ;
 
             if (!node) {
-- 
2.43.0


From 511b7aeb8008865a46fb174439c80f5398d7fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 023/120] fix: JsonSplitFormatter: do not write attribute
 metadata as record values

---
 src/reader/JsonSplitFormatter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ea0cc60..a795ae3 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -260,13 +260,16 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
     {
         std::vector<Entry> path;
 
-        for (const Entry& e : list)
+        for (const Entry& e : list) {
+            if (!e.is_reference()) // the node of an immediate entry is its attribute
+                continue;
             for (Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
                 for (const Attribute& a : path_attrs)
                     if (node->attribute() == a.id()) {
                         path.push_back(Entry(node));
                         break;
                     }
+        }
 
         std::reverse(path.begin(), path.end());
         cali_id_t id = m_hierarchy.get_id(path, column);
-- 
2.43.0


From 815e680d088b3cd246d9064b8c3c0fdb01229ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 024/120] fix: SnapshotTree: tree nodes and records without a
 sort value must not break the sort order

---
 src/reader/SnapshotTree.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reader/SnapshotTree.cpp b/src/reader/SnapshotTree.cpp
index d9cb9a6..1ec6bad 100644
--- a/src/reader/SnapshotTree.cpp
+++ b/src/reader/SnapshotTree.cpp
@@ -33,8 +33,13 @@ Variant SnapshotTreeNode::min_val(const Attribute& key)
             val = val ? std::min(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::min(val, node->min_val(key)) : node->min_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant v_child = node->min_val(key);
+
+        // nodes without a value for key don't count
+        if (v_child)
+            val = val ? std::min(val, v_child) : v_child;
+    }
 
     m_v_min[key] = val;
     return val;
@@ -76,10 +81,11 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
         auto l_it = std::find_if(lhs.begin(), lhs.end(), find_key);
         auto r_it = std::find_if(rhs.begin(), rhs.end(), find_key);
 
-        if (r_it == rhs.end())
-            return true;
+        // records without the key go last
         if (l_it == lhs.end())
             return false;
+        if (r_it == rhs.end())
+            return true;
 
         return ascending ? l_it->second < r_it->second : l_it->second > r_it->second;
     });
-- 
2.43.0


From 29a8176d8ced5c76470491d47e350840ac005aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 025/120] fix: TreeFormatter: do not print hidden attributes
 for SELECT *

---
 src/reader/TreeFormatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 924f489..b0ac366 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -336,7 +336,8 @@ struct TreeFormatter::TreeFormatterImpl {
             break;
         case QuerySpec::AttributeSelection::All:
             for (auto& p : m_column_info)
-                attributes.push_back(p.first);
+                if (!p.first.is_hidden())
+                    attributes.push_back(p.first);
             break;
         case QuerySpec::AttributeSelection::List:
             for (const std::string& s : m_spec.select.list) {
-- 
2.43.0


From 7c9f2ec1cde3a761e9e3f8c98492077ab65c281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 026/120] fix: Python reader: keep trailing blanks and empty
 values at the end of a line

---
 python/caliper-reader/caliperreader/caliperstreamreader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index eee9a0e..22c37e7 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -129,7 +129,7 @@ def _read_cali_record(line):
     entry   = []
     string  = ""
 
-    iterator = iter(line.strip())
+    iterator = iter(line.rstrip('\r\n'))
 
     for c in iterator:
         if c == '\\':
@@ -149,7 +149,8 @@ def _read_cali_record(line):
         else:
             string += c
 
-    if len(string) > 0:
+    # the last field's value may be empty
+    if len(string) > 0 or len(entry) > 0:
         entry.append(string)
         result[entry[0]] = entry[1:]
 
-- 
2.43.0


From 069e1bc221818de1c3261bc3440b2cb2a0c8914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 027/120] fix: cali_make_variant_from_string: do not read
 before the start of an empty string

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From 1ab6d0438688f3e87fa4610b447050aee598c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 028/120] fix: conversion of double values outside the integer
 range must fail

---
 src/common/cali_variant.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 07bce28..a865582 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -190,7 +190,10 @@ int cali_variant_to_int(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int) v.value.v_double;
+        if (v.value.v_double > -2147483649.0 && v.value.v_double < 2147483648.0)
+            ret = (int) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int) v.value.v_bool;
@@ -244,7 +247,10 @@ int64_t cali_variant_to_int64(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int64_t) v.value.v_double;
+        if (v.value.v_double >= -9223372036854775808.0 && v.value.v_double < 9223372036854775808.0)
+            ret = (int64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int64_t) v.value.v_bool;
@@ -298,7 +304,10 @@ uint64_t cali_variant_to_uint(cali_variant_t v, bool* okptr)
         ret = v.value.v_uint;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (uint64_t) v.value.v_double;
+        if (v.value.v_double > -1.0 && v.value.v_double < 18446744073709551616.0)
+            ret = (uint64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (uint64_t) v.value.v_bool;
-- 
2.43.0


From 20fee26e9d4da131a52da16ed48eb27e1dec073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 029/120] fix: unsigned values beyond 64 bits must not wrap
 around when parsed

---
 src/common/util/parse_util.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/util/parse_util.h b/src/common/util/parse_util.h
index 8beedd2..3b5e17b 100644
--- a/src/common/util/parse_util.h
+++ b/src/common/util/parse_util.h
@@ -40,8 +40,11 @@ inline std::pair<bool, uint64_t> str_to_uint64(const char* str)
 {
     uint64_t    ret = 0;
     const char* p   = str;
-    for (; *p >= '0' && *p <= '9'; ++p)
-        ret = ret * 10 + static_cast<uint64_t>(*p - '0');
+    for (; *p >= '0' && *p <= '9'; ++p) {
+        uint64_t d = static_cast<uint64_t>(*p - '0');
+        // saturate on overflow, as strtoll() does for signed values
+        ret = ret <= (UINT64_MAX - d) / 10 ? ret * 10 + d : UINT64_MAX;
+    }
     return std::make_pair(p != str, ret);
 }
 
-- 
2.43.0


From 29b54f6331bfaa91ec62a024999995a2ace4a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 030/120] fix: cali_prop2string: do not write beyond the buffer

---
 src/common/cali_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cali_types.c b/src/common/cali_types.c
index ac52666..b1cda26 100644
--- a/src/common/cali_types.c
+++ b/src/common/cali_types.c
@@ -70,7 +70,7 @@ int cali_prop2string(int prop, char* buf, size_t len)
 
         size_t slen = strlen(p->str);
 
-        if ((slen + (ret > 0 ? 2 : 1)) > len)
+        if ((ret + slen + (ret > 0 ? 2 : 1)) > len)
             return -1;
         if (ret > 0)
             buf[ret++] = ':';
-- 
2.43.0


From 5a76421fde320610a80bfc900e5fdc142ff865cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 031/120] fix: cali_set_global_string_byname() stores the
 string's terminating NUL byte as part of the value

---
 src/caliper/cali.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..af6ca86 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -576,7 +576,7 @@ void cali_set_global_string_byname(const char* name, const char* val)
 
     // TODO: check for existing incompatible attribute key
 
-    c.set(attr, Variant(CALI_TYPE_STRING, val, strlen(val) + 1));
+    c.set(attr, Variant(CALI_TYPE_STRING, val, strlen(val)));
 }
 
 void cali_set_global_uint_byname(const char* name, uint64_t val)
-- 
2.43.0


From 124e9dd26b39f9786d523bae266a8b7b6a44a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 032/120] fix: regions are missing from snapshots while the
 stack was started by a hidden attribute

---
 src/caliper/Blackboard.cpp | 15 +++++++++------
 src/caliper/Blackboard.h   |  6 ++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..6ca9a97 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -50,10 +50,8 @@ void Blackboard::add(cali_id_t key, const Entry& value, bool include_in_snapshot
     hashtable[I].key   = key;
     hashtable[I].value = value;
 
-    if (include_in_snapshots) {
-        toc[I / 32] |= (1 << (I % 32));
-        toctoc |= (1 << (I / 32));
-    }
+    if (include_in_snapshots)
+        add_to_toc(I);
 
     ++num_entries;
     max_num_entries = std::max(num_entries, max_num_entries);
@@ -63,9 +61,12 @@ void Blackboard::set(cali_id_t key, const Entry& value, bool include_in_snapshot
 {
     size_t I = find_existing_entry(key);
 
-    if (hashtable[I].key == key)
+    if (hashtable[I].key == key) {
         hashtable[I].value = value;
-    else
+        // an entry first added by a hidden attribute becomes visible with its first visible one
+        if (include_in_snapshots)
+            add_to_toc(I);
+    } else
         add(key, value, include_in_snapshots);
 
     ++ucount;
@@ -111,6 +112,8 @@ Entry Blackboard::exchange(cali_id_t key, const Entry& value, bool include_in_sn
     if (hashtable[I].key == key) {
         ret                = hashtable[I].value;
         hashtable[I].value = value;
+        if (include_in_snapshots)
+            add_to_toc(I);
     } else
         add(key, value, include_in_snapshots);
 
diff --git a/src/caliper/Blackboard.h b/src/caliper/Blackboard.h
index 7729dad..c952d60 100644
--- a/src/caliper/Blackboard.h
+++ b/src/caliper/Blackboard.h
@@ -63,6 +63,12 @@ class Blackboard
         return I;
     }
 
+    inline void add_to_toc(size_t I)
+    {
+        toc[I / 32] |= (1 << (I % 32));
+        toctoc |= (1 << (I / 32));
+    }
+
     void add(cali_id_t key, const Entry& value, bool include_in_snapshot);
 
 public:
-- 
2.43.0


From 6ef1c68e940e50ecc4feee6e07280f3cedcc22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 033/120] fix: deleting a blackboard entry makes another entry
 with a colliding key disappear from snapshots

---
 src/caliper/Blackboard.cpp | 11 +++++++----
 src/caliper/Blackboard.h   |  7 +++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 6ca9a97..1a9f82b 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -88,7 +88,12 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // move the snapshot visibility along with the entry
+                if (toc[j / 32] & (1 << (j % 32)))
+                    add_to_toc(I);
+                else
+                    remove_from_toc(I);
+                I = j;
             }
         }
     }
@@ -99,9 +104,7 @@ void Blackboard::del(cali_id_t key)
     --num_entries;
     ++ucount;
 
-    toc[I / 32] &= ~(1 << (I % 32));
-    if (toc[I / 32] == 0)
-        toctoc &= ~(1 << (I / 32));
+    remove_from_toc(I);
 }
 
 Entry Blackboard::exchange(cali_id_t key, const Entry& value, bool include_in_snapshots)
diff --git a/src/caliper/Blackboard.h b/src/caliper/Blackboard.h
index c952d60..ee35cbf 100644
--- a/src/caliper/Blackboard.h
+++ b/src/caliper/Blackboard.h
@@ -69,6 +69,13 @@ class Blackboard
         toctoc |= (1 << (I / 32));
     }
 
+    inline void remove_from_toc(size_t I)
+    {
+        toc[I / 32] &= ~(1 << (I % 32));
+        if (toc[I / 32] == 0)
+            toctoc &= ~(1 << (I / 32));
+    }
+
     void add(cali_id_t key, const Entry& value, bool include_in_snapshot);
 
 public:
-- 
2.43.0


From 7e10bc7ef6892f904470b603d469554fe56f2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 034/120] fix: trace service allocates a new buffer for every
 snapshot on a thread with a region stack error and flushes its records in
 reverse order

---
 src/services/trace/Trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..49c3518 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -79,7 +79,7 @@ class Trace
         if (!tbuf && can_alloc) {
             tbuf = new TraceBuffer(buffersize);
 
-            c->set(tbuf_attr, Variant(cali_make_variant_from_ptr(tbuf)));
+            c->exchange(tbuf_attr, Variant(cali_make_variant_from_ptr(tbuf)));
 
             std::lock_guard<util::spinlock> g(tbuf_lock);
 
-- 
2.43.0


From 72a5320e85130907e39cfd89b40537f1e7d9adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 035/120] fix: aggregate service creates a new aggregation
 database for every snapshot on a thread with a region stack error

---
 src/services/aggregate/Aggregate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7cdad74..1500f85 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -86,7 +86,7 @@ class Aggregate
         if (!tdb && can_alloc) {
             tdb = new ThreadDB(c);
 
-            c->set(m_tdb_attr, Variant(cali_make_variant_from_ptr(tdb)));
+            c->exchange(m_tdb_attr, Variant(cali_make_variant_from_ptr(tdb)));
 
             std::lock_guard<util::spinlock> g(m_tdb_lock);
 
-- 
2.43.0


From dc52f10f0429f38414b3b5730f0ddc08331a82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 036/120] fix: timer service restarts its time stamps for every
 snapshot on a thread with a region stack error

---
 src/services/timer/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/timer/Timer.cpp b/src/services/timer/Timer.cpp
index 5ec1422..e1f3e45 100644
--- a/src/services/timer/Timer.cpp
+++ b/src/services/timer/Timer.cpp
@@ -68,7 +68,7 @@ class TimerService
         if (!ti && !c->is_signal()) {
             ti = new TimerInfo;
 
-            c->set(timerinfo_attr, Variant(cali_make_variant_from_ptr(ti)));
+            c->exchange(timerinfo_attr, Variant(cali_make_variant_from_ptr(ti)));
 
             std::lock_guard<std::mutex> g(info_obj_mutex);
 
-- 
2.43.0


From 388db1e1bb209532145b14130b82ea737436c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 037/120] fix: trace service flushes records out of program
 order when a trace buffer has grown

---
 src/services/trace/TraceBufferChunk.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6bc5bb0..e78dcd5 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -44,6 +44,13 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 {
     size_t written = 0;
 
+    //
+    // flush subsequent buffers in list: these hold the older records
+    //
+
+    if (m_next)
+        written += m_next->flush(c, proc_fn);
+
     //
     // local flush
     //
@@ -66,13 +73,6 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 
     written += m_nrec;
 
-    //
-    // flush subsequent buffers in list
-    //
-
-    if (m_next)
-        written += m_next->flush(c, proc_fn);
-
     return written;
 }
 
-- 
2.43.0


From 296c4655e7a940132e156c1d908334459ffc0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 038/120] fix: trace buffer overruns its end and duplicates
 records with the flush buffer policy

---
 src/services/trace/Trace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 49c3518..881e289 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                c->clear(&m_channel);
                 return tbuf;
             }
 
-- 
2.43.0


From fe708d7ec0e5cde07dd034bf33b3d234e49b0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 039/120] fix: trace service writes out of bounds with a buffer
 size of 0

---
 src/services/trace/Trace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 881e289..de60773 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -16,6 +16,7 @@
 #include "../../common/util/spinlock.hpp"
 #include "../../common/util/unitfmt.h"
 
+#include <algorithm>
 #include <atomic>
 #include <cstring>
 #include <mutex>
@@ -276,7 +277,7 @@ class Trace
         ConfigSet cfg = services::init_config_from_spec(channel->config(), s_spec);
 
         init_overflow_policy(cfg.get("buffer_policy").to_string());
-        buffersize = cfg.get("buffer_size").to_uint() * 1024 * 1024;
+        buffersize = std::max<size_t>(cfg.get("buffer_size").to_uint(), 1) * 1024 * 1024;
 
         tbuf_attr = c->create_attribute(
             std::string("trace.tbuf.") + std::to_string(channel->id()),
-- 
2.43.0


From 266c3ace0e8cf92bf4a2a0ade77e3eb597e6a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 040/120] fix: a trace buffer stopped by the stop policy
 resumes recording after a flush

---
 src/services/trace/Trace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index de60773..5b8071c 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -166,9 +166,9 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            tbuf->stopped.store(true);
+            bool was_stopped = tbuf->stopped.exchange(true);
             num_written += tbuf->chunks->flush(c, proc_fn);
-            tbuf->stopped.store(false);
+            tbuf->stopped.store(was_stopped);
         }
 
         Log(1).stream() << m_channel.name() << ": trace: Flushed " << num_written << " snapshots.\n";
-- 
2.43.0


From da1e704d03d2cebc970e73173e32f2256be23ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 041/120] fix: cali_channel_flush() crashes for a channel that
 does not exist

---
 src/caliper/cali.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index af6ca86..09fc2d9 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -724,6 +724,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From 25d67f4a9c7ef547d707aca01b5991c7ac89883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 042/120] fix: event service's branch filter never closes a
 branch after a set event with a matching value

---
 src/services/event/EventTrigger.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..b4f3c56 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -200,9 +200,7 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+            if (!branch_filter.pass(value) && branch_filter_stack.empty())
                 return;
         }
 
-- 
2.43.0


From c102a1f40890d0b409ad8bb133fde87699fd5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 043/120] fix: event service's branch filter mixes up threads
 and refers to region names after they are gone

---
 src/services/event/EventTrigger.cpp | 33 +++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index b4f3c56..5be8f8f 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -58,7 +58,8 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
+    // thread-local number of open regions that match the branch filter
+    Attribute branch_depth_attr;
 
     std::string channel_name;
 
@@ -138,6 +139,16 @@ class EventTrigger
         return nullptr;
     }
 
+    int get_branch_depth(Caliper* c) const
+    {
+        return c->get_blackboard_entry(branch_depth_attr).value().to_int();
+    }
+
+    void set_branch_depth(Caliper* c, int depth) const
+    {
+        c->exchange(branch_depth_attr, Variant(depth));
+    }
+
     static inline bool is_subscription_attribute(const Attribute& attr)
     {
         return attr.get(cali::subscription_event_attr).to_bool();
@@ -156,9 +167,10 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
+            int depth = get_branch_depth(c);
             if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+                set_branch_depth(c, ++depth);
+            if (depth == 0)
                 return;
         }
 
@@ -200,7 +212,7 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (!branch_filter.pass(value) && branch_filter_stack.empty())
+            if (!branch_filter.pass(value) && get_branch_depth(c) == 0)
                 return;
         }
 
@@ -234,10 +246,11 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
+            int depth = get_branch_depth(c);
+            if (depth == 0)
                 return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
+            if (branch_filter.pass(value))
+                set_branch_depth(c, depth - 1);
         }
 
         if (enable_snapshot_info) {
@@ -330,6 +343,12 @@ class EventTrigger
             CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
         );
 
+        branch_depth_attr = c->create_attribute(
+            std::string("event.branch.depth#") + std::to_string(channel->id()),
+            CALI_TYPE_INT,
+            CALI_ATTR_SCOPE_THREAD | CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
+        );
+
         check_existing_attributes(c);
     }
 
-- 
2.43.0


From 1f15240a72a77bd698600b46884e279a960effb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 044/120] fix: event service matches the bytes of numeric
 values against the branch filter

---
 src/services/event/EventTrigger.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 5be8f8f..3af6a69 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -149,6 +149,11 @@ class EventTrigger
         c->exchange(branch_depth_attr, Variant(depth));
     }
 
+    bool pass_branch_filter(const Attribute& attr, const Variant& value) const
+    {
+        return attr.type() == CALI_TYPE_STRING && branch_filter.pass(value);
+    }
+
     static inline bool is_subscription_attribute(const Attribute& attr)
     {
         return attr.get(cali::subscription_event_attr).to_bool();
@@ -168,7 +173,7 @@ class EventTrigger
             return;
         if (branch_filter.has_filters()) {
             int depth = get_branch_depth(c);
-            if (branch_filter.pass(value))
+            if (pass_branch_filter(attr, value))
                 set_branch_depth(c, ++depth);
             if (depth == 0)
                 return;
@@ -212,7 +217,7 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (!branch_filter.pass(value) && get_branch_depth(c) == 0)
+            if (!pass_branch_filter(attr, value) && get_branch_depth(c) == 0)
                 return;
         }
 
@@ -249,7 +254,7 @@ class EventTrigger
             int depth = get_branch_depth(c);
             if (depth == 0)
                 return;
-            if (branch_filter.pass(value))
+            if (pass_branch_filter(attr, value))
                 set_branch_depth(c, depth - 1);
         }
 
-- 
2.43.0


From 4bf57d180448ef494afafc6099ac407e8ed3c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 045/120] fix: context tree path with more values than nodes in
 a node block overruns the block

---
 src/caliper/MetadataTree.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..feeda9f 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -130,11 +130,6 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
-    // Get a node block with sufficient free space
-
-    if (!have_free_nodeblock(n))
-        return 0;
-
     // Calculate and allocate required memory
 
     const size_t align     = 8;
@@ -166,6 +161,12 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
         const void* dptr { data[i].data() };
         size_t      size { data[i].size() };
 
+        // Make sure we have a node block with free space. The path can
+        // be longer than a node block, so check this for every node.
+
+        if (!have_free_nodeblock(1))
+            return nullptr;
+
         if (copy) {
             dptr = memcpy(ptr, dptr, size);
             ptr += size + (align - (size + 1) % align);
@@ -180,9 +181,9 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             parent->append(node);
 
         parent = node;
-    }
 
-    m_num_nodes += n;
+        ++m_num_nodes;
+    }
 
     return node;
 }
-- 
2.43.0


From 302649a51b596569b6efd2fa16d127f0939e60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 046/120] fix: crash when the context tree is full

---
 include/caliper/SnapshotRecord.h | 13 +++----
 include/caliper/common/Entry.h   |  4 +-
 src/caliper/Caliper.cpp          | 64 +++++++++++++++++++++++++-------
 src/caliper/MetadataTree.cpp     |  6 ++-
 4 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/include/caliper/SnapshotRecord.h b/include/caliper/SnapshotRecord.h
index 172b32e..251db64 100644
--- a/include/caliper/SnapshotRecord.h
+++ b/include/caliper/SnapshotRecord.h
@@ -102,18 +102,17 @@ public:
 
     void append(const Entry& e)
     {
-        if (m_len < m_capacity)
-            m_data[m_len++] = e;
-        else
+        // an entry can be empty if its attribute or node did not fit in the context tree
+        if (e.empty() || m_len >= m_capacity)
             ++m_skipped;
+        else
+            m_data[m_len++] = e;
     }
 
     void append(size_t n, const Entry* entries)
     {
-        size_t num_copied = std::min(n, m_capacity - m_len);
-        std::copy_n(entries, num_copied, m_data + m_len);
-        m_len += num_copied;
-        m_skipped += n - num_copied;
+        for (size_t i = 0; i < n; ++i)
+            append(entries[i]);
     }
 
     void append(const Attribute& attr, const Variant& val) { append(Entry(attr, val)); }
diff --git a/include/caliper/common/Entry.h b/include/caliper/common/Entry.h
index 2f8a529..7e92811 100644
--- a/include/caliper/common/Entry.h
+++ b/include/caliper/common/Entry.h
@@ -40,8 +40,8 @@ public:
     /// @brief Construct an empty Entry
     constexpr Entry() : m_node(nullptr) {}
 
-    /// @brief Construct a reference entry from \a node
-    Entry(Node* node) : m_node(node), m_value(node->data()) {}
+    /// @brief Construct a reference entry from \a node, or an empty entry if \a node is null
+    Entry(Node* node) : m_node(node), m_value(node ? node->data() : Variant()) {}
 
     /// @brief Construct an immediate entry from \a attr, \a val
     Entry(const Attribute& attr, const Variant& val) : m_node(attr.node()), m_value(val) {}
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..279533b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -558,6 +558,12 @@ void log_stack_error(const Node* stack, const Attribute& attr)
                     << "\n  Ceasing region tracking!" << helpstr << std::endl;
 }
 
+void log_tree_full_error(const Attribute& attr, const Variant& value)
+{
+    Log(0).stream() << "Context tree is full: Cannot begin " << attr.name() << "=" << value.to_string()
+                    << "\n  Ceasing region tracking!" << std::endl;
+}
+
 void log_stack_value_error(const Entry& current, Attribute attr, const Variant& expect)
 {
     std::string error;
@@ -598,7 +604,8 @@ inline BlackboardEntry load_current_entry(const Attribute& attr, cali_id_t key,
     return { merged_entry, entry };
 }
 
-inline void handle_begin(
+// Returns false if we could not create a node because the context tree is full
+inline bool handle_begin(
     const Attribute& attr,
     const Variant&   value,
     int              prop,
@@ -609,10 +616,18 @@ inline void handle_begin(
     if (prop & CALI_ATTR_ASVALUE) {
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     } else {
-        cali_id_t key   = get_blackboard_key_for_reference_entry(prop);
-        Entry     entry = Entry(tree.get_child(attr, value, blackboard.get(key).node()));
-        blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
+        cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
+        Node*     node = tree.get_child(attr, value, blackboard.get(key).node());
+
+        if (!node) {
+            log_tree_full_error(attr, value);
+            return false;
+        }
+
+        blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
     }
+
+    return true;
 }
 
 inline void handle_end(
@@ -635,7 +650,10 @@ inline void handle_end(
             if (current.merged_entry.node() != current.entry.node())
                 node = tree.remove_first_in_path(current.merged_entry.node(), attr);
 
-            blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
+            if (node)
+                blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
+            else // the context tree is full
+                blackboard.del(key);
         }
     }
 }
@@ -652,8 +670,10 @@ inline void handle_set(
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     else {
         cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
-        Node*     node = blackboard.get(key).node();
-        blackboard.set(key, tree.replace_first_in_path(node, attr, value), !(prop & CALI_ATTR_HIDDEN));
+        Node*     node = tree.replace_first_in_path(blackboard.get(key).node(), attr, value);
+
+        if (node) // keep the current entry if the context tree is full
+            blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
     }
 }
 
@@ -693,7 +713,7 @@ Attribute Caliper::create_attribute(
     node = sT->tree.type_node(type);
 
     // Add metadata nodes.
-    for (int n = 0; n < n_meta; ++n)
+    for (int n = 0; n < n_meta && node; ++n)
         node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
 
     // Look for attribute properties in presets
@@ -721,8 +741,15 @@ Attribute Caliper::create_attribute(
     Attribute name_attr = Attribute::make_attribute(sT->tree.node(Attribute::NAME_ATTR_ID));
     Attribute prop_attr = Attribute::make_attribute(sT->tree.node(Attribute::PROP_ATTR_ID));
 
-    node = sT->tree.get_child(prop_attr, Variant(prop), node);
-    node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+    if (node)
+        node = sT->tree.get_child(prop_attr, Variant(prop), node);
+    if (node)
+        node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+
+    if (!node) {
+        Log(0).stream() << "Context tree is full: Cannot create attribute " << name << std::endl;
+        return Attribute();
+    }
 
     {
         // Check again if attribute already exists; might have been created by
@@ -963,11 +990,18 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
         }
     }
 
+    bool success = true;
+
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree);
+        success = handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree);
     else if (scope == CALI_ATTR_SCOPE_PROCESS) {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_begin(attr, data, prop, sG->process_blackboard, sT->tree);
+        success = handle_begin(attr, data, prop, sG->process_blackboard, sT->tree);
+    }
+
+    if (!success) {
+        sT->stack_error = true;
+        return;
     }
 
     // invoke callbacks
@@ -1117,7 +1151,11 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree);
+
+        if (!handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree)) {
+            sT->stack_error = true;
+            return;
+        }
     }
 
     // invoke callbacks
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index feeda9f..4e75fb1 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -197,9 +197,13 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
 
-- 
2.43.0


From 2e86f5db4420b48375bddb687188ff99f1548c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 047/120] fix: cali_find_all_in_snapshot() returns metadata
 values of attributes stored as values

---
 src/caliper/cali.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 09fc2d9..3f1e73c 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -242,8 +242,8 @@ public:
 
     inline bool operator() (const Entry& e)
     {
-        if (e.is_immediate() && e.attribute() == m_id) {
-            if ((*m_fn)(m_arg, e.attribute(), e.value().c_variant()) == 0)
+        if (e.is_immediate()) {
+            if (e.attribute() == m_id && (*m_fn)(m_arg, e.attribute(), e.value().c_variant()) == 0)
                 return false;
         } else {
             for (const Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
-- 
2.43.0


From 3d7267a9f94d9127349d0ce2692f30ec3274c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 048/120] fix: Annotation::begin(int)/set(int) drops the first
 value for an existing double or uint attribute

---
 src/caliper/Annotation.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..bec1ea3 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -171,6 +171,13 @@ struct Annotation::Impl {
             c.end(attr);
     }
 
+    // Return the attribute if it exists already
+    Attribute find_attribute()
+    {
+        cali::Node* attr_node = m_attr_node.load();
+        return attr_node ? Attribute::make_attribute(attr_node) : Caliper().get_attribute(m_name);
+    }
+
     Attribute get_attribute(Caliper& c, cali_attr_type type)
     {
         cali::Node* attr_node = m_attr_node.load();
@@ -253,7 +260,7 @@ Annotation& Annotation::begin()
 
 Annotation& Annotation::begin(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Attribute attr = pI->find_attribute();
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
@@ -279,7 +286,7 @@ Annotation& Annotation::begin(const Variant& data)
 
 Annotation& Annotation::set(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Attribute attr = pI->find_attribute();
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
-- 
2.43.0


From fc4adeaf721a804b168621a681d13a92cab77cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 049/120] fix: Annotation deletes its data twice if the last
 two copies are destroyed on different threads at the same time

---
 src/caliper/Annotation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index bec1ea3..11b7932 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -207,9 +207,7 @@ struct Annotation::Impl {
 
     void detach()
     {
-        --m_refcount;
-
-        if (m_refcount == 0)
+        if (--m_refcount == 0)
             delete this;
     }
 };
-- 
2.43.0


From 8b48b2ed75f771b51011960ad386c8d4b2889d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 050/120] fix: tree formatter indents the deepest region label
 one column too little

---
 src/reader/TreeFormatter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index b0ac366..6fce022 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -241,7 +241,7 @@ struct TreeFormatter::TreeFormatterImpl {
             int width = column_width(m_path_column_width);
 
             std::string path_str;
-            path_str.append(std::min(2 * level, width - 2), ' ');
+            path_str.append(2 * level < width ? 2 * level : width - 2, ' ');
 
             if (2 * level >= width)
                 path_str.append("..");
@@ -259,12 +259,12 @@ struct TreeFormatter::TreeFormatterImpl {
                 int width = column_width(m_path_column_width);
 
                 std::string path_str;
-                path_str.append(std::min(2 * level, width - 2), ' ');
+                path_str.append(2 * level < width ? 2 * level : width - 2, ' ');
 
                 if (2 * level >= width)
                     path_str.append("..");
                 else
-                    path_str.append(" |-");
+                    path_str.append(util::clamp_string(" |-", width - 2 * level));
 
                 util::pad_right(os << "\n", path_str, width);
             }
-- 
2.43.0


From e6904dad43027cfe176a5186d1d88c17f101d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 051/120] fix: runtime-report ignores the order_by_time option

---
 .../controllers/RuntimeReportController.cpp     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/caliper/controllers/RuntimeReportController.cpp b/src/caliper/controllers/RuntimeReportController.cpp
index 01628f4..b9e3acb 100644
--- a/src/caliper/controllers/RuntimeReportController.cpp
+++ b/src/caliper/controllers/RuntimeReportController.cpp
@@ -70,11 +70,21 @@ public:
             config()["CALI_MPIREPORT_WRITE_ON_FINALIZE"] = "false";
             config()["CALI_MPIREPORT_LOCAL_CONFIG"]      = opts.build_query("local", q_local);
             config()["CALI_MPIREPORT_CONFIG"]            = opts.build_query("cross", q_cross);
+
+            //   Must come after the default order_as_visited option's query as the
+            // last "order by" key takes precedence
+            if (opts.is_enabled("order_by_time"))
+                config()["CALI_MPIREPORT_CONFIG"].append(
+                    " aggregate sum(sum#report.t) order by sum#sum#report.t desc"
+                );
         } else {
             config()["CALI_SERVICES_ENABLE"].append(",report");
             config()["CALI_REPORT_FILENAME"] = opts.get("output", "stderr");
             config()["CALI_REPORT_APPEND"]   = opts.get("output.append");
             config()["CALI_REPORT_CONFIG"]   = opts.build_query("local", q_serial);
+
+            if (opts.is_enabled("order_by_time"))
+                config()["CALI_REPORT_CONFIG"].append(" order by sum#report.t desc");
         }
 
         opts.update_channel_config(config());
@@ -147,12 +157,7 @@ const char* runtime_report_spec = R"json(
   },{
    "name": "order_by_time",
    "type": "bool",
-   "description": "Order tree branches by highest exclusive runtime",
-   "query":
-   {
-    "local": "order by sum#report.time desc",
-    "cross": "aggregate sum(sum#report.time) order by sum#sum#report.time desc"
-   }
+   "description": "Order tree branches by highest exclusive runtime"
   },{
    "name": "output.append",
    "type": "bool",
-- 
2.43.0


From 4b779b8b9079b2238d649ca20fd6fedfcde0765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 052/120] fix: region profiles for an unknown region type
 include the regions of all types

---
 src/reader/FlatExclusiveRegionProfile.cpp   |  7 +++++--
 src/reader/FlatInclusiveRegionProfile.cpp   |  5 ++++-
 src/reader/NestedExclusiveRegionProfile.cpp | 13 ++++++++-----
 src/reader/NestedInclusiveRegionProfile.cpp | 12 ++++++++----
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/reader/FlatExclusiveRegionProfile.cpp b/src/reader/FlatExclusiveRegionProfile.cpp
index 58aa984..425ad4d 100644
--- a/src/reader/FlatExclusiveRegionProfile.cpp
+++ b/src/reader/FlatExclusiveRegionProfile.cpp
@@ -17,6 +17,7 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      any_region = false; // include regions of any type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -34,11 +35,11 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
 
         auto region_entry_it = rec.end();
 
-        if (!region_attr)
+        if (any_region)
             region_entry_it = std::find_if(rec.begin(), rec.end(), [&db](const Entry& e) {
                 return db.get_attribute(e.attribute()).is_nested();
             });
-        else {
+        else if (region_attr) {
             cali_id_t attr_id = region_attr.id();
             region_entry_it =
                 std::find_if(rec.begin(), rec.end(), [attr_id](const Entry& e) { return e.attribute() == attr_id; });
@@ -62,6 +63,8 @@ FlatExclusiveRegionProfile::FlatExclusiveRegionProfile(
 
     if (region_attr_name && strlen(region_attr_name) > 0)
         mP->region_attr = db.get_attribute(region_attr_name);
+    else
+        mP->any_region = true;
 }
 
 void FlatExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index e51e3af..50f124d 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -17,6 +17,7 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      any_region = false; // include regions of any type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -41,7 +42,7 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
 
             for (const Node* node = e.node(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
                 cali_id_t n_a_id   = node->attribute();
-                bool is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
+                bool is_target_reg = (any_region ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
                 if (is_target_reg) {
                     have_reg_entry = true;
@@ -66,6 +67,8 @@ FlatInclusiveRegionProfile::FlatInclusiveRegionProfile(
 
     if (region_attr_name && strlen(region_attr_name) > 0)
         mP->region_attr = db.get_attribute(region_attr_name);
+    else
+        mP->any_region = true;
 }
 
 void FlatInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedExclusiveRegionProfile.cpp b/src/reader/NestedExclusiveRegionProfile.cpp
index daa83fd..8621f02 100644
--- a/src/reader/NestedExclusiveRegionProfile.cpp
+++ b/src/reader/NestedExclusiveRegionProfile.cpp
@@ -13,17 +13,17 @@ using namespace cali;
 namespace
 {
 
-std::string get_path(CaliperMetadataAccessInterface& db, const Node* node, cali_id_t r_a_id)
+std::string get_path(CaliperMetadataAccessInterface& db, const Node* node, cali_id_t r_a_id, bool any_region)
 {
     std::string path;
 
     if (!node || node->attribute() == CALI_INV_ID)
         return path;
 
-    path = get_path(db, node->parent(), r_a_id);
+    path = get_path(db, node->parent(), r_a_id, any_region);
 
     cali_id_t n_a_id        = node->attribute();
-    bool      is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
+    bool      is_target_reg = (any_region ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
     if (is_target_reg)
         path.append(path.empty() ? "" : "/").append(node->data().to_string());
@@ -40,6 +40,7 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      any_region = false; // include regions of any type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -62,11 +63,11 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
                 continue;
 
             cali_id_t n_a_id        = e.attribute();
-            bool      is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
+            bool      is_target_reg = (any_region ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
             if (is_target_reg) {
                 total_reg += val;
-                reg_profile[::get_path(db, e.node(), r_a_id)] += val;
+                reg_profile[::get_path(db, e.node(), r_a_id, any_region)] += val;
                 break;
             }
         }
@@ -84,6 +85,8 @@ NestedExclusiveRegionProfile::NestedExclusiveRegionProfile(
 
     if (region_attr_name && strlen(region_attr_name) > 0)
         mP->region_attr = db.get_attribute(region_attr_name);
+    else
+        mP->any_region = true;
 }
 
 void NestedExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedInclusiveRegionProfile.cpp b/src/reader/NestedInclusiveRegionProfile.cpp
index a5352dc..cdfa86d 100644
--- a/src/reader/NestedInclusiveRegionProfile.cpp
+++ b/src/reader/NestedInclusiveRegionProfile.cpp
@@ -18,7 +18,8 @@ std::string recursive_update(
     std::map<std::string, double>&  reg_profile,
     const Node*                     node,
     double                          val,
-    cali_id_t                       r_a_id
+    cali_id_t                       r_a_id,
+    bool                            any_region
 )
 {
     std::string path;
@@ -26,10 +27,10 @@ std::string recursive_update(
     if (!node || node->attribute() == CALI_INV_ID)
         return path;
 
-    path = recursive_update(db, reg_profile, node->parent(), val, r_a_id);
+    path = recursive_update(db, reg_profile, node->parent(), val, r_a_id, any_region);
 
     cali_id_t n_a_id        = node->attribute();
-    bool      is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
+    bool      is_target_reg = (any_region ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
     if (is_target_reg) {
         path.append(path.empty() ? "" : "/").append(node->data().to_string());
@@ -48,6 +49,7 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      any_region = false; // include regions of any type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -70,7 +72,7 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
             if (!e.is_reference())
                 continue;
 
-            pathstr = ::recursive_update(db, reg_profile, e.node(), val, r_a_id);
+            pathstr = ::recursive_update(db, reg_profile, e.node(), val, r_a_id, any_region);
 
             if (!pathstr.empty())
                 break;
@@ -92,6 +94,8 @@ NestedInclusiveRegionProfile::NestedInclusiveRegionProfile(
 
     if (region_attr_name && strlen(region_attr_name) > 0)
         mP->region_attr = db.get_attribute(region_attr_name);
+    else
+        mP->any_region = true;
 }
 
 void NestedInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
-- 
2.43.0


From b2cde1bea7a1f61314b8593766e965f130a88f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 053/120] fix: inclusive region profile counts a recursive
 region multiple times

---
 src/reader/FlatInclusiveRegionProfile.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index 50f124d..0583453 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <set>
 
 using namespace cali;
 
@@ -33,8 +34,10 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
-        cali_id_t r_a_id         = region_attr.id();
-        bool      have_reg_entry = false;
+        cali_id_t r_a_id = region_attr.id();
+
+        // a region counts once even if it is on the stack multiple times
+        std::set<std::string> regions;
 
         for (const Entry& e : rec) {
             if (!e.is_reference())
@@ -44,14 +47,15 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
                 cali_id_t n_a_id   = node->attribute();
                 bool is_target_reg = (any_region ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
-                if (is_target_reg) {
-                    have_reg_entry = true;
-                    reg_profile[node->data().to_string()] += val;
-                }
+                if (is_target_reg)
+                    regions.insert(node->data().to_string());
             }
         }
 
-        if (have_reg_entry)
+        for (const std::string& name : regions)
+            reg_profile[name] += val;
+
+        if (!regions.empty())
             total_reg += val;
     }
 };
-- 
2.43.0


From ff1cbb5940182c009ab6610a0c20d8ed75d3f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 054/120] fix: aggregate service loses values of attributes
 created after an entry

---
 src/services/aggregate/AggregationDB.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..d34e62f 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -96,6 +96,18 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     ++entry->count;
 
+    //   Aggregation attributes may have been created since the entry was made:
+    // move its kernels to a larger block
+    if (entry != &m_entries[0] && entry->num_kernels < info.aggr_attrs.size()
+        && (!c->is_signal() || m_kernels.size() + info.aggr_attrs.size() < m_kernels.capacity())) {
+        size_t kernels_idx = m_kernels.size();
+        m_kernels.resize(kernels_idx + info.aggr_attrs.size(), AggregateKernel());
+        std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+
+        entry->kernels_idx = kernels_idx;
+        entry->num_kernels = info.aggr_attrs.size();
+    }
+
     for (size_t a = 0; a < std::min(entry->num_kernels, info.aggr_attrs.size()); ++a) {
         Entry e = rec.get_immediate_entry(info.aggr_attrs[a]);
 
-- 
2.43.0


From ff46ea971e2dbf74a73c24ca03e7e1a0ca538d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 055/120] fix: aggregate service merges records that differ
 after the 16th key entry

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index d34e62f..eadc20f 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -17,7 +17,7 @@
 using namespace cali;
 using namespace aggregate;
 
-#define MAX_KEYLEN 16
+#define MAX_KEYLEN 120 // the maximum snapshot record length
 
 AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc)
 {
-- 
2.43.0


From cf6111d344acba34bbd6cf8a4a66687cc26590c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 056/120] fix: metadata tree reads new nodes without acquire
 ordering

---
 include/caliper/common/lockfree-tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..beac1a3 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -80,7 +80,7 @@ public:
 
     T* parent() const { return node(m_me).parent; }
 
-    T* first_child() const { return node(m_me).head.load(std::memory_order_relaxed); }
+    T* first_child() const { return node(m_me).head.load(std::memory_order_acquire); }
 
     T* next_sibling() const { return node(m_me).next; }
 
-- 
2.43.0


From da8271f56e66255780e877bf9dc0babac66edd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 057/120] fix: aggregate service splits records whose key
 entries are ordered differently

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index eadc20f..ef6cdde 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -27,7 +27,7 @@ AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_
 
     for (std::size_t idx = m_hashmap[hash]; idx != 0; idx = m_entries[idx].next_entry_idx) {
         AggregateEntry* e = &m_entries[idx];
-        if (key_len == e->key_len && std::equal(key.begin(), key.end(), m_keyents.begin() + e->key_idx))
+        if (key_len == e->key_len && std::is_permutation(key.begin(), key.end(), m_keyents.begin() + e->key_idx))
             return e;
         ++count;
     }
-- 
2.43.0


From 245bf32cc7d46425c86fedcda01a45aec56d67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 058/120] fix: concurrent first use of Caliper initializes it
 multiple times

---
 src/caliper/Caliper.cpp | 44 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 279533b..11e1426 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -297,8 +297,9 @@ struct Caliper::ThreadData {
 struct Caliper::GlobalData {
     // --- static data
 
-    static volatile sig_atomic_t s_init_lock;
-    static std::mutex            s_init_mutex;
+    // 0: initialized, 1: not (fully) initialized yet, 2: finished
+    static std::atomic<int> s_init_lock;
+    static std::mutex       s_init_mutex;
 
     static const ConfigSet::Entry s_configdata[];
 
@@ -481,8 +482,8 @@ struct Caliper::GlobalData {
 
 // --- static member initialization
 
-volatile sig_atomic_t Caliper::GlobalData::s_init_lock = 1;
-std::mutex            Caliper::GlobalData::s_init_mutex;
+std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
+std::mutex       Caliper::GlobalData::s_init_mutex;
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
@@ -1500,40 +1501,37 @@ Caliper::Caliper() : m_is_signal(false)
 
 Caliper Caliper::instance()
 {
-    GlobalData* gPtr = nullptr;
-    ThreadData* tPtr = nullptr;
-
-    if (GlobalData::s_init_lock == 0) {
-        gPtr = GlobalData::gObj.g_ptr;
-        tPtr = GlobalData::tObj.t_ptr;
-    } else {
-        if (GlobalData::s_init_lock == 2)
-            // Caliper had been initialized previously; we're past the static destructor
-            return Caliper(nullptr, nullptr, true);
+    if (GlobalData::s_init_lock == 2)
+        // Caliper had been initialized previously; we're past the static destructor
+        return Caliper(nullptr, nullptr, true);
 
+    //   Threads that get here while another thread initializes Caliper have to
+    // wait. The initializing thread itself has its thread data set at the point
+    // where it uses Caliper::instance() to create the default channel.
+    if (GlobalData::s_init_lock != 0 && !GlobalData::tObj.t_ptr) {
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
-
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
-
         if (!GlobalData::gObj.g_ptr) {
-            tPtr = new ThreadData(true /* is_initial_thread */);
-            gPtr = new GlobalData(tPtr);
+            Log::init();
+
+            ThreadData* tPtr = new ThreadData(true /* is_initial_thread */);
+            GlobalData* gPtr = new GlobalData(tPtr);
 
             GlobalData::gObj.g_ptr = gPtr;
 
             gPtr->add_thread_data(tPtr);
             gPtr->init();
 
-            GlobalData::s_init_lock = 0;
-
             // now we can use Caliper::instance()
             ::make_default_channel();
+
+            GlobalData::s_init_lock = 0;
         }
     }
 
+    GlobalData* gPtr = GlobalData::gObj.g_ptr;
+    ThreadData* tPtr = GlobalData::tObj.t_ptr;
+
     if (!tPtr) {
         tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
         Caliper c(gPtr, tPtr, false);
-- 
2.43.0


From 2c93e6c24cf084aba0df71deadbf867914a564b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 059/120] fix: attributes are visible to other threads before
 services have processed them

---
 src/caliper/Caliper.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 11e1426..33330f4 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -305,6 +305,7 @@ struct Caliper::GlobalData {
 
     // --- data
 
+    std::recursive_mutex             attribute_creation_lock;
     mutable std::mutex               attribute_lock;
     std::map<std::string, Attribute> attribute_map;
 
@@ -708,6 +709,19 @@ Attribute Caliper::create_attribute(
             return it->second;
     }
 
+    //   Serialize attribute creation. Other threads can only obtain the new
+    // attribute after the create_attr_evt callbacks have processed it.
+    std::lock_guard<std::recursive_mutex> gc(sG->attribute_creation_lock);
+
+    // Check again, the attribute might have been created by another thread in the meantime
+    {
+        std::lock_guard<std::mutex> ga(sG->attribute_lock);
+
+        auto it = sG->attribute_map.find(name);
+        if (it != sG->attribute_map.end())
+            return it->second;
+    }
+
     Node* node = nullptr;
 
     // Get type node
@@ -752,20 +766,6 @@ Attribute Caliper::create_attribute(
         return Attribute();
     }
 
-    {
-        // Check again if attribute already exists; might have been created by
-        // another thread in the meantime.
-        // We've created some redundant nodes then, but that's fine
-
-        std::lock_guard<std::mutex> ga(sG->attribute_lock);
-
-        auto it = sG->attribute_map.lower_bound(name);
-        if (it == sG->attribute_map.end() || it->first != name)
-            sG->attribute_map.insert(it, std::make_pair(name, Attribute::make_attribute(node)));
-        else
-            return it->second;
-    }
-
     // Create attribute object
 
     Attribute attr = Attribute::make_attribute(node);
@@ -773,7 +773,9 @@ Attribute Caliper::create_attribute(
     for (auto& channel : sG->all_channels)
         channel.mP->events.create_attr_evt(this, attr);
 
-    return attr;
+    std::lock_guard<std::mutex> ga(sG->attribute_lock);
+
+    return sG->attribute_map.insert(std::make_pair(name, attr)).first->second;
 }
 
 Attribute Caliper::get_attribute(const std::string& name) const
-- 
2.43.0


From d659cc7fc72c3a80cc5cab8843d0d91bae6d9d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 060/120] fix: data race on the metadata tree node block size

---
 src/caliper/MetadataTree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..512e5c0 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -23,8 +23,9 @@ namespace internal
 class MetadataTree
 {
     struct NodeBlock {
-        Node*  chunk;
-        size_t index;
+        Node* chunk;
+        // number of nodes, modified by the thread that owns the block
+        std::atomic<size_t> index { 0 };
     };
 
     struct GlobalData {
-- 
2.43.0


From dd7621b028b503bce38e6cc5c573253e21bd9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 061/120] fix: data race between aggregation and attribute
 creation

---
 src/services/aggregate/Aggregate.cpp | 52 +++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 1500f85..8947c5b 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -16,6 +16,7 @@
 #include "caliper/common/Variant.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
 #include <mutex>
 #include <sstream>
@@ -53,6 +54,11 @@ class Aggregate
 
         AggregationDB db;
 
+        //   Thread-local copy of the channel's attribute info, which other
+        // threads can update when they create attributes
+        AttributeInfo attr_info;
+        unsigned      attr_info_version = 0;
+
         void unlink()
         {
             if (next)
@@ -70,6 +76,8 @@ class Aggregate
     util::spinlock m_tdb_lock;
 
     AttributeInfo            m_attr_info;
+    std::atomic<unsigned>    m_attr_info_version { 0 };
+    std::mutex               m_attr_info_lock;
     std::vector<std::string> m_key_attribute_names;
 
     Attribute m_tdb_attr;
@@ -130,11 +138,29 @@ class Aggregate
         if (!(attr.properties() & CALI_ATTR_AGGREGATABLE))
             return;
 
+        // this creates attributes, which can bring us back here
+        ResultAttributes res = make_result_attributes(c, attr);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
         if (std::find(m_attr_info.aggr_attrs.begin(), m_attr_info.aggr_attrs.end(), attr) != m_attr_info.aggr_attrs.end())
             return;
 
         m_attr_info.aggr_attrs.push_back(attr);
-        m_attr_info.result_attrs.push_back(make_result_attributes(c, attr));
+        m_attr_info.result_attrs.push_back(res);
+        ++m_attr_info_version;
+    }
+
+    const AttributeInfo& get_attribute_info(Caliper* c, ThreadDB* tdb)
+    {
+        if (tdb->attr_info_version != m_attr_info_version.load() && !c->is_signal()) {
+            std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+            tdb->attr_info         = m_attr_info;
+            tdb->attr_info_version = m_attr_info_version.load();
+        }
+
+        return tdb->attr_info;
     }
 
     void init_aggregation_attributes(Caliper* c)
@@ -146,8 +172,14 @@ class Aggregate
 
         const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
 
-        m_attr_info.count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
-        m_attr_info.slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+        Attribute count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
+        Attribute slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        m_attr_info.count_attr = count_attr;
+        m_attr_info.slot_attr  = slot_attr;
+        ++m_attr_info_version;
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -159,11 +191,18 @@ class Aggregate
             tdb = m_tdb_list;
         }
 
+        AttributeInfo attr_info;
+
+        {
+            std::lock_guard<std::mutex> g(m_attr_info_lock);
+            attr_info = m_attr_info;
+        }
+
         size_t num_written = 0;
 
         for (; tdb; tdb = tdb->next) {
             tdb->stopped.store(true);
-            num_written += tdb->db.flush(m_attr_info, c, proc_fn);
+            num_written += tdb->db.flush(attr_info, c, proc_fn);
             tdb->stopped.store(false);
         }
 
@@ -234,18 +273,21 @@ class Aggregate
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
         if (tdb && !tdb->stopped.load())
-            tdb->db.process_snapshot(c, rec, m_attr_info);
+            tdb->db.process_snapshot(c, rec, get_attribute_info(c, tdb));
         else
             ++m_num_dropped_snapshots;
     }
 
     void check_key_attribute(const Attribute& attr)
     {
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
         auto it = std::find(m_key_attribute_names.begin(), m_key_attribute_names.end(), attr.name());
 
         if (it != m_key_attribute_names.end()) {
             if (attr.store_as_value()) {
                 m_attr_info.imm_key_attrs.push_back(attr);
+                ++m_attr_info_version;
             } else {
                 Log(1).stream() << m_channel_name
                     << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
-- 
2.43.0


From 25e8296278f86d1cc21dd550e2bab4e564ae5017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 062/120] fix: loop_monitor measures loops whose name starts
 with a target loop name

target_loops entries were compared as prefixes, so a target loop "main"
also selected "main_solve".
---
 src/services/monitor/LoopMonitor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..5a1acd4 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -9,6 +9,8 @@
 #include "caliper/common/Log.h"
 
 #include <chrono>
+#include <cstring>
+#include <string>
 #include <vector>
 
 using namespace cali;
@@ -48,7 +50,7 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (s.size() == value.size() && memcmp(value.data(), s.data(), s.size()) == 0)
                 return true;
 
         return false;
-- 
2.43.0


From 91746a1e6cbd32c1f2fe4a4d78c98f0327eb2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 063/120] fix: loop_monitor reports wrong start iteration for
 negative iteration numbers

A negative start_iteration doubled as "not set" marker, so loops over
negative indices got no or a wrong loop.start_iteration.
---
 src/services/monitor/LoopMonitor.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5a1acd4..223eda5 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -60,10 +60,10 @@ class LoopMonitor
     {
         Entry  data[] = { { num_iterations_attr, Variant(num_iterations) },
                           { start_iteration_attr, Variant(start_iteration) } };
-        size_t n      = start_iteration >= 0 ? 2 : 1;
+        size_t n      = num_iterations > 0 ? 2 : 1;
         c->push_snapshot(chB, SnapshotView(n, data));
 
-        start_iteration = -1;
+        start_iteration = 0;
         num_iterations  = 0;
         ++num_snapshots;
 
@@ -79,8 +79,7 @@ class LoopMonitor
             }
             ++loop_level;
         } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            ++num_iterations;
-            if (start_iteration < 0)
+            if (num_iterations++ == 0)
                 start_iteration = value.to_int();
         }
     }
@@ -118,7 +117,7 @@ class LoopMonitor
     LoopMonitor(Caliper* c, Channel* channel)
         : loop_level(0),
           target_level(-1),
-          start_iteration(-1),
+          start_iteration(0),
           num_iterations(0),
           num_snapshots(0),
           iteration_interval(0),
-- 
2.43.0


From ebbc012e681f8da367ad539481228f62193682ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 064/120] fix: loop_monitor miscounts loop levels in channels
 created inside a loop

Loop end events of loops opened before the channel existed made the loop
level negative, which then matched the "no target" marker and produced
spurious snapshots and lost ones.
---
 src/services/monitor/LoopMonitor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 223eda5..ff26471 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -87,6 +87,8 @@ class LoopMonitor
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
         if (attr == loop_attr) {
+            if (loop_level == 0) // loop was opened before the channel was
+                return;
             if (loop_level == target_level) {
                 snapshot(c, chB);
                 target_level = -1;
-- 
2.43.0


From 564d7cb504d17d71c1641e23812b476eb78c9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 065/120] fix: loop-report shows wrong minimum and maximum
 iteration rates

The iterations per nanosecond rate was scaled with 1e-9 instead of 1e9.
---
 src/caliper/controllers/LoopReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index c3327a7..197899f 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -86,7 +86,7 @@ class LoopReportController : public cali::internal::CustomOutputController
     Aggregator summary_local_aggregation(Caliper& c, CaliperMetadataDB& db)
     {
         const char* query_str =
-            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e-9)"
+            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e9)"
             " select loop"
             ",count()"
             ",sum(loop.iterations)"
-- 
2.43.0


From 1ef176a999c6555d36ffc83ad7bb704cd977e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 066/120] fix: tracking an allocation with element size 0
 crashes

The alloc service divided by the element size.
---
 src/services/alloc/AllocService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..29da9af 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From 6622d4db45168eb9e95ef8a9474639d907e387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 067/120] fix: alloc service reports wrong size for allocations
 of 2 GiB and more

The size was truncated to 32 bits.
---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 29da9af..e641de2 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(static_cast<int64_t>(total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From 90da1ee8b696467a611e243733d450f7fe3ca7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 068/120] fix: active memory never shrinks for an allocation
 that is tracked again

When the address of a tracked allocation was tracked again without an
untrack call in between, the tree entry was replaced but the replaced
allocation's size remained in the active memory count for good.
---
 src/services/alloc/AllocService.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index e641de2..4cd029a 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -213,22 +213,31 @@ class AllocService
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
 
-        {
-            std::lock_guard<std::mutex> g(g_hwm_lock);
-
-            g_active_mem += total_size;
-            g_hwm        = std::max(g_hwm, g_active_mem);
-            g_region_hwm = std::max(g_region_hwm, g_active_mem);
-        }
+        uint64_t replaced_size = 0;
 
         {
             std::lock_guard<std::mutex> g(g_tree_lock);
 
+            // A new allocation replaces a tracked one with the same address
+            if (auto tree_node = g_tree.find(HasStartAddress(info.start_addr))) {
+                replaced_size = (*tree_node).total_size;
+                --g_current_tracked;
+            }
+
             g_tree.insert(info);
 
             g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
+
+        {
+            std::lock_guard<std::mutex> g(g_hwm_lock);
+
+            g_active_mem += total_size;
+            g_active_mem -= replaced_size;
+            g_hwm        = std::max(g_hwm, g_active_mem);
+            g_region_hwm = std::max(g_region_hwm, g_active_mem);
+        }
     }
 
     void untrack_mem_cb(Caliper* c, ChannelBody* chB, const void* ptr)
-- 
2.43.0


From ee80ef342bf78b377cfdbb5e8e98ff5e67dcc08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 069/120] fix: data race on the alloc service's active memory
 counter

---
 src/services/alloc/AllocService.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 4cd029a..46159d0 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -331,8 +331,16 @@ class AllocService
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& snapshot)
     {
         // Record currently active amount of allocated memory
-        if (g_record_active_mem)
-            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(g_active_mem)));
+        if (g_record_active_mem) {
+            uint64_t active_mem = 0;
+
+            {
+                std::lock_guard<std::mutex> g(g_hwm_lock);
+                active_mem = g_active_mem;
+            }
+
+            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(active_mem)));
+        }
 
         if (g_resolve_addresses && !info.empty())
             resolve_addresses(c, info, snapshot);
-- 
2.43.0


From d905678783c71ca48fdf9468b19c1eb7cbea8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 070/120] fix: compressed snapshot records with more than four
 node entries are corrupt

Each block of node entries was written over the previous one at the
beginning of the node section instead of at its end.
---
 src/common/CompressedSnapshotRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CompressedSnapshotRecord.cpp b/src/common/CompressedSnapshotRecord.cpp
index 4d01058..7800d9e 100644
--- a/src/common/CompressedSnapshotRecord.cpp
+++ b/src/common/CompressedSnapshotRecord.cpp
@@ -185,7 +185,7 @@ size_t CompressedSnapshotRecord::append(size_t n, const Node* const node_vec[])
         // size check, copy to actual buffer
         if (m_num_nodes + blk < 128 && m_imm_pos + m_imm_len + len <= m_buffer_len) {
             ::save_memmove(m_buffer + m_imm_pos + len, m_buffer + m_imm_pos, m_imm_len);
-            memcpy(m_buffer + 1, tmp, len);
+            memcpy(m_buffer + m_imm_pos, tmp, len);
 
             m_imm_pos += len;
             m_num_nodes += blk;
-- 
2.43.0


From 61a4759c3f375da68a78fbd5925b982a9b867bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 071/120] fix: cross-process aggregation drops entries of large
 records

Records were packed into a fixed 512-byte buffer; entries beyond that
were dropped silently. Use a buffer of the needed size.
---
 src/caliper/aggregate_over_mpi.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..33c3843 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -13,6 +13,7 @@
 #include "../common/SnapshotBuffer.h"
 
 #include <set>
+#include <vector>
 
 using namespace cali;
 
@@ -59,7 +60,17 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
                 else if (e.is_immediate())
                     recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
 
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+            CompressedSnapshotRecord rec(list.size(), list.data());
+
+            if (rec.num_skipped() > 0) {
+                // the record does not fit into the default buffer
+                std::vector<unsigned char> buf(rec.needed_len());
+                CompressedSnapshotRecord   large_rec(buf.size(), buf.data());
+
+                large_rec.append(list.size(), list.data());
+                snapbuf.append(large_rec);
+            } else
+                snapbuf.append(rec);
         }
     );
 
-- 
2.43.0


From bd83a73dc92f94cca82c8e1ba1858006ab279653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 072/120] fix: settings of a config profile in several places
 or files are lost

---
 src/common/RuntimeConfig.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..c2c87c1 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -155,6 +155,18 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
     // --- helpers
 
+    // add settings to a config profile, the last definition of a variable is taken
+    void merge_config_profile(const std::string& name, const ::config_profile_t& settings)
+    {
+        if (settings.empty())
+            return;
+
+        ::config_profile_t& profile = m_config_profiles[name];
+
+        for (const auto& p : settings)
+            profile[p.first] = p.second;
+    }
+
     void read_config_profiles(std::istream& in)
     {
         //
@@ -177,9 +189,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
                 std::string::size_type e = line.find_first_of(']');
 
                 if (b != std::string::npos && e != std::string::npos && b + 1 < e) {
-                    if (current_profile.size() > 0)
-                        m_config_profiles[current_profile_name].insert(current_profile.begin(), current_profile.end());
-
+                    merge_config_profile(current_profile_name, current_profile);
                     current_profile.clear();
                     current_profile_name = line.substr(b + 1, e - b - 1);
                 } else {
@@ -195,8 +205,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
             }
         }
 
-        if (current_profile.size() > 0)
-            m_config_profiles[current_profile_name] = current_profile;
+        merge_config_profile(current_profile_name, current_profile);
     }
 
     void read_config_files(const std::vector<std::string>& filenames)
-- 
2.43.0


From 6507fb928d7a6fe2bef658c36718a7778dc6c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 073/120] fix: loading a directory as config or metadata file
 terminates the program

---
 src/caliper/ConfigManager.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 2bcf641..e233d32 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -255,19 +255,29 @@ unsigned add_metadata_entries(const std::string& key, const StringConverter& val
     return num_entries;
 }
 
+// Read the contents of a file. Fails for anything that has no readable content, e.g. directories.
+bool read_file(std::istream& is, std::string& str)
+{
+    std::ostringstream os;
+
+    if (is.peek() != std::istream::traits_type::eof())
+        os << is.rdbuf();
+
+    str = os.str();
+    return !is.bad() && os.good();
+}
+
 void read_metadata_from_json_file(const std::string& filename, const std::string& keys, info_map_t& info)
 {
-    std::ifstream is(filename.c_str(), std::ios::ate);
+    std::ifstream is(filename.c_str());
 
     if (!is) {
         Log(0).stream() << "read_metadata_from_json_file(): Cannot open file " << filename << ", quitting\n";
         return;
     }
 
-    auto        size = is.tellg();
-    std::string str(size, '\0');
-    is.seekg(0);
-    if (!is.read(&str[0], size)) {
+    std::string str;
+    if (!read_file(is, str)) {
         Log(0).stream() << "read_metadata_from_json_file(): Cannot read file " << filename << ", quitting\n";
         return;
     }
@@ -1153,12 +1163,12 @@ struct ConfigManager::ConfigManagerImpl {
     // Load config and/or option specs from file
     void load_file(const std::string& filename)
     {
-        if (std::ifstream is { filename, std::ios::ate }) {
-            auto        size = is.tellg();
-            std::string str(size, '\0');
-            is.seekg(0);
-            if (is.read(&str[0], size))
+        if (std::ifstream is { filename }) {
+            std::string str;
+            if (::read_file(is, str))
                 parse_json_content(str);
+            else
+                set_error(std::string("Could not read file ") + filename);
         } else {
             set_error(std::string("Could not open file ") + filename);
         }
-- 
2.43.0


From f345c60627a242f2a3075ef9ab42e25addae2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 074/120] fix: config string with unknown keys starts channels,
 extra keys are reported again by later calls

---
 src/caliper/ConfigManager.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index e233d32..ba385ba 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -1210,6 +1210,9 @@ struct ConfigManager::ConfigManagerImpl {
     {
         import_builtin_config_specs();
 
+        // extra key-value pairs are those in the current config string
+        m_extra_vars.clear();
+
         std::vector<std::pair<const std::shared_ptr<config_spec_t>, arglist_t>> ret;
 
         std::istringstream is(config_string);
@@ -1322,11 +1325,17 @@ struct ConfigManager::ConfigManagerImpl {
         return ret;
     }
 
-    bool add(const char* config_string)
+    bool add(const char* config_string, bool allow_extra_kv_pairs)
     {
         auto channels = parse(config_string);
+
+        if (!allow_extra_kv_pairs && !m_extra_vars.empty())
+            set_error("Unknown config or parameter: " + m_extra_vars.begin()->first);
+        if (m_error)
+            return false;
+
         m_channels.insert(m_channels.end(), channels.begin(), channels.end());
-        return !m_error;
+        return true;
     }
 
     std::string get_description_for_spec(const char* name) const
@@ -1428,7 +1437,7 @@ ConfigManager::ConfigManager() : mP(new ConfigManagerImpl)
 
 ConfigManager::ConfigManager(const char* config_string) : mP(new ConfigManagerImpl)
 {
-    mP->add(config_string);
+    mP->add(config_string, false);
 }
 
 ConfigManager::~ConfigManager()
@@ -1464,21 +1473,16 @@ void ConfigManager::load(const char* filename)
 
 bool ConfigManager::add(const char* config_str)
 {
-    mP->add(config_str);
-
-    if (!mP->m_extra_vars.empty())
-        mP->set_error("Unknown config or parameter: " + mP->m_extra_vars.begin()->first);
-
-    return !mP->m_error;
+    return mP->add(config_str, false);
 }
 
 bool ConfigManager::add(const char* config_string, argmap_t& extra_kv_pairs)
 {
-    mP->add(config_string);
+    bool ret = mP->add(config_string, true);
 
     extra_kv_pairs.insert(mP->m_extra_vars.begin(), mP->m_extra_vars.end());
 
-    return !mP->m_error;
+    return ret;
 }
 
 bool ConfigManager::error() const
-- 
2.43.0


From ebe740be7a1ecb2a89f46055c89745b6438cb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 075/120] fix: an empty dict in a config spec is a parse error

---
 src/common/StringConverter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/StringConverter.cpp b/src/common/StringConverter.cpp
index 0a4e7b6..7ace12a 100644
--- a/src/common/StringConverter.cpp
+++ b/src/common/StringConverter.cpp
@@ -237,6 +237,15 @@ std::map<std::string, cali::StringConverter> cali::StringConverter::rec_dict(boo
         return ret;
     }
 
+    // check for an empty dict
+    c = util::read_char(is);
+    if (c == '}') {
+        if (okptr)
+            *okptr = true;
+        return ret;
+    } else if (is.good())
+        is.unget();
+
     do {
         std::string key = util::read_word(is, ":");
         c               = util::read_char(is);
-- 
2.43.0


From fa072e20f6d7ad04a9119f0471b0a2133b34758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 076/120] fix: reports of a query in the running program ignore
 aliases, units and channel metadata

---
 src/caliper/cali.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 3f1e73c..074280b 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -19,6 +19,7 @@
 #include "caliper/common/Variant.h"
 
 #include "caliper/reader/CalQLParser.h"
+#include "caliper/reader/CaliperMetadataDB.h"
 #include "caliper/reader/QueryProcessor.h"
 
 #include <cstring>
@@ -822,13 +823,22 @@ void write_report_for_query(cali_id_t chn_id, const char* query, int flush_opts,
 
     stream.set_stream(&os);
 
-    QueryProcessor queryP(spec, stream);
+    CaliperMetadataDB db;
+    QueryProcessor    queryP(spec, stream);
 
-    c.flush(channel.body(), SnapshotView(), [&queryP](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
-        queryP.process_record(db, rec);
-    });
+    db.add_attribute_aliases(spec.aliases);
+    db.add_attribute_units(spec.units);
+
+    c.flush(
+        channel.body(),
+        SnapshotView(),
+        [&queryP, &db](CaliperMetadataAccessInterface& in_db, const std::vector<Entry>& rec) {
+            queryP.process_record(db, db.merge_snapshot(in_db, rec));
+        }
+    );
 
-    queryP.flush(c);
+    db.import_globals(c, c.get_globals(channel.body()));
+    queryP.flush(db);
 }
 
 } // namespace cali
-- 
2.43.0


From 23e9d16ed06f266f60d0a31de5c6f5d1fe1758ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 077/120] fix: write_report_for_query ignores
 CALI_FLUSH_CLEAR_BUFFERS

---
 src/caliper/cali.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 074280b..c896dd4 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -839,6 +839,9 @@ void write_report_for_query(cali_id_t chn_id, const char* query, int flush_opts,
 
     db.import_globals(c, c.get_globals(channel.body()));
     queryP.flush(db);
+
+    if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
+        c.clear(&channel);
 }
 
 } // namespace cali
-- 
2.43.0


From 2bc218f2101000b169fbe58d9dc538994811da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 078/120] fix: no time series for loops with quotes or
 backslashes in their name

---
 src/caliper/controllers/LoopReportController.cpp |  4 +++-
 src/caliper/controllers/SpotController.cpp       |  4 +++-
 src/caliper/controllers/util.cpp                 | 13 +++++++++++++
 src/caliper/controllers/util.h                   |  3 +++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 197899f..8816aa7 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -17,6 +17,8 @@
 #include <caliper/common/Log.h>
 #include <caliper/common/OutputStream.h>
 
+#include "util.h"
+
 #include "../../common/StringConverter.h"
 
 #include <algorithm>
@@ -131,7 +133,7 @@ class LoopReportController : public cali::internal::CustomOutputController
             ",ratio(loop.iterations,time.duration.ns,1e9)"
             " group by Block";
         query.append(" let Block=truncate(loop.start_iteration,").append(std::to_string(blocksize)).append(") ");
-        query.append(" where loop=\"").append(loopname).append("\" ");
+        query.append(" where loop=").append(util::quote_query_string(loopname)).append(" ");
 
         query = m_opts.build_query("local", query);
 
diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 4174a89..c9ffea4 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -17,6 +17,8 @@
 #include <caliper/common/Log.h>
 #include <caliper/common/OutputStream.h>
 
+#include "util.h"
+
 #include "../../common/StringConverter.h"
 
 #include "../../common/util/file_util.h"
@@ -170,7 +172,7 @@ public:
             " group by cali.channel,loop,block ";
 
         q_local.append(" let block = truncate(loop.start_iteration,").append(std::to_string(blocksize)).append(") ");
-        q_local.append(" where loop.start_iteration,loop=\"").append(loopname).append("\" ");
+        q_local.append(" where loop.start_iteration,loop=").append(util::quote_query_string(loopname)).append(" ");
 
         std::string query = m_opts.build_query("local", q_local);
 
diff --git a/src/caliper/controllers/util.cpp b/src/caliper/controllers/util.cpp
index b5acc98..a75b4ee 100644
--- a/src/caliper/controllers/util.cpp
+++ b/src/caliper/controllers/util.cpp
@@ -28,3 +28,16 @@ std::string util::build_tree_format_spec(config_map_t& config, const ConfigManag
 
     return std::string("tree(") + format + ")";
 }
+
+std::string util::quote_query_string(const std::string& str)
+{
+    std::string ret = "\"";
+
+    for (char c : str) {
+        if (c == '"' || c == '\\')
+            ret.push_back('\\');
+        ret.push_back(c);
+    }
+
+    return ret.append("\"");
+}
diff --git a/src/caliper/controllers/util.h b/src/caliper/controllers/util.h
index aaabd8f..74b504a 100644
--- a/src/caliper/controllers/util.h
+++ b/src/caliper/controllers/util.h
@@ -17,6 +17,9 @@ namespace util
 
 std::string build_tree_format_spec(config_map_t&, const cali::ConfigManager::Options&, const char* initial = "");
 
+/// \brief Return \a str as quoted string for use in a CalQL query
+std::string quote_query_string(const std::string& str);
+
 }
 
 } // namespace cali
-- 
2.43.0


From 6c69be5607f49bdefbcffff2f9203f7c0669b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 079/120] fix: loop time series have more than
 timeseries.maxrows rows

---
 src/caliper/controllers/LoopReportController.cpp | 2 +-
 src/caliper/controllers/SpotController.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 8816aa7..be5635b 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -172,7 +172,7 @@ class LoopReportController : public cali::internal::CustomOutputController
             if (nblocks <= 0)
                 nblocks = rec_count;
 
-            int blocksize = rec_count > nblocks ? iterations / nblocks : 1;
+            int blocksize = rec_count > nblocks ? (iterations + nblocks - 1) / nblocks : 1;
 
             Aggregator local_agg = timeseries_local_aggregation(c, db, name, std::max(blocksize, 1));
             QuerySpec  spec      = timeseries_spec();
diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index c9ffea4..29494c1 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -300,7 +300,7 @@ class SpotController : public cali::internal::CustomOutputController
             if (nblocks <= 0)
                 nblocks = rec_count;
 
-            int blocksize = rec_count > nblocks ? iterations / nblocks : 1;
+            int blocksize = rec_count > nblocks ? (iterations + nblocks - 1) / nblocks : 1;
 
             QuerySpec  spec = tsc->timeseries_spec();
             Aggregator cross_agg(spec);
-- 
2.43.0


From e9556d673f1448b26b1deea39577c8888622e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 080/120] fix: spot passes timeseries option values on without
 quotes

---
 src/caliper/controllers/SpotController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 29494c1..efbe125 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -85,7 +85,7 @@ void convert_timeseries_option(const ConfigManager::Options& opts, const char* t
 
         target.append(ts_opt_name);
         target.append("=");
-        target.append(opts.get(spot_opt_name.c_str()));
+        target.append(util::quote_query_string(opts.get(spot_opt_name.c_str())));
     }
 }
 
-- 
2.43.0


From a30e6276547e8e99dcf7594a51b696f5244bd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:07 +0000
Subject: [PATCH 081/120] fix: region.stats visit time average ignores the
 number of visits

---
 src/caliper/controllers/controllers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index 04563a1..0ab04e8 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -264,8 +264,8 @@ const char* builtin_base_option_specs = R"json(
  },
  "query":
  {
-  "local": "select sum(sum#region.count) as Visits unit count,min(min#time.inclusive.duration.ns) as \"Nsec/visit (min)\" unit nsec,avg(avg#time.inclusive.duration.ns) as \"Nsec/visit (avg)\" unit nsec,max(max#time.inclusive.duration.ns) as \"Nsec/visit (max)\" unit nsec",
-  "cross": "select sum(sum#sum#region.count) as Visits unit count,min(min#min#time.inclusive.duration.ns) as \"Nsec/visit (min)\" unit nsec,avg(avg#avg#time.inclusive.duration.ns) as \"Nsec/visit (avg)\" unit nsec,max(max#max#time.inclusive.duration.ns) as \"Nsec/visit (max)\" unit nsec"
+  "local": "let rs.visits=first(sum#region.count) if sum#time.inclusive.duration.ns select sum(sum#region.count) as Visits unit count,min(min#time.inclusive.duration.ns) as \"Nsec/visit (min)\" unit nsec,ratio(sum#time.inclusive.duration.ns,rs.visits) as \"Nsec/visit (avg)\" unit nsec,max(max#time.inclusive.duration.ns) as \"Nsec/visit (max)\" unit nsec",
+  "cross": "select sum(sum#sum#region.count) as Visits unit count,min(min#min#time.inclusive.duration.ns) as \"Nsec/visit (min)\" unit nsec,avg(ratio#sum#time.inclusive.duration.ns/rs.visits) as \"Nsec/visit (avg)\" unit nsec,max(max#max#time.inclusive.duration.ns) as \"Nsec/visit (max)\" unit nsec"
  }
 },{
  "name": "loop.stats",
-- 
2.43.0


From b0252e64159f951d235148614df4b46d26362af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 082/120] fix: pair Testsome/Waitsome completions with their
 status

---
 src/services/mpiwrap/Wrapper.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 6d0b1a4..ae2b04f 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -731,11 +731,11 @@ post_init_cb(Caliper* c, Channel* channel)
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
                 for (int i = 0; i < *{{2}}; ++i)
-                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
                for (int i = 0; i < *{{2}}; ++i) {
                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i]);
-                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
                }
         }
 
-- 
2.43.0


From c2601f7679c10dfa8b99da25850c57b5a83f788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 083/120] fix: handle MPI_UNDEFINED from Waitany/Testany in MPI
 tracing

---
 src/services/mpiwrap/Wrapper.w | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ae2b04f..ce7889d 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -675,9 +675,9 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_tracing && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active())
                 mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
-            if (mwc->enable_msg_pattern && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (mwc->enable_msg_pattern && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
                 mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
             }
@@ -879,7 +879,7 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{3}} && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{3}} && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 if (mwc->enable_msg_tracing)
                     mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{4}});
                 if (mwc->enable_msg_pattern) {
-- 
2.43.0


From e64aad86a07677a3655a52990771b5f249ba232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 084/120] fix: trace MPI_Scatterv volume from the send counts
 at root

---
 src/services/mpiwrap/Wrapper.w | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ce7889d..9c88c2e 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1019,14 +1019,22 @@ post_init_cb(Caliper* c, Channel* channel)
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
-                mwc->tracing.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
+                int tmp_rank     = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
+                // send counts and type are only significant at root
+                bool is_root     = (tmp_rank == {{7}});
+                int total_count  = is_root ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
+                mwc->tracing.handle_12n(&c, mwc->channel.body(), total_count, is_root ? {{3}} : {{6}}, {{7}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
-                mwc->pattern.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
+                int tmp_rank     = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
+                // send counts and type are only significant at root
+                bool is_root     = (tmp_rank == {{7}});
+                int total_count  = is_root ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
+                mwc->pattern.handle_12n(&c, mwc->channel.body(), total_count, is_root ? {{3}} : {{6}}, {{7}}, {{8}});
             }
         }
 
-- 
2.43.0


From 38586f408d750c2e6600368bf13b3fcd96aa4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 085/120] fix: ignore non-significant send arguments of traced
 MPI collectives

---
 src/services/mpiwrap/Wrapper.w | 64 +++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 9c88c2e..b2f29c7 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -989,12 +989,18 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are only significant at root
+        int tmp_rank = 0;
+        PMPI_Comm_rank({{7}}, &tmp_rank);
+        int          msg_count = (tmp_rank == {{6}} ? {{1}} : 0);
+        MPI_Datatype msg_type  = (tmp_rank == {{6}} ? {{2}} : {{5}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_{{func}} && mwc->channel.is_active()) {
                 if (mwc->enable_msg_tracing)
-                    mwc->tracing.handle_12n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}}, {{7}});
+                    mwc->tracing.handle_12n(&c, mwc->channel.body(), msg_count, msg_type, {{6}}, {{7}});
                 if (mwc->enable_msg_pattern)
-                    mwc->pattern.handle_12n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}}, {{7}});
+                    mwc->pattern.handle_12n(&c, mwc->channel.body(), msg_count, msg_type, {{6}}, {{7}});
             }
         }
 
@@ -1055,11 +1061,15 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are not significant with MPI_IN_PLACE (at root)
+        int          msg_count = ({{0}} == MPI_IN_PLACE ? 0 : {{1}});
+        MPI_Datatype msg_type  = ({{0}} == MPI_IN_PLACE ? {{5}} : {{2}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}}, {{7}});
+                mwc->tracing.handle_n21(&c, mwc->channel.body(), msg_count, msg_type, {{6}}, {{7}});
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}}, {{7}});
+                mwc->pattern.handle_n21(&c, mwc->channel.body(), msg_count, msg_type, {{6}}, {{7}});
         }
 
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
@@ -1079,11 +1089,15 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are not significant with MPI_IN_PLACE (at root)
+        int          msg_count = ({{0}} == MPI_IN_PLACE ? 0 : {{1}});
+        MPI_Datatype msg_type  = ({{0}} == MPI_IN_PLACE ? {{6}} : {{2}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}}, {{8}});
+                mwc->tracing.handle_n21(&c, mwc->channel.body(), msg_count, msg_type, {{7}}, {{8}});
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}}, {{8}});
+                mwc->pattern.handle_n21(&c, mwc->channel.body(), msg_count, msg_type, {{7}}, {{8}});
         }
 
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
@@ -1206,11 +1220,15 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are not significant with MPI_IN_PLACE
+        int          msg_count = ({{0}} == MPI_IN_PLACE ? {{4}} : {{1}});
+        MPI_Datatype msg_type  = ({{0}} == MPI_IN_PLACE ? {{5}} : {{2}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), msg_count, msg_type, {{6}});
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), msg_count, msg_type, {{6}});
         }
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
@@ -1229,11 +1247,17 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are not significant with MPI_IN_PLACE
+        int tmp_rank = 0;
+        PMPI_Comm_rank({{7}}, &tmp_rank);
+        int          msg_count = ({{0}} == MPI_IN_PLACE ? {{4}}[tmp_rank] : {{1}});
+        MPI_Datatype msg_type  = ({{0}} == MPI_IN_PLACE ? {{6}} : {{2}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), msg_count, msg_type, {{7}});
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), msg_count, msg_type, {{7}});
         }
 
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
@@ -1253,16 +1277,20 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send count and type are not significant with MPI_IN_PLACE
+        int          msg_count = ({{0}} == MPI_IN_PLACE ? {{4}} : {{1}});
+        MPI_Datatype msg_type  = ({{0}} == MPI_IN_PLACE ? {{5}} : {{2}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * msg_count, msg_type, {{6}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * msg_count, msg_type, {{6}});
             }
         }
 
@@ -1284,18 +1312,22 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // send counts and type are not significant with MPI_IN_PLACE
+        const int*   msg_counts = ({{0}} == MPI_IN_PLACE ? {{5}} : {{1}});
+        MPI_Datatype msg_type   = ({{0}} == MPI_IN_PLACE ? {{7}} : {{3}});
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                int total_count  = std::accumulate(msg_counts, msg_counts+tmp_commsize, 0);
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, msg_type, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                int total_count  = std::accumulate(msg_counts, msg_counts+tmp_commsize, 0);
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, msg_type, {{8}});
             }
         }
 
-- 
2.43.0


From e9368767a34f9bbae7c8a9ed29fa5d6620fecd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 086/120] fix: forget freed communicators in MPI message
 tracing

---
 src/services/mpiwrap/MpiTracing.cpp | 11 +++++++++
 src/services/mpiwrap/MpiTracing.h   |  3 +++
 src/services/mpiwrap/Wrapper.w      | 38 +++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+)

diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 2b15541..a5ce982 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -173,6 +173,12 @@ struct MpiTracing::MpiTracingImpl {
         return node;
     }
 
+    void comm_free(MPI_Comm comm)
+    {
+        std::lock_guard<std::mutex> g(comm_map_lock);
+        comm_map.erase(comm);
+    }
+
     // --- point-to-point
     //
 
@@ -385,6 +391,11 @@ void MpiTracing::init_mpi(Caliper* c, Channel* chn)
     mP->init_mpi(c, chn);
 }
 
+void MpiTracing::comm_free(MPI_Comm comm)
+{
+    mP->comm_free(comm);
+}
+
 void MpiTracing::handle_send(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
 {
     int size = 0;
diff --git a/src/services/mpiwrap/MpiTracing.h b/src/services/mpiwrap/MpiTracing.h
index f6ee60d..964e7b0 100644
--- a/src/services/mpiwrap/MpiTracing.h
+++ b/src/services/mpiwrap/MpiTracing.h
@@ -83,6 +83,9 @@ public:
 
     void request_free(Caliper* c, ChannelBody* chB, MPI_Request* req);
 
+    // forget a communicator that is about to be freed
+    void comm_free(MPI_Comm comm);
+
     // --- collectives
 
     void handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm);
diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index b2f29c7..423592c 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -924,6 +924,32 @@ post_init_cb(Caliper* c, Channel* channel)
 #endif
 }{{endfn}}
 
+//
+// --- Communicator destruction: the handle may be reused for a new communicator
+//
+
+{{fn func MPI_Comm_free MPI_Comm_disconnect}}{
+#ifndef CALIPER_MPIWRAP_USE_GOTCHA
+    if (::enable_wrapper) {
+#endif
+        Caliper c;
+        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_msg_tracing)
+                mwc->tracing.comm_free(*{{0}});
+        }
+
+        {{callfn}}
+
+        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+#ifndef CALIPER_MPIWRAP_USE_GOTCHA
+    } else {
+        {{callfn}}
+    }
+#endif
+}{{endfn}}
+
 //
 // --- Collectives
 //
@@ -1403,6 +1429,7 @@ post_init_cb(Caliper* c, Channel* channel)
     MPI_Recv MPI_Irecv MPI_Recv_init
     MPI_Sendrecv MPI_Sendrecv_replace
     MPI_Start MPI_Startall MPI_Request_free
+    MPI_Comm_free MPI_Comm_disconnect
     MPI_Wait MPI_Waitall MPI_Waitany MPI_Waitsome
     MPI_Test MPI_Testall MPI_Testany MPI_Testsome
     MPI_Barrier
@@ -1515,6 +1542,17 @@ void mpiwrap_init(Caliper* c, Channel* chn, ConfigSet& cfg)
     ::MPI_Init_thread_is_wrapped = true;
     ::MPI_Finalize_is_wrapped    = true;
 
+    // message tracing needs to know when a communicator goes away
+    if (mwc->enable_msg_tracing) {
+        if (!::MPI_Comm_free_is_wrapped)
+            bindings.push_back(wrap_MPI_Comm_free_binding);
+        if (!::MPI_Comm_disconnect_is_wrapped)
+            bindings.push_back(wrap_MPI_Comm_disconnect_binding);
+
+        ::MPI_Comm_free_is_wrapped       = true;
+        ::MPI_Comm_disconnect_is_wrapped = true;
+    }
+
     {{forallfn name MPI_Init MPI_Init_thread MPI_Finalize}}
     if (mwc->enable_{{name}} && !::{{name}}_is_wrapped) {
         bindings.push_back(wrap_{{name}}_binding);
-- 
2.43.0


From 275039968739656dcfe9bd64cc5eb7ef425c88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 087/120] fix: don't record receives for cancelled or inactive
 requests

---
 src/services/mpiwrap/MpiPattern.cpp | 19 +++++++++++++++++--
 src/services/mpiwrap/MpiTracing.cpp | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 74fc22d..e171182 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -36,6 +36,7 @@ struct MpiPattern::MpiPatternImpl {
         enum { Unknown, Send, Recv } op { Unknown };
 
         bool is_persistent { false };
+        bool is_active { true }; ///< false for a persistent request that isn't started
 
         int          target;
         int          tag;
@@ -140,6 +141,7 @@ struct MpiPattern::MpiPatternImpl {
 
         info.op            = RequestInfo::Send;
         info.is_persistent = true;
+        info.is_active     = false;
         info.target        = dest;
         info.tag           = tag;
         info.count         = count;
@@ -212,6 +214,7 @@ struct MpiPattern::MpiPatternImpl {
 
         info.op            = RequestInfo::Recv;
         info.is_persistent = true;
+        info.is_active     = false;
         info.target        = src;
         info.tag           = tag;
         info.type          = type;
@@ -233,6 +236,8 @@ struct MpiPattern::MpiPatternImpl {
             if (it == req_map.end())
                 continue;
 
+            it->second.is_active = true;
+
             RequestInfo info = it->second;
 
             if (info.op == RequestInfo::Send)
@@ -266,7 +271,15 @@ struct MpiPattern::MpiPatternImpl {
 
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            // completing an inactive persistent request has no effect
+            if (!info.is_active)
+                continue;
+
+            int cancelled = 0;
+            if (info.op == RequestInfo::Recv)
+                PMPI_Test_cancelled(statuses + i, &cancelled);
+
+            if (info.op == RequestInfo::Recv && !cancelled) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -275,7 +288,9 @@ struct MpiPattern::MpiPatternImpl {
                 push_recv_event(c, chB, statuses[i].MPI_SOURCE, size * count, statuses[i].MPI_TAG);
             }
 
-            if (!info.is_persistent)
+            if (info.is_persistent)
+                it->second.is_active = false;
+            else
                 req_map.erase(it);
         }
     }
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index a5ce982..1e42ad4 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -40,6 +40,7 @@ struct MpiTracing::MpiTracingImpl {
         enum { Unknown, Send, Recv } op { Unknown };
 
         bool is_persistent { false };
+        bool is_active { true }; ///< false for a persistent request that isn't started
 
         int          target;
         int          tag;
@@ -208,6 +209,7 @@ struct MpiTracing::MpiTracingImpl {
 
         info.op            = RequestInfo::Send;
         info.is_persistent = true;
+        info.is_active     = false;
         info.target        = dest;
         info.tag           = tag;
         info.count         = count;
@@ -284,6 +286,7 @@ struct MpiTracing::MpiTracingImpl {
 
         info.op            = RequestInfo::Recv;
         info.is_persistent = true;
+        info.is_active     = false;
         info.target        = src;
         info.tag           = tag;
         info.type          = type;
@@ -306,6 +309,8 @@ struct MpiTracing::MpiTracingImpl {
             if (it == req_map.end())
                 continue;
 
+            it->second.is_active = true;
+
             RequestInfo info = it->second;
 
             if (info.op == RequestInfo::Send)
@@ -325,7 +330,15 @@ struct MpiTracing::MpiTracingImpl {
 
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            // completing an inactive persistent request has no effect
+            if (!info.is_active)
+                continue;
+
+            int cancelled = 0;
+            if (info.op == RequestInfo::Recv)
+                PMPI_Test_cancelled(statuses + i, &cancelled);
+
+            if (info.op == RequestInfo::Recv && !cancelled) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -334,7 +347,9 @@ struct MpiTracing::MpiTracingImpl {
                 push_recv_event(c, chB, statuses[i].MPI_SOURCE, size * count, statuses[i].MPI_TAG, info.comm_node);
             }
 
-            if (!info.is_persistent)
+            if (info.is_persistent)
+                it->second.is_active = false;
+            else
                 req_map.erase(it);
         }
     }
-- 
2.43.0


From 143838573003db6b4f551ccafb7bd585d647e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 088/120] fix: don't record Caliper's own MPI calls

---
 src/caliper/MpiChannelManager.cpp    |  4 ++--
 src/caliper/OutputCommMpi.cpp        | 16 ++++++++--------
 src/caliper/aggregate_over_mpi.cpp   | 28 ++++++++++++++--------------
 src/caliper/collective_flush.cpp     |  2 +-
 src/caliper/setup_mpi.cpp            |  4 ++--
 src/services/mpireport/MpiReport.cpp |  6 +++---
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/caliper/MpiChannelManager.cpp b/src/caliper/MpiChannelManager.cpp
index ee48522..548f66f 100644
--- a/src/caliper/MpiChannelManager.cpp
+++ b/src/caliper/MpiChannelManager.cpp
@@ -68,9 +68,9 @@ struct MpiChannelManager::MpiChannelManagerImpl {
     MpiChannelManagerImpl(MPI_Comm comm_) : comm { comm_ }
     {
         MPI_Group group;
-        MPI_Comm_group(comm, &group);
+        PMPI_Comm_group(comm, &group);
         int rank;
-        MPI_Group_rank(group, &rank);
+        PMPI_Group_rank(group, &rank);
         is_in_comm = (rank != MPI_UNDEFINED);
     }
 };
diff --git a/src/caliper/OutputCommMpi.cpp b/src/caliper/OutputCommMpi.cpp
index 094aec3..af825c4 100644
--- a/src/caliper/OutputCommMpi.cpp
+++ b/src/caliper/OutputCommMpi.cpp
@@ -20,15 +20,15 @@ struct OutputCommMpi::OutputCommMpiImpl {
     OutputCommMpiImpl(MPI_Comm comm_)
     {
         if (comm_ != MPI_COMM_NULL) {
-            MPI_Comm_dup(comm_, &comm);
-            MPI_Comm_rank(comm, &rank);
+            PMPI_Comm_dup(comm_, &comm);
+            PMPI_Comm_rank(comm, &rank);
         }
     }
 
     ~OutputCommMpiImpl()
     {
         if (comm != MPI_COMM_NULL)
-            MPI_Comm_free(&comm);
+            PMPI_Comm_free(&comm);
     }
 };
 
@@ -37,8 +37,8 @@ OutputCommMpi::OutputCommMpi()
     int initialized = 0;
     int finalized   = 0;
 
-    MPI_Initialized(&initialized);
-    MPI_Finalized(&finalized);
+    PMPI_Initialized(&initialized);
+    PMPI_Finalized(&finalized);
 
     if (finalized)
         Log(1).stream() << "OutputCommMpi: MPI is finalized" << std::endl;
@@ -66,7 +66,7 @@ int OutputCommMpi::rank() const
 int OutputCommMpi::bcast_int(int val) const
 {
     if (mP->active())
-        MPI_Bcast(&val, 1, MPI_INT, 0, mP->comm);
+        PMPI_Bcast(&val, 1, MPI_INT, 0, mP->comm);
 
     return val;
 }
@@ -76,12 +76,12 @@ std::string OutputCommMpi::bcast_str(const std::string& str) const
     if (mP->active()) {
         unsigned len = str.length();
 
-        MPI_Bcast(&len, 1, MPI_UNSIGNED, 0, mP->comm);
+        PMPI_Bcast(&len, 1, MPI_UNSIGNED, 0, mP->comm);
 
         std::vector<char> buf(len, '\0');
         std::copy(str.begin(), str.end(), std::begin(buf));
 
-        MPI_Bcast(buf.data(), len, MPI_CHAR, 0, mP->comm);
+        PMPI_Bcast(buf.data(), len, MPI_CHAR, 0, mP->comm);
 
         return { std::begin(buf), std::end(buf) };
     }
diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 33c3843..cf5bbd0 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -77,16 +77,16 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
     {
         unsigned nodecount = nodebuf.count();
 
-        MPI_Send(&nodecount, 1, MPI_UNSIGNED, dest, 1, comm);
+        PMPI_Send(&nodecount, 1, MPI_UNSIGNED, dest, 1, comm);
         // Work with pre-3.0 MPIs that take non-const void* :-/
-        MPI_Send(const_cast<unsigned char*>(nodebuf.data()), nodebuf.size(), MPI_BYTE, dest, 2, comm);
+        PMPI_Send(const_cast<unsigned char*>(nodebuf.data()), nodebuf.size(), MPI_BYTE, dest, 2, comm);
     }
 
     {
         unsigned snapcount = snapbuf.count();
 
-        MPI_Send(&snapcount, 1, MPI_UNSIGNED, dest, 3, comm);
-        MPI_Send(const_cast<unsigned char*>(snapbuf.data()), snapbuf.size(), MPI_BYTE, dest, 4, comm);
+        PMPI_Send(&snapcount, 1, MPI_UNSIGNED, dest, 3, comm);
+        PMPI_Send(const_cast<unsigned char*>(snapbuf.data()), snapbuf.size(), MPI_BYTE, dest, 4, comm);
     }
 }
 
@@ -94,17 +94,17 @@ size_t receive_and_merge_nodes(int source, CaliperMetadataDB& db, IdMap& idmap,
 {
     unsigned count = 0;
 
-    MPI_Recv(&count, 1, MPI_UNSIGNED, source, 1, comm, MPI_STATUS_IGNORE);
+    PMPI_Recv(&count, 1, MPI_UNSIGNED, source, 1, comm, MPI_STATUS_IGNORE);
 
     MPI_Status status;
     int        size = 0;
 
-    MPI_Probe(source, 2, comm, &status);
-    MPI_Get_count(&status, MPI_BYTE, &size);
+    PMPI_Probe(source, 2, comm, &status);
+    PMPI_Get_count(&status, MPI_BYTE, &size);
 
     NodeBuffer nodebuf;
 
-    MPI_Recv(nodebuf.import(size, count), size, MPI_BYTE, source, 2, comm, MPI_STATUS_IGNORE);
+    PMPI_Recv(nodebuf.import(size, count), size, MPI_BYTE, source, 2, comm, MPI_STATUS_IGNORE);
 
     nodebuf.for_each([&db, &idmap](const NodeBuffer::NodeInfo& info) {
         db.merge_node(info.node_id, info.attr_id, info.parent_id, info.value, idmap);
@@ -123,17 +123,17 @@ size_t receive_and_merge_snapshots(
 {
     unsigned count = 0;
 
-    MPI_Recv(&count, 1, MPI_UNSIGNED, source, 3, comm, MPI_STATUS_IGNORE);
+    PMPI_Recv(&count, 1, MPI_UNSIGNED, source, 3, comm, MPI_STATUS_IGNORE);
 
     MPI_Status status;
     int        size = 0;
 
-    MPI_Probe(source, 4, comm, &status);
-    MPI_Get_count(&status, MPI_BYTE, &size);
+    PMPI_Probe(source, 4, comm, &status);
+    PMPI_Get_count(&status, MPI_BYTE, &size);
 
     SnapshotBuffer snapbuf;
 
-    MPI_Recv(snapbuf.import(size, count), size, MPI_BYTE, source, 4, comm, MPI_STATUS_IGNORE);
+    PMPI_Recv(snapbuf.import(size, count), size, MPI_BYTE, source, 4, comm, MPI_STATUS_IGNORE);
 
     size_t pos = 0;
 
@@ -175,8 +175,8 @@ void aggregate_over_mpi(CaliperMetadataDB& metadb, Aggregator& aggr, MPI_Comm co
     int commsize = 1;
     int rank = 0;
 
-    MPI_Comm_size(comm, &commsize);
-    MPI_Comm_rank(comm, &rank);
+    PMPI_Comm_size(comm, &commsize);
+    PMPI_Comm_rank(comm, &rank);
 
     for (int steppow2 = 1; steppow2 < commsize; steppow2 *= 2) {
         // receive and merge
diff --git a/src/caliper/collective_flush.cpp b/src/caliper/collective_flush.cpp
index 9712fec..bb4e6c4 100644
--- a/src/caliper/collective_flush.cpp
+++ b/src/caliper/collective_flush.cpp
@@ -77,7 +77,7 @@ void collective_flush(
 
     // cross-process aggregation, if we have MPI
     if (comm != MPI_COMM_NULL) {
-        MPI_Comm_rank(comm, &rank);
+        PMPI_Comm_rank(comm, &rank);
 
         // do the global cross-process aggregation:
         //   aggregate_over_mpi() does all the magic
diff --git a/src/caliper/setup_mpi.cpp b/src/caliper/setup_mpi.cpp
index 90d58b3..486ea5c 100644
--- a/src/caliper/setup_mpi.cpp
+++ b/src/caliper/setup_mpi.cpp
@@ -34,12 +34,12 @@ void setup_log_prefix()
         return;
 
     int mpi_is_initialized = 0;
-    MPI_Initialized(&mpi_is_initialized);
+    PMPI_Initialized(&mpi_is_initialized);
 
     if (mpi_is_initialized && Log::is_initialized()) {
         int rank = 0;
 
-        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+        PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
         // Disable (most) logging on non-0 ranks by default
         std::ostringstream logprefix;
diff --git a/src/services/mpireport/MpiReport.cpp b/src/services/mpireport/MpiReport.cpp
index 24fdf32..fd0eef3 100644
--- a/src/services/mpireport/MpiReport.cpp
+++ b/src/services/mpireport/MpiReport.cpp
@@ -54,8 +54,8 @@ class MpiReport
         MPI_Comm comm = MPI_COMM_NULL;
 
         if (initialized) {
-            MPI_Comm_dup(MPI_COMM_WORLD, &comm);
-            MPI_Comm_rank(comm, &rank);
+            PMPI_Comm_dup(MPI_COMM_WORLD, &comm);
+            PMPI_Comm_rank(comm, &rank);
         }
 
         OutputStream stream;
@@ -72,7 +72,7 @@ class MpiReport
         collective_flush(stream, *c, chB, flush_info, m_local_spec, m_cross_spec, comm);
 
         if (comm != MPI_COMM_NULL)
-            MPI_Comm_free(&comm);
+            PMPI_Comm_free(&comm);
     }
 
     void connect_mpi_finalize(Channel* channel)
-- 
2.43.0


From 0adb57e44bda6d6a4c2c67ff9cc6fd3e0066d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 089/120] fix: report the maximum MPI message size across ranks

---
 src/caliper/controllers/controllers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index 0ab04e8..692f728 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -410,7 +410,7 @@ const char* builtin_mpi_option_specs = R"json(
   "select
     min(min#mms.min) as \"Msg size (min)\" unit Byte,
     avg(avg#mms.avg) as \"Msg size (avg)\" unit Byte,
-    max(max#mms.avg) as \"Msg size (avg)\" unit Byte"
+    max(max#mms.max) as \"Msg size (max)\" unit Byte"
  }
 },
 {
-- 
2.43.0


From 2a4339b859fe39b264eca0fb460c4746bbbc0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 090/120] fix: cali2traceevent fails for traces that start
 inside a region

---
 python/cali2traceevent.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/cali2traceevent.py b/python/cali2traceevent.py
index 60babcf..efb82c4 100755
--- a/python/cali2traceevent.py
+++ b/python/cali2traceevent.py
@@ -248,6 +248,12 @@ class CaliTraceEventConverter:
     def _process_gputrace_end(self, rec, pid, trec):
         block = rec.get("gputrace.block")
         skey  = ((pid,int(block)), "gputrace")
+
+        # the trace may have started after the region began
+        if not self.rstack.get(skey):
+            self.skipped += 1
+            return
+
         btst  = self.rstack[skey].pop()
         tst   = float(rec["gputrace.timestamp"])*1e-3
 
@@ -273,7 +279,14 @@ class CaliTraceEventConverter:
 
     def _process_event_end_rec(self, rec, loc, key, trec):
         attr = key[len("event.end#"):]
-        btst = self.rstack[(loc,attr)].pop()
+        skey = (loc,attr)
+
+        # the trace may have started after the region began
+        if not self.rstack.get(skey):
+            self.skipped += 1
+            return
+
+        btst = self.rstack[skey].pop()
         tst  = _get_timestamp(rec)
 
         self._get_stackframe(rec, trec)
-- 
2.43.0


From 85698442ca561fb114ac977daa5bcf4938d498d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 091/120] fix: the sampler records samples while its channel is
 inactive

---
 src/services/sampler/Sampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index 976bcae..049ebc3 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -67,7 +67,7 @@ void on_prof(int sig, siginfo_t* info, void* context)
 
     Caliper c = Caliper::sigsafe_instance();
 
-    if (!c)
+    if (!c || !channel.is_active())
         return;
 
     Entry    data[2];
-- 
2.43.0


From 0bce6610f28a0a79e8b7b843c24fb03a5bc6ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:01 +0000
Subject: [PATCH 092/120] fix: Kokkos hooks access deleted channels, ignore
 channel states, and begin regions twice

---
 src/services/kokkos/KokkosLookup.cpp | 11 ++++++++++-
 src/services/kokkos/KokkosTime.cpp   | 10 ++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/services/kokkos/KokkosLookup.cpp b/src/services/kokkos/KokkosLookup.cpp
index 4c358e2..6f3de32 100644
--- a/src/services/kokkos/KokkosLookup.cpp
+++ b/src/services/kokkos/KokkosLookup.cpp
@@ -255,6 +255,9 @@ class KokkosLookup
 
     void kokkos_allocate(const cali::kokkos::SpaceHandle handle, const char* name, const void* const ptr, size_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         Variant v_space(handle.name);
 
@@ -264,12 +267,18 @@ class KokkosLookup
 
     void kokkos_deallocate(const void* const ptr)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         c.memory_region_end(m_channel.body(), ptr);
     }
 
     void kokkos_deepcopy(const void* dst, const void* src, uint64_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
 
         Entry data[] = { { m_dst_attr, Variant(CALI_TYPE_ADDR, &dst, sizeof(void*)) },
@@ -361,7 +370,7 @@ public:
 #endif
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_log(c, chn);
-            delete instance;
+            // don't delete the instance: the Kokkos callbacks can't be disconnected
         });
 
         Log(1).stream() << chn->name() << ": Registered kokkoslookup service" << std::endl;
diff --git a/src/services/kokkos/KokkosTime.cpp b/src/services/kokkos/KokkosTime.cpp
index a381388..1bd9c75 100644
--- a/src/services/kokkos/KokkosTime.cpp
+++ b/src/services/kokkos/KokkosTime.cpp
@@ -75,9 +75,12 @@ public:
 
     static void kokkostime_register(Caliper* c, Channel* chn)
     {
+        // The Kokkos callbacks can't be disconnected, and their regions are visible in
+        // all channels. Therefore, connect a single instance which we never delete.
+        static KokkosTime* instance = nullptr;
 
-        auto* instance = new KokkosTime(c, chn);
-        chn->events().post_init_evt.connect([instance](Caliper* c, Channel* chn) {
+        if (!instance) {
+            instance = new KokkosTime(c, chn);
             kokkosp_callbacks.kokkosp_begin_parallel_for_callback.connect(
                 [&](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_for"); }
             );
@@ -103,8 +106,7 @@ public:
                 instance->pushRegion(regionName, "kokkos.user_region");
             });
             kokkosp_callbacks.kokkosp_pop_region_callback.connect([&]() { instance->popRegion(); });
-        });
-        chn->events().finish_evt.connect([instance](Caliper*, Channel*) { delete instance; });
+        }
 
         Log(1).stream() << chn->name() << ": Registered kokkostime service" << std::endl;
     }
-- 
2.43.0


From 14fc25c1ddffdb0a1e0004fe604cd488e534924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 093/120] fix: deleted channels are still reported as active

---
 src/caliper/Caliper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33330f4..8a3b30a 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1442,6 +1442,7 @@ void Caliper::delete_channel(Channel& channel)
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
+    channel.mP->is_active = false;
     it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
     if (it != sG->all_channels.end())
         sG->all_channels.erase(it);
-- 
2.43.0


From 4f62b61418b5c7d6ecef093805e6159ad457885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:05 +0000
Subject: [PATCH 094/120] fix: allocations on threads without a trace buffer
 are not dropped

---
 src/services/sysalloc/SysAllocService.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/services/sysalloc/SysAllocService.cpp b/src/services/sysalloc/SysAllocService.cpp
index 306f06e..a5dcef0 100644
--- a/src/services/sysalloc/SysAllocService.cpp
+++ b/src/services/sysalloc/SysAllocService.cpp
@@ -47,6 +47,15 @@ struct gotcha_binding_t alloc_bindings[] = { { malloc_str, (void*) cali_malloc_w
 
 ChannelList* sysalloc_channels = nullptr;
 
+///   Returns an empty object when the call comes from within Caliper, to
+/// prevent reentry. Otherwise this is not a signal handler: services may
+/// allocate, e.g. a thread's first trace buffer.
+Caliper get_instance()
+{
+    Caliper c = Caliper::sigsafe_instance();
+    return c ? Caliper::instance() : c;
+}
+
 void* cali_malloc_wrapper(size_t size)
 {
     decltype(&std::malloc) orig_malloc =
@@ -57,7 +66,7 @@ void* cali_malloc_wrapper(size_t size)
     int saved_errno = errno;
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
-        Caliper c = Caliper::sigsafe_instance(); // prevent reentry
+        Caliper c = get_instance();
 
         if (c && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "malloc", 1, 1, &size);
@@ -78,7 +87,7 @@ void* cali_calloc_wrapper(size_t num, size_t size)
     int saved_errno = errno;
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
-        Caliper c = Caliper::sigsafe_instance(); // prevent reentry
+        Caliper c = get_instance();
 
         if (c && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "calloc", size, 1, &num);
@@ -95,7 +104,7 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
         reinterpret_cast<decltype(&std::realloc)>(gotcha_get_wrappee(orig_realloc_handle));
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
-        Caliper c = Caliper::sigsafe_instance();
+        Caliper c = get_instance();
 
         if (c && p->channel.is_active())
             c.memory_region_end(p->channel.body(), ptr);
@@ -106,7 +115,7 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
     int saved_errno = errno;
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
-        Caliper c = Caliper::sigsafe_instance();
+        Caliper c = get_instance();
 
         if (c && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "realloc", 1, 1, &size);
@@ -122,7 +131,7 @@ void cali_free_wrapper(void* ptr)
     decltype(&std::free) orig_free = reinterpret_cast<decltype(&std::free)>(gotcha_get_wrappee(orig_free_handle));
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
-        Caliper c = Caliper::sigsafe_instance();
+        Caliper c = get_instance();
 
         if (c && p->channel.is_active())
             c.memory_region_end(p->channel.body(), ptr);
-- 
2.43.0


From 7e9c38e7eb6e43241fc6d1920f3bf264718e9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 095/120] fix: failed allocations are not recorded by sysalloc

---
 src/services/sysalloc/SysAllocService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/sysalloc/SysAllocService.cpp b/src/services/sysalloc/SysAllocService.cpp
index a5dcef0..e6c62fe 100644
--- a/src/services/sysalloc/SysAllocService.cpp
+++ b/src/services/sysalloc/SysAllocService.cpp
@@ -68,7 +68,7 @@ void* cali_malloc_wrapper(size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = get_instance();
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "malloc", 1, 1, &size);
     }
 
@@ -89,7 +89,7 @@ void* cali_calloc_wrapper(size_t num, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = get_instance();
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "calloc", size, 1, &num);
     }
 
@@ -117,7 +117,7 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = get_instance();
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "realloc", 1, 1, &size);
     }
 
-- 
2.43.0


From 7f5144b7312e8b9c42da8b32f39666455af8f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 096/120] fix: allocstats counts a replaced allocation as
 active forever

---
 src/services/alloc/AllocStatsService.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..b53aebd 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -72,6 +72,9 @@ class AllocStatsService
         if (!path)
             return;
 
+        // A new allocation replaces a tracked one with the same address
+        release(addr);
+
         {
             AllocInfo info { size, path };
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
@@ -106,16 +109,21 @@ class AllocStatsService
 
     void untrack_mem_cb(Caliper* c, const void* ptr)
     {
-        uint64_t addr = reinterpret_cast<uint64_t>(ptr);
+        if (!release(reinterpret_cast<uint64_t>(ptr))) {
+            std::lock_guard<std::mutex> g(g_alloc_map_lock);
+            ++g_failed_untrack;
+        }
+    }
+
+    bool release(uint64_t addr)
+    {
         AllocInfo alloc_info { 0, nullptr };
 
         {
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
             auto it = g_alloc_map.find(addr);
-            if (it == g_alloc_map.end()) {
-                ++g_failed_untrack;
-                return;
-            }
+            if (it == g_alloc_map.end())
+                return false;
             alloc_info = it->second;
             g_alloc_map.erase(it);
             --g_current_tracked;
@@ -130,6 +138,8 @@ class AllocStatsService
             std::lock_guard<std::mutex> g(g_hwm_lock);
             g_active_mem -= alloc_info.bytes;
         }
+
+        return true;
     }
 
     void snapshot_cb(Caliper* c, SnapshotView, SnapshotBuilder& rec) {
-- 
2.43.0


From 3b2098e13a73b58b53a1cb5857b832940c512b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 097/120] fix: clear a channel's allocstats tallies

---
 src/services/alloc/AllocStatsService.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index b53aebd..22d0b49 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -171,6 +171,9 @@ class AllocStatsService
         std::lock_guard<std::mutex> g(g_region_map_lock);
 
         for (const auto& it : g_region_map) {
+            if (it.second.count == 0)
+                continue;
+
             std::vector<Entry> rec;
             rec.reserve(5);
             rec.emplace_back(it.second.path);
@@ -186,7 +189,14 @@ class AllocStatsService
 
     void clear_cb(Caliper*, Channel*) {
         std::lock_guard<std::mutex> g(g_region_map_lock);
-        g_region_map.clear();
+
+        // Blocks that are still allocated keep counting towards their region
+        for (auto& it : g_region_map) {
+            it.second.total_bytes = 0;
+            it.second.max_bytes   = 0;
+            it.second.hwm         = it.second.current_bytes;
+            it.second.count       = 0;
+        }
     }
 
     void finish_cb(Caliper* c, Channel* chn)
@@ -238,6 +248,7 @@ public:
         chn->events().flush_evt.connect([instance](Caliper* c, SnapshotView ctx, SnapshotFlushFn flush_fn){
             instance->flush_cb(c, ctx, flush_fn);
         });
+        chn->events().clear_evt.connect([instance](Caliper* c, Channel* chn) { instance->clear_cb(c, chn); });
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_cb(c, chn);
             delete instance;
-- 
2.43.0


From 9747ceab489063766dd5462e874cf6aaf2785302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 098/120] fix: region_monitor reads an empty stack when a
 region was opened before its channel

---
 src/services/monitor/RegionMonitor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5bdb75d..acf9b11 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -77,6 +77,9 @@ class RegionMonitor
         if (!node)
             return;
 
+        if (m_time_stack.empty()) // region was opened before the channel was active
+            return;
+
         auto now  = std::chrono::high_resolution_clock::now();
         auto prev = m_time_stack.back();
         m_time_stack.pop_back();
-- 
2.43.0


From 603f5679875b9f0e65e7e5ef8ba6c69e4b0fdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 099/120] fix: callbacks of deleted io channels stay registered

---
 src/services/io/CurIOus/src/dynamic_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/io/CurIOus/src/dynamic_array.c b/src/services/io/CurIOus/src/dynamic_array.c
index 23b0860..d85531c 100644
--- a/src/services/io/CurIOus/src/dynamic_array.c
+++ b/src/services/io/CurIOus/src/dynamic_array.c
@@ -54,7 +54,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
     //TODO: make these actual errors
     if (index < 0 || index > self->last_el) {
         return -1;
-    } else if (num_els < 0 || num_els > self->last_el - index) {
+    } else if (num_els < 0 || num_els > self->last_el + 1 - index) {
         return -2;
     } else if (0 == num_els) {
         //not an error, we just don't need to remove anything
@@ -69,7 +69,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
         }
     }
 
-    int tail_count = self->last_el - num_els - index;
+    int tail_count = self->last_el + 1 - num_els - index;
 
     // Move the remaining entries at the end of the array (if any)
     // forward to fill the vacated space
-- 
2.43.0


From 2ebf86be848bee906cc84471240947496b5beac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 100/120] fix: io channels created after all others were
 deleted record nothing

---
 src/services/io/CurIOus/src/curious.c  | 2 ++
 src/services/io/CurIOus/src/wrappers.c | 5 +++++
 src/services/io/CurIOus/src/wrappers.h | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/services/io/CurIOus/src/curious.c b/src/services/io/CurIOus/src/curious.c
index e59080f..ba9153f 100644
--- a/src/services/io/CurIOus/src/curious.c
+++ b/src/services/io/CurIOus/src/curious.c
@@ -26,6 +26,8 @@ int curious_init(curious_apis_t apis)
     if (missing_apis) {
         curious_apply_wrappers(missing_apis);
         wrapped_apis |= missing_apis;
+    } else {
+        curious_enable_wrappers();
     }
 
     return ++next_inst;
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 4da9c47..2e31221 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -187,6 +187,11 @@ void curious_apply_wrappers(curious_apis_t apis)
         gotcha_wrap(&bindings[CURIOUS_CSTDIO_START], CURIOUS_FUNCTION_COUNT - CURIOUS_CSTDIO_START, "curious");
     }
 
+    curious_enable_wrappers();
+}
+
+void curious_enable_wrappers(void)
+{
     wrappers_enabled = 1;
 }
 
diff --git a/src/services/io/CurIOus/src/wrappers.h b/src/services/io/CurIOus/src/wrappers.h
index b568893..5c3ad27 100644
--- a/src/services/io/CurIOus/src/wrappers.h
+++ b/src/services/io/CurIOus/src/wrappers.h
@@ -23,6 +23,7 @@ typedef struct io_function_data {
 } io_function_data_t;
 
 void curious_apply_wrappers(curious_apis_t apis);
+void curious_enable_wrappers(void);
 void curious_disable_wrappers(void);
 
 // See io_arhs.h under include/curious for structs to serve as io_args
-- 
2.43.0


From fbc946e1f7e0a128bade8f081fcdc9240cacc239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 101/120] fix: failed reads and writes count as 2^64-1 bytes

---
 src/services/io/CurIOus/src/wrappers.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 2e31221..e83c270 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -248,13 +248,16 @@ ssize_t wrapped_read(int fd, void* buf, size_t count)
         curious_call_callbacks(CURIOUS_READ_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_read = orig_read(fd, buf, count);
+        ssize_t return_val = orig_read(fd, buf, count);
         io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_read = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_READ_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_read, read);
+        WRAPPER_RETURN(return_val, read);
 
         // and just call the original function every other time
     } else {
@@ -292,13 +295,16 @@ ssize_t wrapped_write(int fd, const void* buf, size_t count)
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_written = orig_write(fd, buf, count);
-        io_args.call_count    = 1;
+        ssize_t return_val = orig_write(fd, buf, count);
+        io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_written = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_written, write);
+        WRAPPER_RETURN(return_val, write);
 
         // and just call the original function every other time
     } else {
-- 
2.43.0


From a13e729845499f0d40f9fd722256c2bf08e6ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 102/120] fix: io wrappers change errno

---
 src/services/io/CurIOus/src/callbacks.c     | 6 ++++++
 src/services/io/CurIOus/src/file_registry.c | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/callbacks.c b/src/services/io/CurIOus/src/callbacks.c
index 12ec235..527602c 100644
--- a/src/services/io/CurIOus/src/callbacks.c
+++ b/src/services/io/CurIOus/src/callbacks.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 
 #include "wrappers.h"
@@ -79,6 +80,9 @@ void curious_call_callbacks(curious_callback_type_t type, void* io_args)
     //lookup the list of registred functions of the specified type...
     curious_dynamic_array_t callbacks = callback_registry[type];
 
+    //the wrapped function's errno must reach the program
+    int saved_errno = errno;
+
     //...and run every one
     for (int i = 0; i <= callbacks.last_el; ++i) {
         curious_callback_data_t* data = (curious_callback_data_t*) (get_from_curious_dynamic_array(&callbacks, i));
@@ -87,4 +91,6 @@ void curious_call_callbacks(curious_callback_type_t type, void* io_args)
         //io_args was just passed to the IO function in the main code
         data->callback(type, data->usr_args, io_args);
     }
+
+    errno = saved_errno;
 }
diff --git a/src/services/io/CurIOus/src/file_registry.c b/src/services/io/CurIOus/src/file_registry.c
index 89ac5ff..85a3e65 100644
--- a/src/services/io/CurIOus/src/file_registry.c
+++ b/src/services/io/CurIOus/src/file_registry.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -54,6 +55,9 @@ int curious_register_file_by_fd(int fd)
 #define BUF_SIZE 256
     char buf[BUF_SIZE];
 
+    // the registration must not change the errno that the program sees
+    int saved_errno = errno;
+
     // append fd to fd_path
     int trunc_ret = snprintf(fd_path + len, DIGITS, "%d", fd);
     if (trunc_ret < 0 || trunc_ret >= DIGITS)
@@ -73,7 +77,10 @@ int curious_register_file_by_fd(int fd)
     char* filesystem;
     char* mount_point;
     curious_get_filesystem(buf, &filesystem, &mount_point);
-    return curious_register_file(buf, fd, filesystem, mount_point);
+    int ret = curious_register_file(buf, fd, filesystem, mount_point);
+
+    errno = saved_errno;
+    return ret;
 }
 
 int curious_register_file(const char* path, int fd, char* filesystem, char* mount_point)
-- 
2.43.0


From 625f3f9b1afa3199512b177a0659bed6af3a94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 103/120] fix: io wrappers use the path of a closed file

---
 src/services/io/CurIOus/src/file_registry.c | 6 ++++--
 src/services/io/CurIOus/src/wrappers.c      | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/services/io/CurIOus/src/file_registry.c b/src/services/io/CurIOus/src/file_registry.c
index 85a3e65..ab096c6 100644
--- a/src/services/io/CurIOus/src/file_registry.c
+++ b/src/services/io/CurIOus/src/file_registry.c
@@ -116,6 +116,7 @@ int curious_register_file(const char* path, int fd, char* filesystem, char* moun
     } else {
         // ...all we need to do is intialise the feilds,
         // since we already have space for a record where we need it
+        free(cur_record->path);
         cur_record->path        = strdup(path);
         cur_record->filesystem  = filesystem;
         cur_record->mount_point = mount_point;
@@ -137,8 +138,9 @@ int curious_deregister_file(int fd)
     //printf("deregistering file %s on %s filesystem as %d\n", cur_record->path, cur_record->filesystem, fd);
 
     free(cur_record->path);
-    cur_record->path       = NULL;
-    cur_record->filesystem = NULL;
+    cur_record->path        = NULL;
+    cur_record->filesystem  = NULL;
+    cur_record->mount_point = NULL;
 
     return 0;
 }
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index e83c270..4cc5a07 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -379,6 +379,8 @@ int wrapped_close(int fd)
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
+        curious_deregister_file(fd);
+
         WRAPPER_RETURN(return_val, close);
 
         // and just call the original function every other time
@@ -842,8 +844,6 @@ int wrapped_fclose(FILE* fp)
             mount_point = record->mount_point;
         }
 
-        curious_deregister_file(fileno(fp));
-
         curious_metadata_record_t io_args = {
             .call_count  = 0,
             .filesystem  = filesystem,
@@ -853,12 +853,15 @@ int wrapped_fclose(FILE* fp)
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
         // Call the original, saving the result...
+        int fd             = fileno(fp);
         int return_val     = orig_fclose(fp);
         io_args.call_count = 1;
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
+        curious_deregister_file(fd);
+
         WRAPPER_RETURN(return_val, fclose);
 
         // and just call the original function every other time
-- 
2.43.0


From 8d0ce7945c7d13ef3e3660fe06cd61ac062567b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 104/120] fix: io wrappers interfere with the program's
 strtok()

---
 src/services/io/CurIOus/src/mount_tree.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/services/io/CurIOus/src/mount_tree.c b/src/services/io/CurIOus/src/mount_tree.c
index 7c1d33f..8fdb487 100644
--- a/src/services/io/CurIOus/src/mount_tree.c
+++ b/src/services/io/CurIOus/src/mount_tree.c
@@ -45,13 +45,14 @@ void curious_init_mount_tree(void)
     while (0 < (bytes_read = getline(&line, &size, mount_file))) {
         // Each line of /proc/mounts is a list of space-seperated values
         // We don't care about the first value, so just skip it
-        strtok(line, VAL_SEP);
+        char* save = NULL;
+        strtok_r(line, VAL_SEP, &save);
 
         // The second element is the full path to the mount
-        char* full_path = strtok(NULL, VAL_SEP);
+        char* full_path = strtok_r(NULL, VAL_SEP, &save);
 
         // The third element is the type of filesystem the mount uses
-        char* filesystem = strtok(NULL, VAL_SEP);
+        char* filesystem = strtok_r(NULL, VAL_SEP, &save);
 
         add_mount(full_path, filesystem);
     }
@@ -91,9 +92,10 @@ mount_tree_t* get_mount(char* full_path, char** name)
 
     mount_tree_t* cur_mount = &root;
     mount_tree_t* next_mount;
+    char*         save = NULL; // strtok() would interfere with the program's use of it
 #define DIR_SEP "/"
     // Look at every path elemet (i.e. each level of directories) in the full path...
-    for (char* path_el = strtok(full_path, DIR_SEP); NULL != path_el; path_el = strtok(NULL, DIR_SEP)) {
+    for (char* path_el = strtok_r(full_path, DIR_SEP, &save); NULL != path_el; path_el = strtok_r(NULL, DIR_SEP, &save)) {
         // The name should always be the last path element we've looked at
         if (NULL != name) {
             *name = path_el;
-- 
2.43.0


From 2409e084e07d5845257771a98826126c4fb29053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 105/120] fix: io service attributes files to the wrong mount
 point

---
 src/services/io/CurIOus/src/mount_tree.c | 90 +++++++++++-------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/src/services/io/CurIOus/src/mount_tree.c b/src/services/io/CurIOus/src/mount_tree.c
index 8fdb487..24d74df 100644
--- a/src/services/io/CurIOus/src/mount_tree.c
+++ b/src/services/io/CurIOus/src/mount_tree.c
@@ -25,7 +25,7 @@ typedef struct mount_tree {
  **********************/
 static void          create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* filesystem);
 static void          destroy_mount_tree(mount_tree_t* self);
-static mount_tree_t* get_mount(char* full_path, char** name);
+static mount_tree_t* get_mount(char* full_path);
 static void          add_mount(char* full_path, char* filesystem);
 static int           compare_mount_tree_by_name(char* name, mount_tree_t* tree);
 
@@ -72,7 +72,7 @@ void create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* fi
 
     self->name       = strdup(name);
     self->full_path  = strdup(full_path);
-    self->filesystem = strdup(filesystem);
+    self->filesystem = filesystem ? strdup(filesystem) : NULL;
     create_curious_dynamic_array(&self->children, 0, sizeof(mount_tree_t));
 }
 
@@ -84,71 +84,61 @@ void destroy_mount_tree(mount_tree_t* self)
     destroy_curious_dynamic_array(&self->children, (free_f) destroy_mount_tree);
 }
 
-mount_tree_t* get_mount(char* full_path, char** name)
+mount_tree_t* get_mount(char* full_path)
 {
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        return &root;
-    }
-
+    // The tree has a node for every element of a mount point's path. Only
+    // those that are mount points themselves have a filesystem.
+    mount_tree_t* cur_node  = &root;
     mount_tree_t* cur_mount = &root;
-    mount_tree_t* next_mount;
-    char*         save = NULL; // strtok() would interfere with the program's use of it
+    char*         save      = NULL; // strtok() would interfere with the program's use of it
 #define DIR_SEP "/"
-    // Look at every path elemet (i.e. each level of directories) in the full path...
+    // Look at every path elemet (i.e. each level of directories) in the full path
+    // until there is no node for it...
     for (char* path_el = strtok_r(full_path, DIR_SEP, &save); NULL != path_el; path_el = strtok_r(NULL, DIR_SEP, &save)) {
-        // The name should always be the last path element we've looked at
-        if (NULL != name) {
-            *name = path_el;
+        cur_node =
+            find_in_curious_dynamic_array(&cur_node->children, path_el, (compare_f) compare_mount_tree_by_name);
+
+        if (NULL == cur_node) {
+            break;
         }
 
-        // ...see if there's a mount one level down which matches the current path element
-        next_mount =
-            find_in_curious_dynamic_array(&cur_mount->children, path_el, (compare_f) compare_mount_tree_by_name);
-        // ...if we couldn't find a match, we've found the deepest relevant node,
-        // meaning that we're done
-        if (NULL == next_mount) {
-            return cur_mount;
-
-            // ...otherwise, we want to look at the childreen of the matching mount
-        } else {
-            cur_mount = next_mount;
+        // ...and remember the deepest mount
+        if (NULL != cur_node->filesystem) {
+            cur_mount = cur_node;
         }
     }
 
-    return &root;
+    return cur_mount;
 }
 
 void add_mount(char* full_path, char* filesystem)
 {
-    // If the path in question is to the root, no need to go looking;
-    // we should just set its filesystem now
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        // make sure we don't overwrite that first setup
-        // (the actual root entry is proper the first)
-        if (0 != strcmp(root.filesystem, "")) {
-            free(root.filesystem);
-            root.filesystem = strdup(filesystem);
+    mount_tree_t* node      = &root;
+    char*         path_copy = strdup(full_path);
+    char*         save      = NULL;
+
+    // Find or make the node for the mount point
+    for (char* path_el = strtok_r(path_copy, DIR_SEP, &save); NULL != path_el; path_el = strtok_r(NULL, DIR_SEP, &save)) {
+        mount_tree_t* next_node =
+            find_in_curious_dynamic_array(&node->children, path_el, (compare_f) compare_mount_tree_by_name);
+
+        if (NULL == next_node) {
+            mount_tree_t new_node;
+            create_mount_tree(&new_node, path_el, full_path, NULL);
+            append_to_curious_dynamic_array(&node->children, &new_node);
+            next_node = get_from_curious_dynamic_array(&node->children, node->children.last_el);
         }
 
-        return;
+        node = next_node;
     }
 
-    char*         name         = NULL;
-    char*         path_copy    = strdup(full_path);
-    mount_tree_t* parent_mount = get_mount(path_copy, &name);
-
-    if (NULL == parent_mount) {
-        printf("No relevant mount found for %s\n", full_path);
-    } else if (0 != strcmp(name, parent_mount->name)) {
-        // Make a new child mount of the parent we found
-        mount_tree_t mount;
-        create_mount_tree(&mount, name, full_path, filesystem);
-        append_to_curious_dynamic_array(&parent_mount->children, &mount);
-    }
-
-    // wait until after the mount tree nodehas been created to free this copy,
-    // since name is part of that buffer
     free(path_copy);
+
+    // The last mount on a mount point hides the earlier ones
+    free(node->full_path);
+    free(node->filesystem);
+    node->full_path  = strdup(full_path);
+    node->filesystem = strdup(filesystem);
 }
 
 void curious_get_filesystem(const char* path, char** filesystem, char** mount_point)
@@ -176,7 +166,7 @@ void curious_get_filesystem(const char* path, char** filesystem, char** mount_po
 
     // Just find the deepest mount in the given path
     // and return which filesystem it uses
-    mount_tree_t* mount = get_mount(path_copy, NULL);
+    mount_tree_t* mount = get_mount(path_copy);
 
     // strdup and realpath both allocate a string, so we need to free it
     free(path_copy);
-- 
2.43.0


From f5e6bdcf6bdcbd495085c5ad47b5b9173d0a471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 106/120] fix: io service values end in a NUL character

---
 src/services/io/IOService.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index f7805cf..a541fe8 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -44,9 +44,9 @@ Attribute io_bytes_written_attr;
 
 // A lookup table for the Variant corresponding to each callback category
 Variant categories[] = {
-    Variant(CALI_TYPE_STRING, "read", 5),
-    Variant(CALI_TYPE_STRING, "write", 6),
-    Variant(CALI_TYPE_STRING, "metadata", 9),
+    Variant(CALI_TYPE_STRING, "read", 4),
+    Variant(CALI_TYPE_STRING, "write", 5),
+    Variant(CALI_TYPE_STRING, "metadata", 8),
 };
 
 // We need to record different info for different I/O regions/records:
@@ -81,9 +81,9 @@ Variant make_variant(char* str)
     Variant var;
 
     if (nullptr == str) {
-        var = Variant(CALI_TYPE_STRING, "unknown", 8);
+        var = Variant(CALI_TYPE_STRING, "unknown", 7);
     } else {
-        var = Variant(CALI_TYPE_STRING, str, strlen(str) + 1);
+        var = Variant(CALI_TYPE_STRING, str, strlen(str));
     }
 
     return var;
-- 
2.43.0


From 7ebb7c164e984d351439e38bbcd5a97d356c7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 107/120] fix: looking up a relative path in the io service
 changes errno

---
 src/services/io/CurIOus/src/mount_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/mount_tree.c b/src/services/io/CurIOus/src/mount_tree.c
index 24d74df..8b73f51 100644
--- a/src/services/io/CurIOus/src/mount_tree.c
+++ b/src/services/io/CurIOus/src/mount_tree.c
@@ -154,7 +154,9 @@ void curious_get_filesystem(const char* path, char** filesystem, char** mount_po
         // otherwise, we need to atually find the absolute path
         // and if we encounter an error, just set
     } else {
-        path_copy = realpath(path, NULL);
+        int saved_errno = errno; // must not change for the program
+        path_copy       = realpath(path, NULL);
+        errno           = saved_errno;
 
         // if we can't resolve the absolute path, we can't find the proper mount
         if (NULL == path_copy) {
-- 
2.43.0


From 1319e4044bad0281624f5e9746d7a0ad7f5d18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:48 +0000
Subject: [PATCH 108/120] fix: I/O calls on threads without a trace buffer are
 dropped

---
 src/services/io/IOService.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index a541fe8..226a948 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -94,11 +94,15 @@ void handle_io(curious_callback_type_t type, void* usr_data, Record* record)
 {
     ++num_io_callbacks;
 
-    // get a Caliper instance
+    // get a Caliper instance: an empty one when the call comes from within
+    // Caliper, otherwise a regular one as this is not a signal handler
 
     Caliper c    = Caliper::sigsafe_instance();
     auto    data = static_cast<user_data_t*>(usr_data);
 
+    if (c)
+        c = Caliper::instance();
+
     // If we got a Caliper instance successfully...
     if (c && data->channel.is_active()) {
         // ...mark the end...
-- 
2.43.0


From c4bf7ee7f22cc0c3e278edfe334a67c6843acde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:19 +0000
Subject: [PATCH 109/120] fix: io service keeps the closed file of a failed
 freopen()

---
 src/services/io/CurIOus/src/wrappers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 4cc5a07..3ea49bd 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -810,6 +810,10 @@ FILE* wrapped_freopen(const char* path, const char* mode, FILE* stream)
         curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
+        // The stream's current file gets closed, even on failure
+        int old_fd = fileno(stream);
+        curious_deregister_file(old_fd);
+
         // Call the original, saving the result...
         FILE* file = orig_freopen(path, mode, stream);
 
-- 
2.43.0


From 8b691d3e498feb3f6a2bad3c88b525f773d196c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:40 +0000
Subject: [PATCH 110/120] fix: io wrapper crashes on freopen() without a path

---
 src/services/io/CurIOus/src/wrappers.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 3ea49bd..c10e4a0 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -807,7 +807,17 @@ FILE* wrapped_freopen(const char* path, const char* mode, FILE* stream)
             .function_id = CURIOUS_FREOPEN_ID,
         };
 
-        curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
+        // Without a path, the stream's current file is reopened in another mode
+        if (NULL != path) {
+            curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
+        } else {
+            curious_file_record_t* record = get_curious_file_record(fileno(stream));
+            if (NULL != record) {
+                io_args.filesystem  = record->filesystem;
+                io_args.mount_point = record->mount_point;
+            }
+        }
+
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
         // The stream's current file gets closed, even on failure
-- 
2.43.0


From e1d78a40fbebdb498b0763cf582781fc6159240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 111/120] fix: pycaliper: keep the strings passed to
 config_preset alive

The map of const char* made by pybind11 held pointers into casters that
are destroyed when the next entry is converted, so entries of a config_preset
dict with more than one key could overwrite each other or dangle.
---
 src/interface/python/mod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interface/python/mod.cpp b/src/interface/python/mod.cpp
index c93bf77..124233d 100644
--- a/src/interface/python/mod.cpp
+++ b/src/interface/python/mod.cpp
@@ -14,9 +14,9 @@ PYBIND11_MODULE(__pycaliper_impl, m)
 
     m.def(
         "config_preset",
-        [](std::map<const char*, const char*>& preset_map) {
-            for (auto kv : preset_map) {
-                cali_config_preset(kv.first, kv.second);
+        [](const std::map<std::string, std::string>& preset_map) {
+            for (const auto& kv : preset_map) {
+                cali_config_preset(kv.first.c_str(), kv.second.c_str());
             }
         },
         "Pre-set a config entry in the default config."
-- 
2.43.0


From ee359184b96d6fc24b22b64f493a3e9824c17e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 112/120] fix: pycaliper: make add_config_spec and
 add_option_spec work with a dict

The functions called themselves with the str() of the dict, which cannot be
converted back into a dict and raised a ValueError.
---
 src/interface/python/config_manager.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/interface/python/config_manager.cpp b/src/interface/python/config_manager.cpp
index 2966148..f33dfc9 100644
--- a/src/interface/python/config_manager.cpp
+++ b/src/interface/python/config_manager.cpp
@@ -1,6 +1,16 @@
 #include "config_manager.h"
 #include <stdexcept>
 
+namespace
+{
+
+std::string to_json(py::dict dict)
+{
+    return py::module_::import("json").attr("dumps")(dict, py::arg("ensure_ascii") = false).cast<std::string>();
+}
+
+} // namespace
+
 namespace cali
 {
 
@@ -12,12 +22,12 @@ PythonConfigManager::PythonConfigManager(const char* config_str) : cali::ConfigM
 
 void PythonConfigManager::add_config_spec(py::dict json)
 {
-    add_config_spec(py::str(json));
+    cali::ConfigManager::add_config_spec(to_json(json).c_str());
 }
 
 void PythonConfigManager::add_option_spec(py::dict json)
 {
-    add_option_spec(py::str(json));
+    cali::ConfigManager::add_option_spec(to_json(json).c_str());
 }
 
 void PythonConfigManager::py_add(const char* config_string)
-- 
2.43.0


From 4a93c375d41f95221d5b9e27f402afb3476df986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 113/120] fix: pycaliper: end the region of an annotated
 function that raises

---
 src/interface/python/pycaliper/high_level.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interface/python/pycaliper/high_level.py b/src/interface/python/pycaliper/high_level.py
index 0e5d35c..b90a192 100644
--- a/src/interface/python/pycaliper/high_level.py
+++ b/src/interface/python/pycaliper/high_level.py
@@ -44,9 +44,10 @@ def annotate_function(name=None, annotation_type="region"):
         @functools.wraps(func)
         def wrapper(*args, **kwargs):
             __annotation_decorator_begin_map[annotation_type](real_name)
-            result = func(*args, **kwargs)
-            __annotation_decorator_end_map[annotation_type](real_name)
-            return result
+            try:
+                return func(*args, **kwargs)
+            finally:
+                __annotation_decorator_end_map[annotation_type](real_name)
 
         return wrapper
 
-- 
2.43.0


From 4fafca0ca4d7133ded9ab5082be6a2bcaa5f6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 114/120] fix: pycaliper: bind the float versions of
 Annotation.begin and Annotation.set

They were implemented but not registered, so passing a float raised a TypeError.
---
 src/interface/python/annotation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/interface/python/annotation.cpp b/src/interface/python/annotation.cpp
index e507327..c139cbb 100644
--- a/src/interface/python/annotation.cpp
+++ b/src/interface/python/annotation.cpp
@@ -92,6 +92,12 @@ void create_caliper_annotation_mod(py::module_& caliper_annotation_mod)
         "Begin the region for the associated context attribute "
         "with an integer value"
     );
+    annotation_type.def(
+        "begin",
+        static_cast<PythonAnnotation& (PythonAnnotation::*) (double)>(&PythonAnnotation::begin),
+        "Begin the region for the associated context attribute "
+        "with a float value"
+    );
     annotation_type.def(
         "begin",
         static_cast<PythonAnnotation& (PythonAnnotation::*) (const char*)>(&PythonAnnotation::begin),
@@ -113,6 +119,13 @@ void create_caliper_annotation_mod(py::module_& caliper_annotation_mod)
         "with an integer value. The top-most prior open value "
         "for the attribute, if any, will be overwritten."
     );
+    annotation_type.def(
+        "set",
+        static_cast<PythonAnnotation& (PythonAnnotation::*) (double)>(&PythonAnnotation::set),
+        "Exports an entry for the associated context attribute "
+        "with a float value. The top-most prior open value "
+        "for the attribute, if any, will be overwritten."
+    );
     annotation_type.def(
         "set",
         static_cast<PythonAnnotation& (PythonAnnotation::*) (const char*)>(&PythonAnnotation::set),
-- 
2.43.0


From 9f6a287dd36a6ebca1c8a01c3650df046b6beeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 115/120] fix: initialize the times of a BufferedRegionProfile

total_region_time() and total_profiling_time() returned uninitialized values
before the first fetch.
---
 src/interface/c_fortran/BufferedRegionProfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/c_fortran/BufferedRegionProfile.cpp b/src/interface/c_fortran/BufferedRegionProfile.cpp
index 4a31e38..ca2facc 100644
--- a/src/interface/c_fortran/BufferedRegionProfile.cpp
+++ b/src/interface/c_fortran/BufferedRegionProfile.cpp
@@ -7,8 +7,8 @@ using namespace cali;
 
 struct BufferedRegionProfile::BufferedRegionProfileImpl {
     std::map<std::string, double> reg_times;
-    double                        tot_reg_time;
-    double                        tot_time;
+    double                        tot_reg_time { 0.0 };
+    double                        tot_time { 0.0 };
 };
 
 BufferedRegionProfile::BufferedRegionProfile() : RegionProfile(), mP { new BufferedRegionProfileImpl }
-- 
2.43.0


From e3f8db4396b43c627cd841b213fb00c501fcb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:54 +0000
Subject: [PATCH 116/120] fix: ompt: ignore end callbacks of regions whose
 begin was not recorded

---
 src/services/ompt/OmptService.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/services/ompt/OmptService.cpp b/src/services/ompt/OmptService.cpp
index 49178a1..6ad1584 100644
--- a/src/services/ompt/OmptService.cpp
+++ b/src/services/ompt/OmptService.cpp
@@ -65,6 +65,14 @@ Attribute num_threads_attr;
 
 unsigned int num_skipped { 0 };
 
+// End the region if there is one: the matching begin callback may not have
+// been recorded, e.g. because it was invoked before the service was registered.
+void end_if_open(Caliper& c, const Attribute& attr)
+{
+    if (!c.get(attr).empty())
+        c.end(attr);
+}
+
 //
 // --- The OMPT callbacks
 //
@@ -134,7 +142,7 @@ void cb_parallel_end(ompt_data_t*, ompt_data_t*, int, const void*)
         return;
     }
 
-    c.end(region_attr);
+    end_if_open(c, region_attr);
 }
 
 void cb_implicit_task(
@@ -161,8 +169,8 @@ void cb_implicit_task(
         c.begin(num_threads_attr, cali_make_variant_from_int(static_cast<int>(par)));
         c.begin(thread_id_attr, cali_make_variant_from_int(static_cast<int>(index)));
     } else {
-        c.end(thread_id_attr);
-        c.end(num_threads_attr);
+        end_if_open(c, thread_id_attr);
+        end_if_open(c, num_threads_attr);
     }
 }
 
@@ -187,7 +195,7 @@ void cb_work(int wstype, ompt_scope_endpoint_t endpoint, ompt_data_t*, ompt_data
     if (endpoint == ompt_scope_begin) {
         c.begin(work_attr, Variant(name));
     } else if (endpoint == ompt_scope_end) {
-        c.end(work_attr);
+        end_if_open(c, work_attr);
     }
 }
 
@@ -214,7 +222,7 @@ void cb_sync_region(int kind, ompt_scope_endpoint_t endpoint, ompt_data_t*, ompt
     if (endpoint == ompt_scope_begin)
         c.begin(sync_attr, Variant(name));
     else if (endpoint == ompt_scope_end)
-        c.end(sync_attr);
+        end_if_open(c, sync_attr);
 }
 
 //
-- 
2.43.0


From fbaff718296ee560ac29ee402498757fe1bcdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:11 +0000
Subject: [PATCH 117/120] fix: ignore annotations with an invalid attribute

---
 src/caliper/Caliper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 8a3b30a..4854a0d 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -975,7 +975,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1107,7 +1107,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1143,6 +1143,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1198,6 +1201,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
-- 
2.43.0


From 4194a557685bdc921c0658c1325f0d7258bf9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:11 +0000
Subject: [PATCH 118/120] fix: openmp-report: add the missing SELECT in the
 cross-process query

---
 src/caliper/controllers/OpenMPReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/OpenMPReportController.cpp b/src/caliper/controllers/OpenMPReportController.cpp
index abcc189..4a3af29 100644
--- a/src/caliper/controllers/OpenMPReportController.cpp
+++ b/src/caliper/controllers/OpenMPReportController.cpp
@@ -42,7 +42,7 @@ public:
 
         // Config for second aggregation step in MPI mode (cross-process aggregation)
         std::string cross_query =
-            " max(max#n.threads) as \"#Threads\""
+            " select max(max#n.threads) as \"#Threads\""
             ",avg(inclusive#t.initial) as \"Time (thread) (avg)\""
             ",sum(inclusive#sum#time.duration) as \"Time (total)\"";
 
-- 
2.43.0


From 1f2a444ad76ae83d25561567272c116dd5945e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:32 +0000
Subject: [PATCH 119/120] fix: openmp-report: report times when openmp.times is
 off

---
 src/caliper/controllers/OpenMPReportController.cpp | 2 +-
 src/caliper/controllers/controllers.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/caliper/controllers/OpenMPReportController.cpp b/src/caliper/controllers/OpenMPReportController.cpp
index 4a3af29..de71553 100644
--- a/src/caliper/controllers/OpenMPReportController.cpp
+++ b/src/caliper/controllers/OpenMPReportController.cpp
@@ -102,7 +102,7 @@ const char* controller_spec = R"json(
  "name"        : "openmp-report",
  "description" : "Record and print OpenMP performance metrics (loops, barriers, etc.)",
  "categories"  : [ "output", "region", "metric", "event" ],
- "services"    : [ "aggregate", "ompt", "event" ],
+ "services"    : [ "aggregate", "ompt", "event", "timer" ],
  "config"      : 
  { "CALI_CHANNEL_FLUSH_ON_EXIT": "false",
    "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false"
diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index 692f728..03e2cba 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -792,7 +792,7 @@ const char* builtin_openmp_option_specs = R"json(
  "description" : "Report time spent in OpenMP work and barrier regions",
  "type"        : "bool",
  "category"    : "metric",
- "services"    : [ "ompt", "timestamp" ],
+ "services"    : [ "ompt", "timer" ],
  "query"  :
  [
   { "level"   : "local",
-- 
2.43.0


From 06e14afa4d4c220507e37b45b11076321c303e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:44 +0000
Subject: [PATCH 120/120] fix: symbollookup: cache symbol nodes per path and
 channel

Symbol nodes were cached by address only, so a function was reported with
the path of its first caller wherever else it was called from. The
symbollookup.node entries in the shared context tree also leaked one
channel's lookup results and options into other channels.
---
 src/services/symbollookup/SymbolLookup.cpp | 46 ++++++++++------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/services/symbollookup/SymbolLookup.cpp b/src/services/symbollookup/SymbolLookup.cpp
index 96f4910..a661154 100644
--- a/src/services/symbollookup/SymbolLookup.cpp
+++ b/src/services/symbollookup/SymbolLookup.cpp
@@ -36,10 +36,12 @@ class SymbolLookup
         Attribute func_attr;
         Attribute loc_attr;
         Attribute mod_attr;
-        Attribute sym_node_attr;
 
-        std::unordered_map<uint64_t, Node*> lookup_cache;
-        std::mutex                          lookup_cache_mutex;
+        // The symbol node for an address depends on its parent: the same address can appear in different paths
+        std::map<std::pair<uint64_t, const Node*>, Node*> lookup_cache;
+        // Symbol nodes for (address) nodes
+        std::unordered_map<const Node*, Node*> node_cache;
+        std::mutex                             lookup_cache_mutex;
     };
 
     Node m_root_node;
@@ -86,11 +88,6 @@ class SymbolLookup
         sym_attribs->loc_attr =
             c->create_attribute("sourceloc#" + attr.name(), CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
         sym_attribs->mod_attr = c->create_attribute("module#" + attr.name(), CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
-        sym_attribs->sym_node_attr = c->create_attribute(
-            "symbollookup.node#" + attr.name(),
-            CALI_TYPE_UINT,
-            CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
-        );
 
         std::lock_guard<std::mutex> g(m_sym_attr_mutex);
 
@@ -129,11 +126,12 @@ class SymbolLookup
         ++m_num_lookups;
 
         uintptr_t addr = e.value().to_uint();
+        auto      key  = std::make_pair(static_cast<uint64_t>(addr), static_cast<const Node*>(parent));
 
         {
             std::lock_guard<std::mutex> g(sym_info.lookup_cache_mutex);
 
-            auto it = sym_info.lookup_cache.find(addr);
+            auto it = sym_info.lookup_cache.find(key);
             if (it != sym_info.lookup_cache.end()) {
                 ++m_num_cached;
                 return it->second;
@@ -176,36 +174,32 @@ class SymbolLookup
 
         {
             std::lock_guard<std::mutex> g(sym_info.lookup_cache_mutex);
-            sym_info.lookup_cache[addr] = node;
+            sym_info.lookup_cache[key] = node;
         }
 
         return node;
     }
 
-    Node* find_symbol_node_entry(Caliper* c, Node* node, Attribute sym_node_attr)
-    {
-        for (node = node->first_child(); node; node = node->next_sibling())
-            if (node->attribute() == sym_node_attr.id())
-                return c->node(node->data().to_uint());
-
-        return nullptr;
-    }
-
     Entry get_symbol_entry(Caliper* c, Entry e, SymbolAttributeInfo& sym_info)
     {
         e = e.get(sym_info.target_attr);
 
         if (e.is_reference()) {
-            Node* sym_node = find_symbol_node_entry(c, e.node(), sym_info.sym_node_attr);
+            {
+                std::lock_guard<std::mutex> g(sym_info.lookup_cache_mutex);
 
-            if (sym_node)
-                return Entry(sym_node);
+                auto it = sym_info.node_cache.find(e.node());
+                if (it != sym_info.node_cache.end())
+                    return Entry(it->second);
+            }
 
-            Entry parent = get_symbol_entry(c, Entry(e.node()->parent()), sym_info);
-            sym_node     = perform_lookup(c, e, sym_info, parent.empty() ? &m_root_node : parent.node());
+            Entry parent   = get_symbol_entry(c, Entry(e.node()->parent()), sym_info);
+            Node* sym_node = perform_lookup(c, e, sym_info, parent.empty() ? &m_root_node : parent.node());
 
-            if (sym_node)
-                c->make_tree_entry(sym_info.sym_node_attr, Variant(sym_node->id()), e.node());
+            if (sym_node) {
+                std::lock_guard<std::mutex> g(sym_info.lookup_cache_mutex);
+                sym_info.node_cache[e.node()] = sym_node;
+            }
 
             e = Entry(sym_node);
         } else if (e.is_immediate()) {
-- 
2.43.0

