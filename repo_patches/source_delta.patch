From bfd92c271b7eadbc66deb0cdb772e8a46ad2a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 1/2] fix: report unreadable security files instead of throwing
 from get_security_files

std::filesystem::is_regular_file(path) throws when the status of a path cannot
be determined (a symbolic link loop, a directory that may not be searched, a
name that is too long).  get_security_files documents that it returns false and
leaves the result empty when a required file is not there; callers use it from
C entry points and do not expect exceptions, which also left a partly filled
result behind.
---
 rmw_dds_common/src/security.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..5d65b8b 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,8 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -139,7 +141,14 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    const std::filesystem::file_status status = std::filesystem::status(full_path, ec);
+    if (!std::filesystem::status_known(status)) {
+      // It may be there, do not go on as if it was not.
+      result.clear();
+      return false;
+    }
+    if (std::filesystem::is_regular_file(status)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From 1c38c89022053caa9acb858c9ee76df9340136f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:09 +0000
Subject: [PATCH 2/2] fix: removing a node with a duplicated name no longer
 drops another node's entities

---
 rmw_dds_common/src/graph_cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rmw_dds_common/src/graph_cache.cpp b/rmw_dds_common/src/graph_cache.cpp
index 52f6b20..9d06139 100644
--- a/rmw_dds_common/src/graph_cache.cpp
+++ b/rmw_dds_common/src/graph_cache.cpp
@@ -296,17 +296,18 @@ GraphCache::remove_node(
   auto it = participants_.find(participant_gid);
   assert(it != participants_.end());
 
-  // remove first element found
+  // Remove the last element found: entities are associated with the first node that has the name,
+  // so removing a node with a duplicated name doesn't drop the entities of the other ones.
   auto to_remove = std::find_if(
-    it->second.node_entities_info_seq.begin(),
-    it->second.node_entities_info_seq.end(),
+    it->second.node_entities_info_seq.rbegin(),
+    it->second.node_entities_info_seq.rend(),
     [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
       return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
     });
 
-  assert(to_remove != it->second.node_entities_info_seq.end());
+  assert(to_remove != it->second.node_entities_info_seq.rend());
 
-  it->second.node_entities_info_seq.erase(to_remove);
+  it->second.node_entities_info_seq.erase(std::next(to_remove).base());
   GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
 
   return __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);
-- 
2.43.0

