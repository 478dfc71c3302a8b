From 468c71bafd7609539c46051067cdd490ddd6c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 01/14] fix: keep MessageReader consistent when an allocation
 fails

NextMessage() forgot the current frame's size, skipped the frame's flag or
recorded the end of the stream before it allocated the message stream or the
error status. If that allocation threw, a later call misread body bytes as a
frame header, delivered frames after an unsupported flag, or reported a
truncated stream as a clean end. Change the state only after the allocation.
---
 src/message_reader.cc | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/message_reader.cc b/src/message_reader.cc
index 9284551..74f66f6 100644
--- a/src/message_reader.cc
+++ b/src/message_reader.cc
@@ -89,11 +89,14 @@ std::unique_ptr<pbio::ZeroCopyInputStream> MessageReader::NextMessage() {
         static_cast<pb::int64>(kGrpcDelimiterByteSize)) {
       // We don't have 5 bytes available to read the length of the message.
       // Find out whether the stream is finished and return false.
-      finished_ = in_->Finished();
-      if (finished_ && in_->BytesAvailable() != 0) {
+      const bool in_finished = in_->Finished();
+      if (in_finished && in_->BytesAvailable() != 0) {
         status_ = absl::Status(absl::StatusCode::kInternal,
                                "Incomplete gRPC frame header received");
       }
+      // Only now: if building the status above throws, a later call must still
+      // report the error instead of a clean end.
+      finished_ = in_finished;
       return nullptr;
     }
 
@@ -104,17 +107,17 @@ std::unique_ptr<pbio::ZeroCopyInputStream> MessageReader::NextMessage() {
       return nullptr;
     }
 
-    if (delimiter_[0] != 0) {
-      status_ = absl::Status(
-          absl::StatusCode::kInternal,
-          "Unsupported gRPC frame flag: " + std::to_string(delimiter_[0]));
-      return nullptr;
-    }
-
     current_message_size_ = DelimiterToSize(delimiter_);
     have_current_message_size_ = true;
   }
 
+  if (delimiter_[0] != 0) {
+    status_ = absl::Status(
+        absl::StatusCode::kInternal,
+        "Unsupported gRPC frame flag: " + std::to_string(delimiter_[0]));
+    return nullptr;
+  }
+
   if (in_->BytesAvailable() < static_cast<pb::int64>(current_message_size_)) {
     if (in_->Finished()) {
       status_ = absl::Status(
@@ -127,13 +130,15 @@ std::unique_ptr<pbio::ZeroCopyInputStream> MessageReader::NextMessage() {
     return nullptr;
   }
 
-  // Reset the have_current_message_size_ for the next message
-  have_current_message_size_ = false;
-
   // We have a message! Use LimitingInputStream to wrap the input stream and
   // limit it to current_message_size_ bytes to cover only the current message.
-  return std::unique_ptr<pbio::ZeroCopyInputStream>(
+  std::unique_ptr<pbio::ZeroCopyInputStream> message(
       new pbio::LimitingInputStream(in_, current_message_size_));
+
+  // Reset the have_current_message_size_ for the next message (only once the
+  // current one can no longer fail to be returned).
+  have_current_message_size_ = false;
+  return message;
 }
 
 MessageAndGrpcFrame MessageReader::NextMessageAndGrpcFrame() {
-- 
2.43.0


From d1eae3914fa25ed17ccd13d2ff450587a2910f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 02/14] fix: never leave a null child in the routing trie when
 an allocation fails

LookupOrInsertNew() inserted a null pointer before creating the child node, so
a failed allocation left a null entry which later lookups and registrations
dereferenced.
---
 src/path_matcher_node.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..c3ae268 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -64,12 +64,13 @@ typename Collection::value_type::second_type& LookupOrInsertNew(
     const typename Collection::value_type::first_type& key) {
   typedef typename Collection::value_type::second_type Mapped;
   typedef typename Mapped::element_type Element;
-  std::pair<typename Collection::iterator, bool> ret =
-      collection->insert(typename Collection::value_type(key, Mapped()));
-  if (ret.second) {
-    ret.first->second = Mapped(new Element());
+  auto it = collection->find(key);
+  if (it == collection->end()) {
+    // Create the pointee first: if that fails, the collection must not be left
+    // with a null entry.
+    it = collection->emplace(key, Mapped(new Element())).first;
   }
-  return ret.first->second;
+  return it->second;
 }
 
 // A convinent function to lookup a STL colllection with two keys.
-- 
2.43.0


From ef7a2772eb59980b4d43d1bfd0ab02f89c94be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 03/14] fix: keep PathMatcherBuilder consistent when an
 allocation fails

Register() put a pointer to the method data into the trie before storing the
owner and before recording the custom verb. When one of those allocations
failed, the trie kept a dangling pointer, and the method was half registered:
a retry was taken for a duplicate.
---
 src/include/grpc_transcoding/path_matcher.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..36cdc17 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -425,15 +425,21 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
-                        root_ptr_.get())) {
-    return false;
+  // Do everything that can fail before the trie refers to method_data, so that
+  // a failed allocation does not leave a half registered method behind.
+  std::unordered_set<std::string> new_verbs;
+  if (!ht->verb().empty()) {
+    new_verbs.insert(ht->verb());
   }
+  custom_verbs_.reserve(custom_verbs_.size() + new_verbs.size());
   // Add the method_data to the methods_ vector for cleanup
   methods_.emplace_back(std::move(method_data));
-  if (!ht->verb().empty()) {
-    custom_verbs_.insert(ht->verb());
+
+  if (!InsertPathToNode(path_info, methods_.back().get(),
+                        http_method + ht->verb(), root_ptr_.get())) {
+    return false;
   }
+  custom_verbs_.merge(new_verbs);
   return true;
 }
 
-- 
2.43.0


From 6a38a32d97d4a3c4cbfb08d5c61c5040ae19a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 04/14] fix: deliver no request message after a translation
 error

LazyRequestTranslator::NextMessage() kept handing out queued messages, and for
a unary call the message it had just failed to translate, after Status() had
turned into an error.
---
 src/json_request_translator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 0b3276e..ec305c5 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -63,6 +63,11 @@ class LazyRequestTranslator : public MessageStream {
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
+    if (!status_.ok()) {
+      // The translation has failed: whatever is still queued or half built
+      // must not be handed out.
+      return false;
+    }
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-- 
2.43.0


From 706268690b077c7e4ca286c436b59323c0106a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 05/14] fix: hand out a request message that the end of the
 JSON input completes

A JSON number mapped to a scalar field is complete only when the input ends.
The poll that saw the end reported neither a message nor the end.
---
 src/json_request_translator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index ec305c5..796fd22 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -71,8 +71,10 @@ class LazyRequestTranslator : public MessageStream {
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-        // Error or no more input to translate.
-        return false;
+        // Error or no more input to translate. Finishing the parser may have
+        // completed the message though: at the end of the input there is no
+        // later event that would make the caller ask again.
+        return status_.ok() && translated_->NextMessage(message);
       }
     }
     return true;
-- 
2.43.0


From 0ee432fef1a50b7ca851ceef29bdb10126e63b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 06/14] fix: clear the output string at the end of a
 newline-delimited response

NextMessage() returned true without touching *message, so a caller that reuses
its string appended the previous content once more.
---
 src/response_to_json_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..0cf26db 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,10 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // Nothing follows the last line; the caller's string must not be taken
+      // for output.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From cb82f20ff00af22901b2dea3c18e90e2e1bdd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 07/14] fix: bind variables behind a "**" to their own segments

---
 src/http_template.cc                         | 12 +++++++++++-
 src/include/grpc_transcoding/http_template.h |  2 +-
 src/include/grpc_transcoding/path_matcher.h  | 12 ++++++++----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..740f880 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -16,6 +16,7 @@
 //
 #include "grpc_transcoding/http_template.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 
@@ -326,8 +327,17 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    const int wildcard_segment =
+        std::find(segments_.begin(), segments_.end(),
+                  HttpTemplate::kWildCardPathKey) -
+        segments_.begin();
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      if (var.start_segment > wildcard_segment) {
+        // The variable lies behind a '**', which can match any number of
+        // segments: store both positions relative to the end.
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+        var.end_segment = (var.end_segment - segments_.size() - 1);
+      } else if (var.has_wildcard_path) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..ae3a6b7 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,7 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. start_segment is negative only for a variable behind a '**'.
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 36cdc17..a5df655 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -181,22 +181,26 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     //
     // In case of matching "**" - end_segment is negative and is relative to
     // the end such that end_segment = -1 will match all subsequent segments.
+    // The same goes for start_segment of a variable behind a "**".
     VariableBinding binding;
     binding.field_path = var.field_path;
-    // Calculate the absolute index of the ending segment in case it's negative.
+    // Calculate the absolute index of the segments in case they are negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From be7e2563f417a55eea1590b98fce6c92d24cc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 08/14] fix: pass the request options on to every message of a
 stream

---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From d102a0fb2d61c4bc3d6f10ec430c002f2d074e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 09/14] fix: compare 64-bit binding and body values without
 truncating them

---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..04ebb2b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 64031a56b3c3cd14ded7a5a8821c8bf7738afa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 10/14] fix: weave bindings into fields that the body names in
 lowerCamelCase

---
 src/request_weaver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 04ebb2b..3c9f279 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -52,6 +52,13 @@ absl::Status bindingFailureStatus(absl::string_view field_name,
                    value.ValueAsStringOrDefault(""), " to ", type));
 }
 
+// Whether the name of a JSON field denotes the given proto field: like the proto
+// writer, accept both the original and the lowerCamelCase name.
+bool isFieldName(const pb::Field& field, absl::string_view name) {
+  return name == field.name() ||
+         (!field.json_name().empty() && name == field.json_name());
+}
+
 absl::Status isEqual(absl::string_view field_name,
                      const pbconv::DataPiece& value_in_body,
                      const pbconv::DataPiece& value_in_binding) {
@@ -355,7 +362,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
-    if (name == it->first->name()) {
+    if (isFieldName(*it->first, name)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
@@ -378,7 +385,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-    if (field_name == msg.first->name()) {
+    if (isFieldName(*msg.first, field_name)) {
       return &msg.second;
     }
   }
-- 
2.43.0


From bd03c57e65d3e659f15f576a65cea92377dbf3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 11/14] fix: compare double binding and body values without
 narrowing them to float

---
 src/request_weaver.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 3c9f279..30f570a 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -18,7 +18,6 @@
 
 #include <cmath>
 #include <cstdint>
-#include <cfloat>
 #include <limits>
 #include <string>
 #include <vector>
@@ -41,7 +40,13 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+// The tolerance is that of the type: comparing doubles as floats would take
+// different large values for the same and overflow beyond FLT_MAX.
+template <class T>
+bool AlmostEquals(T a, T b) {
+  return a == b ||
+         std::fabs(a - b) < 32 * std::numeric_limits<T>::epsilon();
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From 86e3fd785981a2a8dc67a48f5afa6776e8c8e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 12/14] fix: match custom verbs of templates registered for any
 HTTP method

---
 src/include/grpc_transcoding/path_matcher.h | 12 +++++++++---
 src/path_matcher_node.cc                    | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index a5df655..cb3acd0 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -285,6 +285,12 @@ std::vector<std::string> ExtractRequestParts(
   return result;
 }
 
+// The key of a HTTP method and custom verb in the PathMatcher trie. HTTP methods
+// have no ':', so different pairs have different keys.
+HttpMethod MethodKey(const std::string& http_method, const std::string& verb) {
+  return verb.empty() ? http_method : http_method + ":" + verb;
+}
+
 // Looks up on a PathMatcherNode.
 PathMatcherLookupResult LookupInPathMatcherNode(
     const PathMatcherNode& root, const std::vector<std::string>& parts,
@@ -341,7 +347,7 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts, MethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -376,7 +382,7 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts, MethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -440,7 +446,7 @@ bool PathMatcherBuilder<Method>::Register(
   methods_.emplace_back(std::move(method_data));
 
   if (!InsertPathToNode(path_info, methods_.back().get(),
-                        http_method + ht->verb(), root_ptr_.get())) {
+                        MethodKey(http_method, ht->verb()), root_ptr_.get())) {
     return false;
   }
   custom_verbs_.merge(new_verbs);
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index c3ae268..3e22aa0 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -241,8 +241,20 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
-  const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+  const PathMatcherLookupResult* found_p = nullptr;
+  // A custom verb follows the method after a ':'; a wildcard method that was
+  // registered with that verb is more specific than one without.
+  const std::size_t verb_pos = key.find(':');
+  if (verb_pos == HttpMethod::npos) {
+    found_p = Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+  } else {
+    found_p = Find2KeysOrNull(result_map_, key,
+                              HttpMethod_WILD_CARD + key.substr(verb_pos));
+    if (found_p == nullptr) {
+      found_p = Find2KeysOrNull(result_map_, HttpMethod_WILD_CARD,
+                                HttpMethod_WILD_CARD);
+    }
+  }
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From f2c1c995a8244d585f5f45d7bf56e43005f62736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 13/14] fix: ignore a binding whose field path is empty instead
 of reading out of bounds

---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 30f570a..f393478 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -334,7 +334,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0


From 70b4bbf9704fdd802aa2ca0fb8ddc9fd73bed35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 14/14] fix: a request segment "**" is not a catch-all: more
 specific templates come first

---
 src/path_matcher_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 3e22aa0..0e0d97a 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -159,7 +159,10 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A "**" in the request is an ordinary segment, not the key of the child for
+    // catch-all templates, which is the last one to be considered.
+    if (*current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0

