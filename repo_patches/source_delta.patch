From db480cdbe580fa6eaec70a85e168b21b658000e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 1/8] fix: escape line feeds and backslashes of help texts

---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..a7eda9d 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write the help text, which must not break out of its line
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From 0c567ca795e083f719639c8f620a8d5b196aa412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 2/8] fix: reject base64 with a single padding character before
 the last one

---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From fd7323ba1e04399e1d2dee83d22b91c57b1258a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 3/8] fix: reject NaN next to another histogram bucket boundary

---
 core/src/histogram.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index e437738..ff23694 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -2,7 +2,6 @@
 
 #include <algorithm>
 #include <cstddef>
-#include <functional>
 #include <iterator>
 #include <limits>
 #include <memory>
@@ -15,9 +14,11 @@ namespace {
 
 template <class ForwardIterator>
 bool is_strict_sorted(ForwardIterator first, ForwardIterator last) {
-  return std::adjacent_find(first, last,
-                            std::greater_equal<typename std::iterator_traits<
-                                ForwardIterator>::value_type>()) == last;
+  using T = typename std::iterator_traits<ForwardIterator>::value_type;
+  // not the same as greater-or-equal, NaN is not less than any other value
+  return std::adjacent_find(first, last, [](const T& a, const T& b) {
+           return !(a < b);
+         }) == last;
 }
 
 }  // namespace
-- 
2.43.0


From fc50cb3f21410c450227b2030320f08a51260f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 4/8] fix: count an observed NaN in the +Inf bucket of a
 histogram

---
 core/src/histogram.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index ff23694..1395381 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -42,7 +42,10 @@ void Histogram::Observe(const double value) {
   const auto bucket_index = static_cast<std::size_t>(
       std::distance(bucket_boundaries_.begin(),
                     std::lower_bound(bucket_boundaries_.begin(),
-                                     bucket_boundaries_.end(), value)));
+                                     bucket_boundaries_.end(), value,
+                                     [](const double boundary, const double v) {
+                                       return !(v <= boundary);
+                                     })));
 
   std::lock_guard<std::mutex> lock(mutex_);
   sum_.Increment(value);
-- 
2.43.0


From 44ea3fc85dc8a529f52d5025f184471e3f7e3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 5/8] fix: release curl when the construction of its wrapper
 fails

---
 push/src/detail/curl_wrapper.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/push/src/detail/curl_wrapper.cc b/push/src/detail/curl_wrapper.cc
index 997c374..a7cac61 100644
--- a/push/src/detail/curl_wrapper.cc
+++ b/push/src/detail/curl_wrapper.cc
@@ -22,13 +22,20 @@ CurlWrapper::CurlWrapper(std::function<void(CURL*)> presetupCurl)
     throw std::runtime_error("Cannot initialize easy curl!");
   }
 
-  if (presetupCurl_) {
-    presetupCurl_(curl_);  
-  }
-
-  optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
-  if (!optHttpHeader_) {
-    throw std::runtime_error("Cannot append the header of the content type");
+  try {
+    if (presetupCurl_) {
+      presetupCurl_(curl_);
+    }
+
+    optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
+    if (!optHttpHeader_) {
+      throw std::runtime_error("Cannot append the header of the content type");
+    }
+  } catch (...) {
+    // the destructor does not run for an object that failed to construct
+    curl_easy_cleanup(curl_);
+    curl_global_cleanup();
+    throw;
   }
 }
 
-- 
2.43.0


From 28a1d4c85fceec33adfcc57aa0d9799f1c728581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 6/8] fix: serialize independently of the format flags of the
 stream

---
 core/src/text_serializer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index a7eda9d..caf0f0e 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -226,7 +226,10 @@ void TextSerializer::Serialize(std::ostream& out,
                                const std::vector<MetricFamily>& metrics) const {
   auto saved_locale = out.getloc();
   auto saved_precision = out.precision();
+  auto saved_flags = out.flags();
 
+  out.flags(std::ios_base::dec | std::ios_base::skipws);
+  out.width(0);
   out.imbue(std::locale::classic());
   out.precision(std::numeric_limits<double>::max_digits10 - 1);
 
@@ -236,5 +239,6 @@ void TextSerializer::Serialize(std::ostream& out,
 
   out.imbue(saved_locale);
   out.precision(saved_precision);
+  out.flags(saved_flags);
 }
 }  // namespace prometheus
-- 
2.43.0


From 213c1a4a1571a2a14292f3937589a2ef5698f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 7/8] fix: encode grouping values that are dot segments of an
 URL

---
 push/src/detail/label_encoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..ab175cb 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <ostream>
+#include <string>
 
 #include "prometheus/detail/base64.h"
 
@@ -25,12 +26,16 @@ bool needsEncoding(char c) {
   }
   return true;
 }
+
+// Would this path segment be removed from an URL, see RFC 3986 section 5.2.4?
+bool isDotSegment(const std::string& s) { return s == "." || s == ".."; }
 }  // namespace
 
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (isDotSegment(label.second) ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From 6b4a706d2265c93ec058c6d7aa597f857bca7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 8/8] fix: do not send truncated bodies when the input exceeds
 zlib's counter

---
 pull/src/handler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..da69d1a 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <cstring>
 #include <iterator>
+#include <limits>
 #include <string>
 
 #ifdef HAVE_ZLIB
@@ -58,6 +59,11 @@ static bool IsEncodingAccepted(struct mg_connection* conn,
 }
 
 static std::vector<Byte> GZipCompress(const std::string& input) {
+  if (input.size() > std::numeric_limits<uInt>::max()) {
+    // zlib's input counter cannot represent the whole input
+    return {};
+  }
+
   auto zs = z_stream{};
   auto windowSize = 16 + MAX_WBITS;
   auto memoryLevel = 9;
-- 
2.43.0

