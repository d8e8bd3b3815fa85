From 26464dcaf72e5b3274eac496b120f1c0439e6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 01/60] fix: 'not' followed by an identifier starting with 'in'
 is not the 'not in' operator

---
 bant/frontend/scanner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..6372864 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -116,7 +116,8 @@ bool Scanner::ConsumeOptionalIn() {
   while (run < end_ && absl::ascii_isspace(*run)) {
     ++run;
   }
-  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
+  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
+      (end_ - run == 2 || !IsIdentifierChar(run[2]))) {  // complete word only
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From c78b4222f2111642265def8e998b7c60b8057344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 02/60] fix: count line breaks between 'not' and 'in'

---
 bant/frontend/scanner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index 6372864..42c0edc 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -118,6 +118,12 @@ bool Scanner::ConsumeOptionalIn() {
   }
   if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
       (end_ - run == 2 || !IsIdentifierChar(run[2]))) {  // complete word only
+    for (/**/; pos_ < run; ++pos_) {
+      if (*pos_ == '\n') {
+        source_.mutable_line_index()->PushNewline(pos_ + 1);
+        ++newline_count_;
+      }
+    }
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From 8aa4d5b761ea73c26e94e95a14fc3bb1da609edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 03/60] fix: recognize triple quoted strings with single quote
 characters

---
 bant/frontend/ast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 8982c38..072d79b 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -57,7 +57,8 @@ StringScalar *StringScalar::FromLiteral(Arena *arena,
     is_raw = true;
     literal.remove_prefix(1);
   }
-  if (literal.length() >= 6 && literal.substr(0, 3) == R"(""")") {
+  if (literal.length() >= 6 && (literal.substr(0, 3) == R"(""")" ||
+                                literal.substr(0, 3) == "'''")) {
     is_triple_quoted = true;
     literal = literal.substr(3);
     literal.remove_suffix(3);
-- 
2.43.0


From b13df50669b2ee3f5a629b4060f3d6aa33561069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 04/60] fix: printed strings that contain both kinds of quotes
 parse back to the same string

---
 bant/frontend/print-visitor.cc | 50 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 91bc682..d03b7c0 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/print-visitor.h"
 
+#include <cstddef>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -154,6 +155,33 @@ void PrintVisitor::VisitTernary(Ternary *t) {
   }
 }
 
+// Content can be put between these quotes without ending the string early.
+static bool CanBeQuotedWith(std::string_view content, char quote, bool triple) {
+  const int needed_to_close = triple ? 3 : 1;
+  int unescaped_quotes = 0;
+  for (size_t i = 0; i < content.size(); ++i) {
+    if (content[i] == quote) {
+      if (++unescaped_quotes == needed_to_close) return false;
+      continue;
+    }
+    unescaped_quotes = 0;
+    if (content[i] == '\\') ++i;  // Whatever is next, it is escaped.
+  }
+  return unescaped_quotes == 0;  // Would merge with closing quotes.
+}
+
+static std::string EscapeQuotes(std::string_view content, char quote) {
+  std::string result;
+  for (size_t i = 0; i < content.size(); ++i) {
+    if (content[i] == quote) result.push_back('\\');
+    result.push_back(content[i]);
+    if (content[i] == '\\' && i + 1 < content.size()) {
+      result.push_back(content[++i]);
+    }
+  }
+  return result;
+}
+
 void PrintVisitor::VisitScalar(Scalar *s) {
   if (s->type() == Scalar::ScalarType::kInt) {
     if (s->AsString().empty()) {
@@ -164,16 +192,24 @@ void PrintVisitor::VisitScalar(Scalar *s) {
   } else {
     const StringScalar *str = static_cast<StringScalar *>(s);
     if (str->is_raw()) out_ << "r";
-    // Minimal-effort quote char choosing. TODO: look if escaped
-    const bool has_any_double_quote =
-      str->AsString().find_first_of('"') != std::string_view::npos;
-    const char quote_char = has_any_double_quote ? '\'' : '"';
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    const bool triple = str->is_triple_quoted();
+    std::string_view content = str->AsString();
+    std::string escaped;
+    char quote_char = '"';
+    if (!CanBeQuotedWith(content, quote_char, triple)) {
+      if (CanBeQuotedWith(content, '\'', triple)) {
+        quote_char = '\'';
+      } else {  // Can happen in concatenated strings: need to escape.
+        escaped = EscapeQuotes(content, quote_char);
+        content = escaped;
+      }
+    }
+    if (triple) out_ << quote_char << quote_char;
 
     out_ << quote_char;
-    PrintMaybeHighlight(str->AsString());
+    PrintMaybeHighlight(content);
     out_ << quote_char;
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    if (triple) out_ << quote_char << quote_char;
   }
 }
 
-- 
2.43.0


From 08b93af9586aaa4cd1bc4e99f4b220b77b403ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 05/60] fix: text after the last * in a target pattern is
 matched literally

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..3a785a9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -212,7 +212,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From e793550a2406b1a12e1192cce19e2280edbb6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 06/60] fix: @// labels refer to the main project, also in
 external projects

---
 bant/types-bazel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 3a785a9..f2c1149 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -137,7 +137,8 @@ std::string BazelPackage::FullyQualifiedFile(
     return std::nullopt;
   }
   BazelPackage parsed_package = package_part.value();
-  if (parsed_package.project.empty()) {
+  // A leading @// explicitly refers to the main project.
+  if (parsed_package.project.empty() && !package.starts_with('@')) {
     parsed_package.project = project;
   }
   return BazelTarget(parsed_package, target);
-- 
2.43.0


From cb1c80c0f1d204286dc8a7f8dedac54c68dace35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 07/60] fix: second positional argument of glob() is the
 exclude list

---
 bant/frontend/elaboration.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..1477abd 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -171,12 +171,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
   Node *HandleGlob(FunCall *fun) {
-    // Extract arguments. include_list is allowed to be a positional parameter.
+    // Extract arguments. Include and exclude can be positional parameters.
     List *include_list = nullptr;
     List *exclude_list = nullptr;
     for (Node *arg : *fun->argument()) {
       if (List *as_list = arg->CastAsList()) {
-        include_list = as_list;  // include_list is positional parameter.
+        (include_list == nullptr ? include_list : exclude_list) = as_list;
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-- 
2.43.0


From 7088748010d41c26ef7b4869ab83d1495ad069d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 08/60] fix: a ** component of a glob() matches whole path
 elements, also as the last one

---
 bant/util/glob-match-builder.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 83b4a12..18cdd39 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -27,6 +27,7 @@
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_join.h"
 #include "absl/strings/str_replace.h"
 #include "re2/re2.h"
@@ -49,6 +50,14 @@ class PathMatcher {
   absl::flat_hash_set<std::string> verbatim_match_;
 };
 
+// A '**' as last element matches all files in all the directories below.
+static std::string ExpandTrailingDoubleStar(std::string_view pattern) {
+  if (pattern == "**" || pattern.ends_with("/**")) {
+    return absl::StrCat(pattern, "/*");
+  }
+  return std::string{pattern};
+}
+
 // Needs to be shared, as RE2 can't be copied and std::function also can't
 // things std::move()'ed into it.
 static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
@@ -57,9 +66,10 @@ static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
   absl::flat_hash_set<std::string> verbatim_match;
   for (const std::string &p : patterns) {
     if (p.contains('*')) {
-      const std::string escape_special = RE2::QuoteMeta(p);  // quote everything
+      const std::string escape_special =  // quote everything
+        RE2::QuoteMeta(ExpandTrailingDoubleStar(p));
       re_or_patterns.emplace_back(  // ... then unquote the pattern back
-        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", ".*/?"},  //
+        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", "(.*/)?"},  //
                                              {R"(\*)", "[^/]*"}}));
     } else {
       verbatim_match.insert(p);  // Simple and fast.
@@ -73,7 +83,9 @@ static std::shared_ptr<PathMatcher> MakeDirectoryMatcher(
   const std::set<std::string> &patterns) {
   std::set<std::string> re_or_patterns;  // sorted maybe beneficial for RE2
   absl::flat_hash_set<std::string> verbatim_match;
-  for (std::string_view p : patterns) {
+  for (const std::string &pattern : patterns) {
+    const std::string expanded = ExpandTrailingDoubleStar(pattern);
+    std::string_view p = expanded;
     const size_t last_slash = p.find_last_of('/');
     if (last_slash == std::string_view::npos) {
       verbatim_match.insert("");
-- 
2.43.0


From f5876f91e821dc8ec4a2be6156fbf2414f8725f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 09/60] fix: comments, quotes in literals and unusual file
 names do not hide or invent includes

---
 bant/tool/dwyu.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..39f191c 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -529,20 +529,23 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 // -- Publically visible interface
 
 std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
-  static const LazyRE2 kIncRe{
-    R"/((?m)("|^\s*#\s*include\s+"((\.\./)*[0-9a-zA-Z_/+-]+(\.[a-zA-Z]+)*)"))/"};
+  // Comments and complete string and character literals are skipped.
+  static const RE2 kIncRe(
+    R"/((?m)(//.*|/\*(?s:.*?)\*/|'\\?"'|R"\((?s:.*?)\)"|)/"
+    R"/("(?:[^"\\\n]|\\.)*"|"|^\s*#[ \t]*include[ \t]*"([^"\n]+)"))/",
+    RE2::Latin1);
 
-  // We don't actually understand strings in c++, so we just pretend by
+  // We don't actually understand other strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
   bool best_effort_in_nested_quote_toggle = false;
   std::vector<std::string_view> result;
   std::string_view run = src->content();
   std::string_view header_path;
   std::string_view outer;
-  while (RE2::FindAndConsume(&run, *kIncRe, &outer, &header_path)) {
+  while (RE2::FindAndConsume(&run, kIncRe, &outer, &header_path)) {
     if (outer == "\"") {
       best_effort_in_nested_quote_toggle = !best_effort_in_nested_quote_toggle;
-    } else if (!best_effort_in_nested_quote_toggle) {
+    } else if (!header_path.empty() && !best_effort_in_nested_quote_toggle) {
       result.push_back(header_path);
     }
   }
-- 
2.43.0


From 7bc22261ec55a5c20fd5462ac4bc6fa7df34e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 10/60] fix: JSON and CSV output follows the escaping rules of
 these formats

---
 bant/util/table-printer.cc | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index bca57b8..7077064 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -23,11 +23,13 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "absl/log/check.h"
 #include "absl/strings/escaping.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "bant/output-format.h"
 
 namespace bant {
@@ -143,6 +145,21 @@ class SExprTablePrinter : public TablePrinter {
   bool row_printed_ = false;
 };
 
+// Escape according to JSON rules; non-ASCII characters don't need escaping.
+std::string JsonEscape(std::string_view str) {
+  std::string result;
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.append(1, '\\').append(1, c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppendFormat(&result, "\\u%04x", c);
+    } else {
+      result.append(1, c);
+    }
+  }
+  return result;
+}
+
 class JSonTablePrinter : public TablePrinter {
  public:
   JSonTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
@@ -152,8 +169,8 @@ class JSonTablePrinter : public TablePrinter {
     out_ << "{";
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row[c]) << "\"";
     }
     out_ << "}\n";
   }
@@ -165,15 +182,15 @@ class JSonTablePrinter : public TablePrinter {
     size_t c = 0;
     for (c = 0; c < row_prefix.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row_prefix[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row_prefix[c]) << "\"";
     }
     if (c != 0) out_ << ", ";
-    out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
+    out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
     out_ << "[";
     for (size_t rc = 0; rc < repeat_col.size(); ++rc) {
       if (rc != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(repeat_col[rc]) << "\"";
+      out_ << "\"" << JsonEscape(repeat_col[rc]) << "\"";
     }
     out_ << "]}\n";
   }
@@ -185,13 +202,18 @@ class JSonTablePrinter : public TablePrinter {
   const std::vector<std::string> headers_;
 };
 
+// In CSV, only quotes need to be doubled.
+std::string CSVEscape(std::string_view str) {
+  return absl::StrReplaceAll(str, {{"\"", "\"\""}});
+}
+
 class CSVTablePrinter : public TablePrinter {
  public:
   CSVTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
       : out_(out) {
     for (size_t c = 0; c < headers.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(headers[c]) << "\"";
+      out_ << "\"" << CSVEscape(headers[c]) << "\"";
     }
     out_ << "\n";
   }
@@ -199,7 +221,7 @@ class CSVTablePrinter : public TablePrinter {
   void AddRow(const std::vector<std::string> &row) final {
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << CSVEscape(row[c]) << "\"";
     }
     out_ << "\n";
   }
-- 
2.43.0


From 096afc3a14cf02142f89703a085369466bc6985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 11/60] fix: look for an extracted project among all version
 directories

---
 bant/workspace.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bant/workspace.cc b/bant/workspace.cc
index 67b6d4e..48c5989 100644
--- a/bant/workspace.cc
+++ b/bant/workspace.cc
@@ -143,12 +143,12 @@ std::optional<BazelWorkspace> LoadWorkspace(Session &session) {
 
         if (!project_dir_found) {
           // Maybe we got a different version ?
-          auto maybe_match =
-            Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"));
-          if (!maybe_match.empty()) {
-            path = maybe_match.front();
+          for (const FilesystemPath &maybe_match :
+               Glob(absl::StrCat(kExternalBaseDir, "/", result.name, "~*"))) {
+            path = maybe_match;
             project_dir_found = path.is_directory() && path.can_read();
             // Should we extract version from path ?
+            if (project_dir_found) break;
           }
         }
 
-- 
2.43.0


From 553c3fae5c234f24bea4da57fbe14d0bf56e967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 12/60] fix: leading dots of a directory name are part of the
 package name

---
 bant/frontend/parsed-project.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..6ff7938 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -49,10 +49,16 @@ namespace {
 // ./foo/bar/baz/BUILD.bazel turns into foo/bar/baz
 std::string_view TargetPathFromBuildFile(std::string_view file) {
   file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file
-  while (!file.empty() && (file[0] == '.' || file[0] == '/')) {
-    file.remove_prefix(1);
+  // Remove leading ./ and /, but keep dots that are part of a directory name.
+  for (;;) {
+    if (file.starts_with('/')) {
+      file.remove_prefix(1);
+    } else if (file == "." || file.starts_with("./")) {
+      file.remove_prefix(file.size() == 1 ? 1 : 2);
+    } else {
+      return file;
+    }
   }
-  return file;
 }
 
 // Given a bazel pattern, find the start directory to recursively walk the
-- 
2.43.0


From b68bd6700c1c59f4b3ba976ac011c8c1b9a8d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 13/60] fix: a symbolic link does not hide the directory it
 points to in recursive walks

---
 bant/util/file-utils.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..c7bcf4d 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -200,12 +200,15 @@ std::vector<FilesystemPath> CollectFilesRecursive(
           FollowLinkTestIsDir(file_or_dir, &inode)));
 
       if (is_directory) {
+        // Only remember directories that we actually look at: a link that is
+        // not wanted should not hide the directory it points to.
+        if (!want_dir_p(file_or_dir)) {
+          continue;
+        }
         if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
           continue;  // Avoid getting caught in symbolic-link loops.
         }
-        if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
-        }
+        directory_worklist.emplace_back(file_or_dir.path());
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
       }
-- 
2.43.0


From c5430c7de5064f3940f90398b6aeb9b74cad9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 14/60] fix: BUILD.bazel takes precedence over BUILD

---
 bant/explore/dependency-graph.cc | 2 +-
 bant/frontend/parsed-project.cc  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..6061a83 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -59,7 +59,7 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     start_path.append(package.path);
   }
   const ScopedTimer timer(&stat.duration);
-  for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
+  for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
     if (test_path.can_read()) return test_path;
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 6ff7938..94d83a3 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/parsed-project.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <iostream>
 #include <memory>
@@ -123,7 +124,12 @@ ParsedProject::ParsedProject(BazelWorkspace workspace, bool verbose)
 
 int ParsedProject::FillFromPattern(Session &session,
                                    const BazelPattern &pattern) {
-  const auto build_files = CollectBuildFiles(session, workspace(), pattern);
+  auto build_files = CollectBuildFiles(session, workspace(), pattern);
+  // If there are both in a directory, BUILD.bazel takes precedence over BUILD.
+  std::stable_partition(build_files.begin(), build_files.end(),
+                        [](const FilesystemPath &build_file) {
+                          return build_file.filename() == "BUILD.bazel";
+                        });
   for (const FilesystemPath &build_file : build_files) {
     AddBuildFile(session, build_file, pattern.project());
   }
-- 
2.43.0


From ad401b2284d277b7ad747e3edd28993af7b13361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 15/60] fix: dependencies to targets in the toplevel package
 are followed

---
 bant/explore/dependency-graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index 6061a83..c473550 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -58,6 +58,7 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     if (!start_path.empty()) start_path.append("/");
     start_path.append(package.path);
   }
+  if (start_path.empty()) start_path = ".";  // Toplevel package.
   const ScopedTimer timer(&stat.duration);
   for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
-- 
2.43.0


From 655d7209d35ac3f0f066df78c1d7eebef3ca9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 16/60] fix: no crash if the BUILD file of a dependency is not
 readable

---
 bant/explore/dependency-graph.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index c473550..f87f403 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -63,7 +63,7 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
   for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
-    if (test_path.can_read()) return test_path;
+    if (test_path.can_read() && !test_path.is_directory()) return test_path;
   }
   return std::nullopt;
 }
@@ -86,6 +86,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (!file) {
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From 0ac67fa68f4d2600a77425d4e38cf3094a02002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 17/60] fix: aliased-by follows dependencies with -r as
 documented

---
 bant/cli-commands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index 8e06b15..ca2c5ed 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -151,6 +151,7 @@ CliStatus RunCommand(Session &session, Command cmd,
   case Command::kGenruleOutputs:
   case Command::kListTargets:
   case Command::kListPackages:
+  case Command::kAliasedBy:
   case Command::kDependsOn:
   case Command::kHasDependents:
   case Command::kCompilationDB:
-- 
2.43.0


From c7b9dcc3b50250bbafb73e38e33da4f524d37a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 18/60] fix: aliases without a plain label as actual are not
 aliases of a nameless target

---
 bant/explore/aliased-by.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/explore/aliased-by.cc b/bant/explore/aliased-by.cc
index 2424166..6632195 100644
--- a/bant/explore/aliased-by.cc
+++ b/bant/explore/aliased-by.cc
@@ -28,6 +28,7 @@ OneToN<BazelTarget, BazelTarget> ExtractAliasedBy(const ParsedProject &p) {
   for (const auto &[_, build_file] : p.ParsedFiles()) {
     query::FindTargets(
       build_file->ast, {"alias"}, [&](const query::Result &details) {
+        if (details.actual.empty()) return;  // E.g. some select().
         auto alias = build_file->package.QualifiedTarget(details.name);
         auto actual =
           BazelTarget::ParseFrom(details.actual, build_file->package);
-- 
2.43.0


From 024953bb1212809771f257331c04c2d6f2f03923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 19/60] fix: keyword arguments of nested calls are not
 attributes of the rule

---
 bant/explore/query-utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..3e66732 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -38,8 +38,7 @@ class TargetFinder : public BaseVoidVisitor {
 
   void VisitFunCall(FunCall *f) final {
     if (in_relevant_call_ != Relevancy::kNotRelevant) {
-      BaseVoidVisitor::VisitFunCall(f);  // Nesting.
-      return;
+      return;  // Keyword arguments of nested calls are not ours.
     }
     in_relevant_call_ = IsRelevant(f->identifier()->id());
     if (in_relevant_call_ == Relevancy::kNotRelevant) return;
-- 
2.43.0


From e5598efdcca275c2dde19ca6ba85c4ff4bbc6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 20/60] fix: print -g with an expression that matches the empty
 string terminates

---
 bant/frontend/print-visitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index d03b7c0..5cef821 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -57,6 +57,7 @@ void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
       if (do_color_) out_ << kColor.reset_hightlight;
       any_highlight_ = true;
       last_end = print_str.data();
+      if (highlight.empty()) break;  // Empty match: would not make progress.
     }
   }
   out_ << std::string_view(last_end, print_str.end() - last_end);
-- 
2.43.0


From 0e409d8893e83c5c72d8f4217e885c7528aa9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 21/60] fix: accept documented option -E

---
 bant/bant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..18e9f54 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -149,7 +149,7 @@ int main(int argc, char *argv[]) {
     {"json", OutputFormat::kJSON},     {"graphviz", OutputFormat::kGraphviz},
   };
   int opt;
-  while ((opt = getopt(argc, argv, "C:qo:vhpecbf:r::Vkg:i")) != -1) {
+  while ((opt = getopt(argc, argv, "C:qo:vhpEecbf:r::Vkg:i")) != -1) {
     switch (opt) {
     case 'C': {
       std::error_code err;
-- 
2.43.0


From 31b054bf088c9e0233ee7dc848d266cb930dce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 22/60] fix: print fails if the -g expression is not valid

---
 bant/cli-commands.cc            | 4 +++-
 bant/frontend/parsed-project.cc | 5 +++--
 bant/frontend/parsed-project.h  | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index ca2c5ed..99ffb5f 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -190,7 +190,9 @@ CliStatus RunCommand(Session &session, Command cmd,
     // so it would already have emitted parse errors. Here we only have to
     // decide if we print anything.
     if (flags.print_ast || flags.print_only_errors) {
-      bant::PrintProject(session, pattern, project);
+      if (!bant::PrintProject(session, pattern, project)) {
+        return CliStatus::kExitFailure;
+      }
     }
     break;
 
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 94d83a3..2790271 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -260,7 +260,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   out << ")";
 }
 
-void PrintProject(Session &session, const BazelPattern &pattern,
+bool PrintProject(Session &session, const BazelPattern &pattern,
                   const ParsedProject &project) {
   const CommandlineFlags &flags = session.flags();
 
@@ -273,7 +273,7 @@ void PrintProject(Session &session, const BazelPattern &pattern,
       // This really needs the session passed in so that we can reach the
       // correct error stream.
       std::cerr << "Grep pattern: " << regex->error() << "\n";
-      return;
+      return false;
     }
   }
 
@@ -317,5 +317,6 @@ void PrintProject(Session &session, const BazelPattern &pattern,
         }
       });
   }
+  return true;
 }
 }  // namespace bant
diff --git a/bant/frontend/parsed-project.h b/bant/frontend/parsed-project.h
index 2bdec25..8cc4d1d 100644
--- a/bant/frontend/parsed-project.h
+++ b/bant/frontend/parsed-project.h
@@ -128,8 +128,9 @@ class ParsedProject : public SourceLocator {
 };
 
 // Convenience function to print a fully parsed project, recreated from the
-// AST. Takes grep_regex into account for filtering.
-void PrintProject(Session &session, const BazelPattern &pattern,
+// AST. Takes grep_regex into account for filtering; returns false if that is
+// not a valid regular expression.
+bool PrintProject(Session &session, const BazelPattern &pattern,
                   const ParsedProject &project);
 
 }  // namespace bant
-- 
2.43.0


From ac0dc2285a82e15e9b4118d81f29f82b92387f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 23/60] fix: include directories and prefixes in cc_library()
 are relative to the package

---
 bant/explore/header-providers.cc | 69 ++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a2f36b8..7e9f6ee 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -80,6 +80,28 @@ static std::string_view LightCanonicalizePath(std::string_view path) {
   return path;
 }
 
+// If "file" is located below directory "dir", return the path relative to that.
+// Directories mentioned in rules are relative to the package, unless they start
+// with a slash; but we also accept directories relative to the project root.
+static std::optional<std::string_view> PathBelowDirectory(
+  const BazelPackage &package, std::string_view file, std::string_view dir) {
+  const bool is_absolute = dir.starts_with('/');
+  dir = LightCanonicalizePath(dir);
+  while (dir.ends_with('/')) dir.remove_suffix(1);
+  if (dir == ".") dir = "";
+  const std::string in_package = dir.empty() ? package.path  //
+                                             : package.QualifiedFile(dir);
+  for (const std::string_view base : {std::string_view(in_package), dir}) {
+    if (is_absolute && base != dir) continue;
+    if (base.empty()) return file;
+    if (file.length() > base.length() && file.starts_with(base) &&
+        file[base.length()] == '/') {
+      return file.substr(base.length() + 1);
+    }
+  }
+  return std::nullopt;
+}
+
 // Convert to format needed for suffix matching.
 static std::string KeyTransform(std::string_view in, bool suffix_index) {
   return suffix_index ? std::string{in.rbegin(), in.rend()}.append("/")
@@ -132,44 +154,39 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
       for (const std::string_view header : hdrs) {
         if (absl_string_view_skip && header == "string_view.h") continue;
 
-        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
-          callback(*cc_library, header,
-                   absl::StrCat(cc_lib.include_prefix, "/", header));
-          continue;
-        }
-
         // Assemble the header filename as it can be #include'ed in sources.
         const std::string header_fqn = build_file.package.QualifiedFile(header);
 
         // There can be an include prefix to be removed (typically: "").
-        std::string_view strip_prefix = cc_lib.strip_include_prefix;
-        // In protobuf, strip_include_prefix starts with '/' ???
-        while (strip_prefix.starts_with('/')) strip_prefix.remove_prefix(1);
-        while (strip_prefix.ends_with('/')) strip_prefix.remove_suffix(1);
-
-        const size_t strip_len = strip_prefix.length();
-        if (strip_len > 0 && header_fqn.length() > strip_len &&
-            header_fqn.starts_with(strip_prefix) &&
-            header_fqn[strip_len] == '/') {
-          callback(*cc_library, header, header_fqn.substr(strip_len + 1));
-        } else {
-          callback(*cc_library, header, header_fqn);
+        std::optional<std::string_view> stripped;
+        if (!cc_lib.strip_include_prefix.empty()) {
+          stripped = PathBelowDirectory(build_file.package, header_fqn,
+                                        cc_lib.strip_include_prefix);
         }
 
+        if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
+          if (!stripped.has_value()) {         // Default: relative to package.
+            stripped = PathBelowDirectory(build_file.package, header_fqn, ".");
+          }
+          callback(*cc_library, header,
+                   absl::StrCat(cc_lib.include_prefix, "/",
+                                stripped.value_or(header_fqn)));
+          continue;
+        }
+
+        callback(*cc_library, header,
+                 std::string(stripped.value_or(header_fqn)));
+
         // The same header could also show up with different prefixes, all of
         // them valid. e.g zlib.h and zlib/include/zlib.h. Emit all of these.
 
-        // TODO: double check that the following is what incdirs is supposed to
-        // do. Looks like it works for zlib.
         // Could also show up under shorter path with -I
         const auto incdirs = query::ExtractStringList(cc_lib.includes_list);
         for (const std::string_view dir : incdirs) {
-          std::string prefix(dir);
-          if (!prefix.ends_with('/')) {
-            prefix.append("/");
-          }
-          if (header_fqn.starts_with(prefix)) {
-            callback(*cc_library, header, header_fqn.substr(prefix.length()));
+          const auto short_path =
+            PathBelowDirectory(build_file.package, header_fqn, dir);
+          if (short_path.has_value()) {
+            callback(*cc_library, header, std::string(*short_path));
           }
         }
       }
-- 
2.43.0


From dd74ff69e9d501a6eddf729f323aff8ef42b29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 24/60] fix: aliases of aliases and of protobuf libraries
 provide their headers

---
 bant/explore/header-providers.cc | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index 7e9f6ee..46e6dcb 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -193,26 +193,35 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
     });
 }
 
-static void AppendCCLibraryHeaders(
-  const ParsedBuildFile &build_file,
-  const OneToN<BazelTarget, BazelTarget> &alias_index, std::ostream &info_out,
-  bool suffix_index, ProvidedFromTargetSet &result) {
+static void AppendCCLibraryHeaders(const ParsedBuildFile &build_file,
+                                   std::ostream &info_out, bool suffix_index,
+                                   ProvidedFromTargetSet &result) {
   IterateCCLibraryHeaders(
     build_file, [&](const BazelTarget &cc_library, std::string_view hdr_loc,
                     const std::string &header_fqn) {
       const std::string_view canonicalized = LightCanonicalizePath(header_fqn);
       const std::string key = KeyTransform(canonicalized, suffix_index);
       result[key].insert(cc_library);
-      // Also, if there are any aliases in the project for this library,
-      // these would also be considered providers of this lib.
-      if (const auto aliases_found = alias_index.find(cc_library);
-          aliases_found != alias_index.end()) {
-        result[key].insert(aliases_found->second.begin(),
-                           aliases_found->second.end());
-      }
     });
 }
 
+// If there are any aliases in the project for a library (or for one of its
+// aliases), these would also be considered providers of this lib.
+static void AppendAliases(const OneToN<BazelTarget, BazelTarget> &alias_index,
+                          ProvidedFromTargetSet &result) {
+  for (auto &[_, providers] : result) {
+    std::vector<BazelTarget> todo(providers.begin(), providers.end());
+    while (!todo.empty()) {
+      const auto aliases_found = alias_index.find(todo.back());
+      todo.pop_back();
+      if (aliases_found == alias_index.end()) continue;
+      for (const BazelTarget &alias : aliases_found->second) {
+        if (providers.insert(alias).second) todo.push_back(alias);
+      }
+    }
+  }
+}
+
 // proto_library(), cc_proto_library().
 // Since we don't look into the *.bzl rule, we need to assemble the
 // expected generated files here ourselves.
@@ -323,11 +332,12 @@ ProvidedFromTargetSet ExtractHeaderToLibMapping(const ParsedProject &project,
 
     // There are multiple rule types that behave like a cc library and
     // provide header files.
-    AppendCCLibraryHeaders(*build_file, aliased_by_index,  //
-                           info_out, suffix_index, result);
+    AppendCCLibraryHeaders(*build_file, info_out, suffix_index, result);
     AppendProtoLibraryHeaders(*build_file, suffix_index, result);
   }
 
+  AppendAliases(aliased_by_index, result);
+
   return result;
 }
 
-- 
2.43.0


From 453561be73f056a97c0e5406513b5172f7697559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 25/60] fix: dwyu does not remove aliases of libraries that are
 always linked or unknown

---
 bant/tool/dwyu.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 39f191c..8c608dd 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -161,10 +161,21 @@ void DWYUGenerator::InitKnownLibraries() {
 
 // Various predicates to check
 bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
-  auto found = known_libs_.find(target);
-  if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
-  // TODO: follow all libs we depend on ?
-  return found->second.alwayslink;
+  // An alias brings in whatever library it is ultimately referring to.
+  std::set<BazelTarget> seen;
+  BazelTarget current = target;
+  for (;;) {
+    auto found = known_libs_.find(current);
+    if (found == known_libs_.end()) return true;  // Unknown ? Be conservative.
+    // TODO: follow all libs we depend on ?
+    if (found->second.alwayslink) return true;
+    if (found->second.rule != "alias") return false;
+    if (!seen.insert(current).second) return true;  // Alias loop.
+    auto actual =
+      BazelTarget::ParseFrom(found->second.actual, current.package);
+    if (!actual.has_value()) return true;
+    current = *actual;
+  }
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
-- 
2.43.0


From 8be45790a3419810e6d51851a9796b716bb17f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 26/60] fix: dwyu does not remove dependencies if a header is
 only provided by libraries it can not use

---
 bant/tool/dwyu.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 8c608dd..d7a6c29 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -292,8 +292,11 @@ DWYUGenerator::DependenciesNeededBySources(
       }
     }
 
-    if (result_set.empty()) {  // Didn't need to add anything: nothing visible
+    if (result_set.empty()) {  // Nothing we could depend on.
       result.pop_back();
+      // The header has to come from somewhere: maybe through one of the
+      // current dependencies, so be careful suggesting removal of any of them.
+      *all_headers_accounted_for = false;
     }
   };
 
-- 
2.43.0


From bb0745f82d756d337938ce997376e3d04ff837e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 27/60] fix: dwyu does not add a target to its own dependencies

---
 bant/tool/dwyu.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index d7a6c29..139d97c 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -258,10 +258,6 @@ DWYUGenerator::DependenciesNeededBySources(
   std::ostream &info_out = session_.info();
   size_t total_size = 0;
 
-  // Already provided targets we don't need to emit anymore.
-  std::set<BazelTarget> already_provided;
-  already_provided.insert(target);
-
   // Log providers if super verbose -vvv
   auto maybe_log = [&](const NamedLineIndexedContent &source,
                        std::string_view inc_file,
@@ -284,6 +280,8 @@ DWYUGenerator::DependenciesNeededBySources(
   // include visible targets.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
+    if (alternatives.contains(target)) return;  // We provide that ourselves.
+
     // Add all visible targets.
     auto &result_set = result.emplace_back();
     for (const BazelTarget &t : alternatives) {
-- 
2.43.0


From c50dc31982aac65988659f1145dad60519d4cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 28/60] fix: dwyu looks at the includes of textual headers

---
 bant/tool/dwyu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 139d97c..c55f53f 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -440,6 +440,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
   query::AppendStringList(details.hdrs_list, sources);
+  query::AppendStringList(details.textual_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
   auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
-- 
2.43.0


From 49c31af93512fa8b8c52095e124d4c62af5ed025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 29/60] fix: dwyu honours visibility and testonly of
 cc_grpc_library()

---
 bant/tool/dwyu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index c55f53f..91911f2 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -147,6 +147,7 @@ void DWYUGenerator::InitKnownLibraries() {
     query::FindTargets(parsed_package->ast,
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
+                        "cc_grpc_library",
                         "cc_test"},  // also indexing test for testonly check.
                        [&](const query::Result &target) {
                          auto self =
-- 
2.43.0


From 5b6a33e951a7a842a663a400071d38320970e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 30/60] fix: dwyu does not add testonly dependencies to
 binaries, nor prefer them over usable ones

---
 bant/tool/dwyu-internal.h |  6 ++--
 bant/tool/dwyu.cc         | 73 ++++++++++++++++++++-------------------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..b2921f2 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -65,7 +65,8 @@ class DWYUGenerator {
 
   // Various predicates to check targets to make decisions to include/exclude.
   bool IsAlwayslink(const BazelTarget &target) const;
-  bool IsTestonlyCompatible(const BazelTarget &target,
+  bool IsTestonly(const BazelTarget &target) const;
+  bool IsTestonlyCompatible(const query::Result &target_detail,
                             const BazelTarget &dep) const;
   bool CanSee(const BazelTarget &target, const BazelTarget &dep) const;
 
@@ -77,7 +78,8 @@ class DWYUGenerator {
   // This is important as only then we can confidently suggest removals in that
   // target.
   std::vector<absl::btree_set<BazelTarget>> DependenciesNeededBySources(
-    const BazelTarget &target, const ParsedBuildFile &build_file,
+    const BazelTarget &target, const query::Result &target_detail,
+    const ParsedBuildFile &build_file,
     const std::vector<std::string_view> &sources,
     bool *all_headers_accounted_for);
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 91911f2..790f0ea 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -148,7 +148,7 @@ void DWYUGenerator::InitKnownLibraries() {
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
                         "cc_grpc_library",
-                        "cc_test"},  // also indexing test for testonly check.
+                        "cc_test"},
                        [&](const query::Result &target) {
                          auto self =
                            current_package.QualifiedTarget(target.name);
@@ -179,32 +179,26 @@ bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
   }
 }
 
-bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
-                                         const BazelTarget &dep) const {
-  const auto dependency_detail_found = known_libs_.find(dep);
-  if (dependency_detail_found == known_libs_.end()) return true;
-
-  const query::Result &dep_detail = dependency_detail_found->second;
-  if (!dep_detail.testonly) return true;  // non-testonly always compatible.
-
-  const auto target_detail_found = known_libs_.find(target);
-  if (target_detail_found == known_libs_.end()) {
-    return true;  // Should not happen, but let's not flag as issue.
-  }
-  const query::Result &target_detail = target_detail_found->second;
-  if (target_detail.testonly || target_detail.rule == "cc_test") {
-    return true;  // target and dependency are both tests.
+bool DWYUGenerator::IsTestonly(const BazelTarget &target) const {
+  // An alias of something testonly can only be used where that can be used.
+  std::set<BazelTarget> seen;
+  std::optional<BazelTarget> current = target;
+  while (current.has_value() && seen.insert(*current).second) {
+    auto found = known_libs_.find(*current);
+    if (found == known_libs_.end()) return false;
+    if (found->second.testonly) return true;
+    if (found->second.rule != "alias") return false;
+    current = BazelTarget::ParseFrom(found->second.actual, current->package);
   }
-
-  project_.Loc(session_.info(), target_detail.name)
-    << " '" << target << "' is using headers that would be provided by '" << dep
-    << "', but the latter is marked testonly, the former not. "
-    << "Not adding dependency.\n";
-  // TODO: print _what_ headers that is.
-
   return false;
 }
 
+bool DWYUGenerator::IsTestonlyCompatible(const query::Result &target_detail,
+                                         const BazelTarget &dep) const {
+  return target_detail.testonly || target_detail.rule == "cc_test" ||
+         !IsTestonly(dep);
+}
+
 // Visiblity check.
 bool DWYUGenerator::CanSee(const BazelTarget &target,
                            const BazelTarget &dep) const {
@@ -250,7 +244,8 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
 // TODO: needs to be shorter
 std::vector<absl::btree_set<BazelTarget>>
 DWYUGenerator::DependenciesNeededBySources(
-  const BazelTarget &target, const ParsedBuildFile &build_file,
+  const BazelTarget &target, const query::Result &target_detail,
+  const ParsedBuildFile &build_file,
   const std::vector<std::string_view> &sources,
   bool *all_headers_accounted_for) {
   Stat &source_read_stats = session_.GetStatsFor("read(C++ source)", "sources");
@@ -278,16 +273,19 @@ DWYUGenerator::DependenciesNeededBySources(
   };
 
   // Add alternatives to the result we return, but filtering to only
-  // include visible targets.
+  // include targets we are allowed to depend on.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
     if (alternatives.contains(target)) return;  // We provide that ourselves.
 
-    // Add all visible targets.
     auto &result_set = result.emplace_back();
+    std::vector<BazelTarget> testonly_mismatch;
     for (const BazelTarget &t : alternatives) {
-      if (CanSee(target, t)) {
+      if (!CanSee(target, t)) continue;
+      if (IsTestonlyCompatible(target_detail, t)) {
         result_set.insert(t);
+      } else {
+        testonly_mismatch.push_back(t);
       }
     }
 
@@ -296,6 +294,13 @@ DWYUGenerator::DependenciesNeededBySources(
       // The header has to come from somewhere: maybe through one of the
       // current dependencies, so be careful suggesting removal of any of them.
       *all_headers_accounted_for = false;
+      for (const BazelTarget &dep : testonly_mismatch) {
+        project_.Loc(session_.info(), target_detail.name)
+          << " '" << target << "' is using headers that would be provided by '"
+          << dep << "', but the latter is marked testonly, the former not. "
+          << "Not adding dependency.\n";
+        // TODO: print _what_ headers that is.
+      }
     }
   };
 
@@ -444,8 +449,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.textual_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
-  auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
-                                                 &all_header_deps_known);
+  auto deps_needed = DependenciesNeededBySources(
+    target, details, build_file, sources, &all_header_deps_known);
   deps_needed = MinimizeDependencySet(deps_needed);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
@@ -529,14 +534,10 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
       continue;
     }
 
+    // Only contains dependencies we're allowed to add.
     const BazelTarget &need_add = *need_add_alternatives.begin();
-    if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
-      emit_deps_edit_(EditRequest::kAdd, target, "",
-                      need_add.ToStringRelativeTo(target.package));
-    } else if (session_.flags().verbose > 1) {
-      project_.Loc(session_.info(), details.name)
-        << ": Would add " << need_add << ", but not visible\n";
-    }
+    emit_deps_edit_(EditRequest::kAdd, target, "",
+                    need_add.ToStringRelativeTo(target.package));
   }
 }
 
-- 
2.43.0


From 1a623ab145e8e654b20a000f411b3836bfbf9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 31/60] fix: dwyu keeps providers of a header if it can not
 decide what else to depend on

---
 bant/tool/dwyu.cc | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 790f0ea..1292c65 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -449,9 +449,9 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.textual_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
-  auto deps_needed = DependenciesNeededBySources(
+  const auto header_providers = DependenciesNeededBySources(
     target, details, build_file, sources, &all_header_deps_known);
-  deps_needed = MinimizeDependencySet(deps_needed);
+  auto deps_needed = MinimizeDependencySet(header_providers);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
     for (auto it = deps_needed.begin(); it != deps_needed.end(); ++it) {
@@ -471,6 +471,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Everything deps_needed
   // verify we actually need them. If not: remove.
   const auto deps = query::ExtractStringList(details.deps_list);
+  std::vector<std::pair<std::string_view, BazelTarget>> remove_candidates;
+  std::set<BazelTarget> user_wants_to_keep;
   for (const std::string_view dependency_target : deps) {
     const auto requested_target = BazelTarget::ParseFrom(dependency_target,  //
                                                          target.package);
@@ -506,13 +508,14 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     const bool potential_remove_suggestion_safe =
       all_header_deps_known && !IsAlwayslink(*requested_target);
 
-    // Emit the edits.
     if (potential_remove_suggestion_safe) {
       static const LazyRE2 kExcludeVetoUserCommentRe{"#.*keep"};
       const auto line = project_.GetSurroundingLine(dependency_target);
       if (session_.flags().ignore_keep_comment ||
           !RE2::PartialMatch(line, *kExcludeVetoUserCommentRe)) {
-        emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+        remove_candidates.emplace_back(dependency_target, *requested_target);
+      } else {
+        user_wants_to_keep.insert(*requested_target);
       }
     } else if (!all_header_deps_known && session_.flags().verbose > 1) {
       project_.Loc(session_.info(), dependency_target)
@@ -521,6 +524,30 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     }
   }
 
+  // If we can't decide between alternatives, nothing will be added that provides
+  // these headers, so a dependency that does can't go.
+  auto ProvidesUndecidedHeader = [&](const BazelTarget &dep) -> bool {
+    for (const auto &undecided : deps_needed) {
+      if (undecided.size() == 1) continue;  // Will be added.
+      for (const auto &providers : header_providers) {
+        if (providers.contains(dep) &&
+            std::includes(providers.begin(), providers.end(),
+                          undecided.begin(), undecided.end())) {
+          return true;
+        }
+      }
+    }
+    return false;
+  };
+
+  std::set<std::string_view> removed;  // Mention each only once.
+  for (const auto &[dependency_target, requested_target] : remove_candidates) {
+    if (user_wants_to_keep.contains(requested_target)) continue;
+    if (ProvidesUndecidedHeader(requested_target)) continue;
+    if (!removed.insert(dependency_target).second) continue;
+    emit_deps_edit_(EditRequest::kRemove, target, dependency_target, "");
+  }
+
   // Now, if there is still something we need, add them.
   for (const auto &need_add_alternatives : deps_needed) {
     // Only possible to auto-add if there is exactly one alternative.
-- 
2.43.0


From 6c11f40e55158dc7fa08126ce75739df38e6ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 32/60] fix: dwyu does not remove dependencies if it does not
 know all sources of a target

---
 bant/frontend/ast.h          |  5 +++++
 bant/frontend/elaboration.cc | 23 ++++++++++++++++++++---
 bant/tool/dwyu.cc            | 19 ++++++++++++++++++-
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..a0f0729 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -217,6 +217,10 @@ class List : public Node {
   size_t size() const { return list_.size(); }
   bool empty() const { return list_.size() == 0; }
 
+  // Evaluation only could determine some of the values in this list.
+  bool is_incomplete() const { return is_incomplete_; }
+  void set_incomplete() { is_incomplete_ = true; }
+
   void Append(Arena *arena, Node *value) { list_.Append(value, arena); }
   ArenaDeque<Node *>::iterator begin() { return list_.begin(); }
   ArenaDeque<Node *>::iterator end() { return list_.end(); }
@@ -232,6 +236,7 @@ class List : public Node {
   explicit List(Type t) : type_(t) {}
 
   const Type type_;
+  bool is_incomplete_ = false;
   ArenaDeque<Node *> list_;
 };
 
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 1477abd..4f2c19f 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -104,8 +104,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         // If there are undefined values on one side of the expression (e.g.
         // unknown variable), just return the part that is a list - it will
         // be better and more useful downstream.
-        if (left && !right) return left;
-        if (!left && right) return right;
+        if (left && !right) return IncompleteCopy(left);
+        if (!left && right) return IncompleteCopy(right);
 
         if (left && right && left->type() == right->type()) {
           return ConcatLists(left, right);
@@ -135,6 +135,16 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     for (Node *n : *right) {
       result->Append(project_->arena(), n);
     }
+    if (left->is_incomplete() || right->is_incomplete()) {
+      result->set_incomplete();
+    }
+    return result;
+  }
+
+  // Copy of a list that is known to be only part of the actual value.
+  List *IncompleteCopy(List *list) {
+    List *const result = ConcatLists(list, Make<List>(list->type()));
+    result->set_incomplete();
     return result;
   }
 
@@ -163,7 +173,11 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         if (!map_item || map_item->op() != ':') continue;
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
-          return map_item->right();
+          // Other conditions might result in other values.
+          Node *const value = map_item->right();
+          List *const list = value ? value->CastAsList() : nullptr;
+          if (list && select_map->size() > 1) return IncompleteCopy(list);
+          return value;
         }
       }
     }
@@ -230,6 +244,9 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     project_->RegisterLocationRange(glob_location_range,
                                     Make<FixedSourceLocator>(fun_location));
 
+    if (!include_list || include_list->is_incomplete()) {
+      glob_result_list->set_incomplete();
+    }
     return glob_result_list;
   }
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 1292c65..4f4e986 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -435,13 +435,30 @@ DWYUGenerator::DependenciesNeededBySources(
   return result;
 }
 
+// Check that we can look at all sources: expressions that can not or only
+// partially be evaluated might hide some of them.
+static bool AllSourcesKnown(const query::Result &details) {
+  for (Node *arg : *details.node->argument()) {
+    Assignment *const kwarg = arg ? arg->CastAsAssignment() : nullptr;
+    if (!kwarg || !kwarg->maybe_identifier()) continue;
+    const std::string_view name = kwarg->maybe_identifier()->id();
+    if (name != "srcs" && name != "hdrs" && name != "textual_hdrs") continue;
+    List *const list = kwarg->value() ? kwarg->value()->CastAsList() : nullptr;
+    if (!list || list->is_incomplete()) return false;
+    for (Node *element : *list) {
+      if (!element || !element->CastAsScalar()) return false;
+    }
+  }
+  return true;
+}
+
 void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
                                          const query::Result &details,
                                          const ParsedBuildFile &build_file) {
   // Looking at the include files the sources reference, map these back
   // to the dependencies that provide them: these are the deps we
   // needed.
-  bool all_header_deps_known = true;
+  bool all_header_deps_known = AllSourcesKnown(details);
 
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
-- 
2.43.0


From 506cf88754cbe9e9de3d86deab56c71d04b691ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 33/60] fix: labels of the main project are written with @// in
 external projects

---
 bant/types-bazel.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index f2c1149..8930d0d 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -170,8 +170,11 @@ std::string BazelTarget::ToString() const {
 
 std::string BazelTarget::ToStringRelativeTo(
   const BazelPackage &other_package) const {
-  if (other_package != package) return ToString();  // regular handling.
-  return absl::StrCat(":", target_name);
+  if (other_package == package) return absl::StrCat(":", target_name);
+  if (package.project.empty() && !other_package.project.empty()) {
+    return absl::StrCat("@", ToString());  // Main project seen from external.
+  }
+  return ToString();  // regular handling.
 }
 
 BazelPattern::BazelPattern() : kind_(MatchKind::kAlwaysMatch) {}
-- 
2.43.0


From 1d51b67e4a99848202a5c6b8beb1fa86c67d9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 34/60] fix: dwyu keeps deprecated providers of a header if it
 can not decide between the others

---
 bant/tool/dwyu-internal.h |  3 +++
 bant/tool/dwyu.cc         | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index b2921f2..fb5fd0b 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -75,12 +75,15 @@ class DWYUGenerator {
   // For some, there can be alternatives, so this is a vector of sets.
   // Report in "all_headers_accounted_for", that we found
   // a library for each of the headers we have seen.
+  // For each element in the result, "all_providers" also contains targets that
+  // provide the header but that we're not allowed to depend on.
   // This is important as only then we can confidently suggest removals in that
   // target.
   std::vector<absl::btree_set<BazelTarget>> DependenciesNeededBySources(
     const BazelTarget &target, const query::Result &target_detail,
     const ParsedBuildFile &build_file,
     const std::vector<std::string_view> &sources,
+    std::vector<absl::btree_set<BazelTarget>> *all_providers,
     bool *all_headers_accounted_for);
 
   void CreateEditsForTarget(const BazelTarget &target,
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 4f4e986..f2119f3 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -247,6 +247,7 @@ DWYUGenerator::DependenciesNeededBySources(
   const BazelTarget &target, const query::Result &target_detail,
   const ParsedBuildFile &build_file,
   const std::vector<std::string_view> &sources,
+  std::vector<absl::btree_set<BazelTarget>> *all_providers,
   bool *all_headers_accounted_for) {
   Stat &source_read_stats = session_.GetStatsFor("read(C++ source)", "sources");
   Stat &source_grep_stats = session_.GetStatsFor("Grep'ed for #inc", "sources");
@@ -289,7 +290,9 @@ DWYUGenerator::DependenciesNeededBySources(
       }
     }
 
-    if (result_set.empty()) {  // Nothing we could depend on.
+    if (!result_set.empty()) {
+      all_providers->push_back(alternatives);
+    } else {  // Nothing we could depend on.
       result.pop_back();
       // The header has to come from somewhere: maybe through one of the
       // current dependencies, so be careful suggesting removal of any of them.
@@ -466,9 +469,11 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.textual_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
-  const auto header_providers = DependenciesNeededBySources(
-    target, details, build_file, sources, &all_header_deps_known);
-  auto deps_needed = MinimizeDependencySet(header_providers);
+  std::vector<absl::btree_set<BazelTarget>> all_providers;
+  const auto usable_providers = DependenciesNeededBySources(
+    target, details, build_file, sources, &all_providers,
+    &all_header_deps_known);
+  auto deps_needed = MinimizeDependencySet(usable_providers);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
     for (auto it = deps_needed.begin(); it != deps_needed.end(); ++it) {
@@ -546,9 +551,10 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   auto ProvidesUndecidedHeader = [&](const BazelTarget &dep) -> bool {
     for (const auto &undecided : deps_needed) {
       if (undecided.size() == 1) continue;  // Will be added.
-      for (const auto &providers : header_providers) {
-        if (providers.contains(dep) &&
-            std::includes(providers.begin(), providers.end(),
+      for (size_t i = 0; i < usable_providers.size(); ++i) {
+        const auto &usable = usable_providers[i];
+        if (all_providers[i].contains(dep) &&
+            std::includes(usable.begin(), usable.end(),  //
                           undecided.begin(), undecided.end())) {
           return true;
         }
-- 
2.43.0


From 9b631d37b6632f96529037b1c821758efcc81a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 35/60] fix: quote labels and targets in buildozer commands for
 the shell

---
 bant/tool/edit-callback.cc | 45 ++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/bant/tool/edit-callback.cc b/bant/tool/edit-callback.cc
index 77d6a19..4cf14b8 100644
--- a/bant/tool/edit-callback.cc
+++ b/bant/tool/edit-callback.cc
@@ -18,24 +18,61 @@
 #include "bant/tool/edit-callback.h"
 
 #include <ostream>
+#include <string>
 #include <string_view>
 
 #include "bant/types-bazel.h"
 
 namespace bant {
+namespace {
+// Label as one argument inside a single-quoted buildozer command: buildozer
+// splits at blanks unless escaped, the shell needs special care of quotes.
+std::string QuoteLabel(std::string_view label) {
+  std::string result;
+  for (const char c : label) {
+    switch (c) {
+    case '\'': result.append("'\\''"); break;
+    case ' ': result.append("\\ "); break;
+    default: result.push_back(c);
+    }
+  }
+  return result;
+}
+
+// Target as argument for the shell. Only put in quotes if needed.
+std::string QuoteTarget(const BazelTarget &target) {
+  static constexpr std::string_view kUnquotedOk =
+    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
+    "@/:._-+=,~";
+  const std::string str = target.ToString();
+  if (str.find_first_not_of(kUnquotedOk) == std::string::npos) return str;
+  std::string result("'");
+  for (const char c : str) {
+    if (c == '\'') {
+      result.append("'\\''");
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result.append("'");
+}
+}  // namespace
+
 EditCallback CreateBuildozerDepsEditCallback(std::ostream &out) {
   return [&out](EditRequest edit, const BazelTarget &target,
                 std::string_view before, std::string_view after) {
     switch (edit) {
     case EditRequest::kRemove:
-      out << "buildozer 'remove deps " << before << "' " << target << "\n";
+      out << "buildozer 'remove deps " << QuoteLabel(before) << "' "
+          << QuoteTarget(target) << "\n";
       break;
     case EditRequest::kAdd:
-      out << "buildozer 'add deps " << after << "' " << target << "\n";
+      out << "buildozer 'add deps " << QuoteLabel(after) << "' "
+          << QuoteTarget(target) << "\n";
       break;
     case EditRequest::kRename:
-      out << "buildozer 'replace deps " << before << " " << after << "' "
-          << target << "\n";
+      out << "buildozer 'replace deps " << QuoteLabel(before) << " "
+          << QuoteLabel(after) << "' " << QuoteTarget(target) << "\n";
       break;
     }
   };
-- 
2.43.0


From 5dee24dd979954fea37072eddcd503e88c8cc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 36/60] fix: write the compilation database as valid JSON

---
 bant/tool/BUILD             |  1 +
 bant/tool/compilation-db.cc | 10 +++++++---
 bant/util/table-printer.cc  | 29 ++++++++++++++---------------
 bant/util/table-printer.h   |  4 ++++
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/bant/tool/BUILD b/bant/tool/BUILD
index 6cca9cc..0b0c899 100644
--- a/bant/tool/BUILD
+++ b/bant/tool/BUILD
@@ -112,6 +112,7 @@ cc_library(
         "//bant/explore:query-utils",
         "//bant/frontend:parsed-project",
         "//bant/util:file-utils",
+        "//bant/util:table-printer",
         "@abseil-cpp//absl/container:flat_hash_set",
         "@abseil-cpp//absl/strings",
         "@re2",
diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..1618f89 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -35,6 +35,7 @@
 #include "bant/session.h"
 #include "bant/types-bazel.h"
 #include "bant/util/file-utils.h"
+#include "bant/util/table-printer.h"
 #include "bant/workspace.h"
 #include "re2/re2.h"
 
@@ -45,7 +46,7 @@ struct q {
   std::string_view value;
 };
 std::ostream &operator<<(std::ostream &out, const q &quoted_str) {
-  out << "\"" << quoted_str.value << "\"";
+  out << "\"" << JsonEscape(quoted_str.value) << "\"";
   return out;
 }
 
@@ -261,7 +262,9 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
   for (const auto src : sources) {
     const std::string abs_src =
       package.FullyQualifiedFile(project.workspace(), src);
+    const bool is_first = already_written->empty();
     if (!already_written->insert(abs_src).second) continue;
+    if (!is_first) out << ",\n";
     out << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
     out << "    " << q{"arguments"} << ": [\n";
@@ -270,10 +273,10 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
       out << "      " << q{option} << ",\n";
     }
     out << external_inc_json;
-    out << "      " << q{"-c"} << ", " << q{abs_src} << ",\n";
+    out << "      " << q{"-c"} << ", " << q{abs_src} << "\n";
     out << "     ],\n";
     out << "     " << q{"directory"} << ": " << q{cwd} << "\n";
-    out << "  },\n";
+    out << "  }";
   }
 }
 
@@ -309,6 +312,7 @@ static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                 cwd, external_inc_json, &already_written, out);
       });
   }
+  if (!already_written.empty()) out << "\n";
   out << "]\n";
 }
 
diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index 7077064..97b587b 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -145,21 +145,6 @@ class SExprTablePrinter : public TablePrinter {
   bool row_printed_ = false;
 };
 
-// Escape according to JSON rules; non-ASCII characters don't need escaping.
-std::string JsonEscape(std::string_view str) {
-  std::string result;
-  for (const char c : str) {
-    if (c == '"' || c == '\\') {
-      result.append(1, '\\').append(1, c);
-    } else if (static_cast<unsigned char>(c) < 0x20) {
-      absl::StrAppendFormat(&result, "\\u%04x", c);
-    } else {
-      result.append(1, c);
-    }
-  }
-  return result;
-}
-
 class JSonTablePrinter : public TablePrinter {
  public:
   JSonTablePrinter(std::ostream &out, const std::vector<std::string> &headers)
@@ -246,6 +231,20 @@ class CSVTablePrinter : public TablePrinter {
 };
 }  // namespace
 
+std::string JsonEscape(std::string_view str) {
+  std::string result;
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.append(1, '\\').append(1, c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppendFormat(&result, "\\u%04x", c);
+    } else {
+      result.append(1, c);
+    }
+  }
+  return result;
+}
+
 std::unique_ptr<TablePrinter> TablePrinter::Create(
   std::ostream &out, OutputFormat format,
   const std::vector<std::string> &headers) {
diff --git a/bant/util/table-printer.h b/bant/util/table-printer.h
index f11dcc0..74fe8b2 100644
--- a/bant/util/table-printer.h
+++ b/bant/util/table-printer.h
@@ -21,11 +21,15 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "bant/output-format.h"
 
 namespace bant {
+// Escape according to JSON rules; non-ASCII characters don't need escaping.
+std::string JsonEscape(std::string_view str);
+
 class TablePrinter {
  public:
   // Table with the folllowing header names. Number of headers determines
-- 
2.43.0


From c75b1e961f49404f7c1799209931ffbc492d26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 37/60] fix: compilation-db does not crash with include_prefix
 in the main project

---
 bant/tool/compilation-db.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 1618f89..6abb1cf 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -166,6 +166,8 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
       {"cc_library", "cc_binary", "cc_test", "proto_library"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
+        if (!target.has_value()) return;
+
         // If we're one of those targets that come with the own -I prefix,
         // add all these.
         const auto inc_dirs = query::ExtractStringList(details.includes_list);
@@ -185,9 +187,14 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
           // to use this feature.
           const std::string_view external_project = target->package.project;
           const std::string_view target_path = target->package.path;
-          const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
-            "/_virtual_includes/", target->target_name);
+          const std::string base_dir =
+            external_project.empty()
+              ? "bazel-bin/"
+              : absl::StrCat("bazel-bin/external/", external_project.substr(1),
+                             "/");
+          const std::string virt_incdir =
+            absl::StrCat(base_dir, target_path, "/_virtual_includes/",
+                         target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
           }
-- 
2.43.0


From 761364f91275a3cd7df41aa422957854c051e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 38/60] fix: compilation-db lists external projects that are
 only referred to by aliases

---
 bant/tool/compilation-db.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 6abb1cf..34c4290 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -163,7 +163,7 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
     const BazelPackage &current_package = parsed_package->package;
     query::FindTargets(
       parsed_package->ast,
-      {"cc_library", "cc_binary", "cc_test", "proto_library"},
+      {"cc_library", "cc_binary", "cc_test", "proto_library", "alias"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
         if (!target.has_value()) return;
@@ -206,7 +206,8 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
 
         // Now, let's check out the dependencies and see that all of the
         // referenced external projects are covered.
-        const auto deps = query::ExtractStringList(details.deps_list);
+        auto deps = query::ExtractStringList(details.deps_list);
+        if (!details.actual.empty()) deps.push_back(details.actual);
         for (const std::string_view dependency_target : deps) {
           auto requested_dep =
             BazelTarget::ParseFrom(dependency_target, current_package);
-- 
2.43.0


From 1e0c94c8636db4edc86f0677982c735558432edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 39/60] fix: compile options of special configurations
 (build:asan) or in comments of .bazelrc are not used

---
 bant/tool/compilation-db.cc | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 34c4290..dfa2ee2 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -20,6 +20,7 @@
 
 #include "bant/tool/compilation-db.h"
 
+#include <algorithm>
 #include <filesystem>
 #include <ostream>
 #include <set>
@@ -30,6 +31,7 @@
 
 #include "absl/container/flat_hash_set.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_split.h"
 #include "bant/explore/query-utils.h"
 #include "bant/frontend/parsed-project.h"
 #include "bant/session.h"
@@ -68,27 +70,37 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
   // Hack: for cxx options that start with dash (to avoid picking up options
   // meant for Windows that start with slash (we don't do system-specific
   // evaluation)
-  // Need to be a space after build|test so that we don't capture special
-  // configurations such as build:asan.
   static const LazyRE2 kCxxExtract{
     R"/(--(?:host_)?cxxopt\s*=?\s*['"]?(-[^\s"']+))/"};
   std::vector<std::string> result;
-  const auto bazelrc = ReadFileToString(FilesystemPath(".bazelrc"));
-  if (!bazelrc.has_value()) return result;
-
-  std::string_view run(*bazelrc);
-  std::string_view cxx_opt;
   absl::flat_hash_set<std::string_view> already_seen;
 
-  while (RE2::FindAndConsume(&run, *kCxxExtract, &cxx_opt)) {
-    if (already_seen.insert(cxx_opt).second) {
-      result.emplace_back(cxx_opt);
+  bool is_continued = false;
+  bool is_relevant = true;
+  for (std::string_view line : absl::StrSplit(content, '\n')) {
+    // Only consider generic commands such as build|test, not comments and
+    // special configurations such as build:asan.
+    if (!is_continued) {
+      std::string_view command = line;
+      command.remove_prefix(
+        std::min(command.find_first_not_of(" \t"), command.size()));
+      command = command.substr(0, command.find_first_of(" \t"));
+      is_relevant = !command.starts_with('#') && !command.contains(':');
+    }
+    is_continued = line.ends_with('\\');
+    if (!is_relevant) continue;
+
+    std::string_view cxx_opt;
+    while (RE2::FindAndConsume(&line, *kCxxExtract, &cxx_opt)) {
+      if (already_seen.insert(cxx_opt).second) {
+        result.emplace_back(cxx_opt);
+      }
     }
   }
 
   // Hack: when this is defined, this implies -DGTEST_HAS_ABSL
   static const LazyRE2 kAbslGtest{"define.*absl=1"};
-  if (RE2::PartialMatch(*bazelrc, *kAbslGtest)) {
+  if (RE2::PartialMatch(content, *kAbslGtest)) {
     result.emplace_back("-DGTEST_HAS_ABSL=1");
   }
 
-- 
2.43.0


From 941c9bbeecd49c930355298b5da1f7604f7bd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 40/60] fix: unknown command line options are an error

---
 bant/bant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 18e9f54..072de79 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -209,7 +209,8 @@ int main(int argc, char *argv[]) {
     } break;
     case 'v': flags.verbose++; break;  // More -v, more detail.
     case 'V': return print_version();
-    default: return usage(argv[0], nullptr, EXIT_SUCCESS);
+    case 'h': return usage(argv[0], nullptr, EXIT_SUCCESS);
+    default: return usage(argv[0], nullptr, EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From 452facfc031df4518cb264e80e9613d24a38ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 41/60] fix: report if the output can not be written

---
 bant/bant.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index 072de79..4289095 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -244,5 +244,11 @@ int main(int argc, char *argv[]) {
       std::cerr << subsystem << " " << *session.stat(subsystem) << "\n";
     }
   }
+
+  primary_out->flush();
+  if (!primary_out->good()) {
+    std::cerr << "Could not write output\n";
+    return EXIT_FAILURE;
+  }
   return static_cast<int>(result);
 }
-- 
2.43.0


From 2adeb3dc73bf831d2a784ddb4d9ca597b83f22f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 42/60] fix: no terminal colors in the output written to a file

---
 bant/bant.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bant/bant.cc b/bant/bant.cc
index 4289095..6f2ae7e 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -169,6 +169,7 @@ int main(int argc, char *argv[]) {
     case 'o':  //
       if (std::string_view(optarg) == "-") {
         primary_out = &std::cout;
+        flags.do_color = isatty(STDOUT_FILENO);
         break;
       }
       user_primary_out.reset(new std::fstream(
@@ -178,6 +179,7 @@ int main(int argc, char *argv[]) {
         return 1;
       }
       primary_out = user_primary_out.get();
+      flags.do_color = false;
       break;
 
     case 'r':
-- 
2.43.0


From 00e3d91143f5180dc5d2c0b7f31a204bf72f41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 43/60] fix: crash with incomplete expressions after a parse
 error

---
 bant/frontend/ast.h          | 9 ++++++++-
 bant/frontend/elaboration.cc | 8 +++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index a0f0729..a9b1217 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -221,7 +221,14 @@ class List : public Node {
   bool is_incomplete() const { return is_incomplete_; }
   void set_incomplete() { is_incomplete_ = true; }
 
-  void Append(Arena *arena, Node *value) { list_.Append(value, arena); }
+  // Elements that could not be parsed are nullptr: list is then incomplete.
+  void Append(Arena *arena, Node *value) {
+    if (value == nullptr) {
+      set_incomplete();
+      return;
+    }
+    list_.Append(value, arena);
+  }
   ArenaDeque<Node *>::iterator begin() { return list_.begin(); }
   ArenaDeque<Node *>::iterator end() { return list_.end(); }
 
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 4f2c19f..7dc3373 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -79,7 +79,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitAssignment(Assignment *a) final {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
-    if (nest_level_ == 0 && a->maybe_identifier()) {
+    if (nest_level_ == 0 && a->maybe_identifier() && a->value()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
     }
     return result;
@@ -96,6 +96,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
+    if (!bin_op->left() || !bin_op->right()) return bin_op;  // parse error
     switch (bin_op->op()) {
     case '+': {
       {
@@ -171,11 +172,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
       for (Node *item : *select_map) {
         BinOpNode *map_item = item->CastAsBinOp();
         if (!map_item || map_item->op() != ':') continue;
+        if (!map_item->left() || !map_item->right()) continue;  // parse error
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
           // Other conditions might result in other values.
           Node *const value = map_item->right();
-          List *const list = value ? value->CastAsList() : nullptr;
+          List *const list = value->CastAsList();
           if (list && select_map->size() > 1) return IncompleteCopy(list);
           return value;
         }
@@ -194,7 +196,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-        if (!kwarg->maybe_identifier()) continue;
+        if (!kwarg->maybe_identifier() || !kwarg->value()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
-- 
2.43.0


From 731c55c1c66d7cfa0a71186e3fa64f70bd06a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 44/60] fix: member access binds tighter than the other
 operators

---
 bant/frontend/parser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index e6464d8..bd779bc 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -306,7 +306,7 @@ class Parser::Impl {
     }
     if (n == nullptr) return n;
 
-    for (;;) {  // The array access is the only one who can continue.
+    for (;;) {  // Array and member access are the ones who can continue.
       const Token upcoming = scanner_->Peek();
       if (upcoming.type == TokenType::kIf) {
         return ParseIfElse(n);
@@ -330,11 +330,16 @@ class Parser::Impl {
       case TokenType::kAnd:
       case TokenType::kOr:
       case TokenType::kPipeOrBitwiseOr:
-      case '.':    // scoped invocation
       case '%': {  // format expr.
         const Token op = scanner_->Next();
         return Make<BinOpNode>(n, ParseExpression(), op.type, op.text);
       }
+      case '.': {  // scoped invocation. Binds tighter than other operators.
+        const Token op = scanner_->Next();
+        Node *const member = ParseValueOrIdentifier(/*can_be_optional=*/false);
+        n = Make<BinOpNode>(n, member, op.type, op.text);
+        break;
+      }
       case '[': {
         if (upcoming.newline_since_last_token) {  // new toplevel construct.
           return n;
-- 
2.43.0


From 217e54b9218318a598d143781c26494c3d792f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 45/60] fix: deeply nested expressions are a parse error, not a
 stack overflow

---
 bant/frontend/parser.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index bd779bc..54450ca 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -21,6 +21,7 @@
 
 #include "bant/frontend/parser.h"
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include <iostream>
@@ -86,6 +87,7 @@ class Parser::Impl {
     LOG_INIT(scanner_);
     List *const statement_list = Make<List>(List::Type::kList);
     while (!error_) {
+      deepest_nesting_ = 0;
       const Token tok = scanner_->Next();
       if (tok.type == kEof) {
         return statement_list;
@@ -290,7 +292,27 @@ class Parser::Impl {
     }
   }
 
+  // Subtrees are visited recursively, so too many levels of them would
+  // exhaust the stack. Report and return 'true' if that is the case.
+  bool NestedTooDeeply() {
+    static constexpr int kMaxNesting = 1000;
+    if (deepest_nesting_ <= kMaxNesting) return false;
+    if (!error_) ErrAt(scanner_->Peek()) << "expression nested too deeply\n";
+    return true;
+  }
+
   Node *ParseExpression(bool can_be_optional = false) {
+    LOG_ENTER();
+    const int deepest_before = deepest_nesting_;
+    deepest_nesting_ = ++nesting_;
+    Node *const result =
+      NestedTooDeeply() ? nullptr : ParseUnnestedExpression(can_be_optional);
+    --nesting_;
+    deepest_nesting_ = std::max(deepest_nesting_, deepest_before);
+    return result;
+  }
+
+  Node *ParseUnnestedExpression(bool can_be_optional) {
     LOG_ENTER();
     Node *n;
 
@@ -308,6 +330,7 @@ class Parser::Impl {
 
     for (;;) {  // Array and member access are the ones who can continue.
       const Token upcoming = scanner_->Peek();
+      if (NestedTooDeeply()) return nullptr;
       if (upcoming.type == TokenType::kIf) {
         return ParseIfElse(n);
       }
@@ -338,6 +361,7 @@ class Parser::Impl {
         const Token op = scanner_->Next();
         Node *const member = ParseValueOrIdentifier(/*can_be_optional=*/false);
         n = Make<BinOpNode>(n, member, op.type, op.text);
+        ++deepest_nesting_;  // What we have so far moved one level down.
         break;
       }
       case '[': {
@@ -346,6 +370,7 @@ class Parser::Impl {
         }
         const Token op = scanner_->Next();  // '[' operation.
         n = Make<BinOpNode>(n, ParseArrayOrSliceAccess(), op.type, op.text);
+        ++deepest_nesting_;
         // Suffix expression, maybe there is more. Don't return, continue.
         break;
       }
@@ -512,6 +537,8 @@ class Parser::Impl {
       for_tree = Make<BinOpNode>(iterate_target, range, TokenType::kFor,
                                  start_of_for.text);
       iterate_target = for_tree;  // Nested loops.
+      ++deepest_nesting_;
+      if (NestedTooDeeply()) return nullptr;
     }
 
     const Token end_tok = scanner_->Next();
@@ -561,6 +588,8 @@ class Parser::Impl {
   const std::string_view filename_;
   std::ostream &err_out_;
   bool error_ = false;
+  int nesting_ = 0;          // Levels of expressions currently being parsed.
+  int deepest_nesting_ = 0;  // Levels needed by what has been parsed so far.
 };
 
 Parser::Parser(Scanner *token_source, Arena *allocator, std::ostream &err_out)
-- 
2.43.0


From c28f46827eab47ded54bff7e9d3c1a54a147f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 46/60] fix: crash if the cache directory can not be looked at

---
 bant/util/filesystem-prewarm-cache.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a0db78d..a2b0fed 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -162,10 +162,10 @@ void FilesystemPrewarmCacheInit(int argc, char *argv[]) {
   const char *homedir = getenv("HOME");
   if (!homedir) return;
   const std::string cache_dir = absl::StrCat(homedir, "/.cache/bant");
-  if (!std::filesystem::is_directory(cache_dir)) return;  // no dir, no cache.
+  std::error_code err;
+  if (!std::filesystem::is_directory(cache_dir, err)) return;  // no cache.
 
   // Make filename unique to match cwd and arguments.
-  std::error_code err;
   auto cwd = std::filesystem::current_path(err);
   uint64_t argument_dependent_hash = std::hash<std::string>()(cwd.string());
   for (int i = 1; i < argc; ++i) {
-- 
2.43.0


From 2f925a3bbb25f82e35233b5776f2ea93da3583f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 47/60] fix: members, function names and loop variables are no
 global variables

Variable values were also substituted for the name after a '.', the name
of a function, and for loop variables of list comprehensions.
---
 bant/frontend/ast.h          |  6 +++++-
 bant/frontend/elaboration.cc | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index a9b1217..f1047d6 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -405,7 +405,11 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // The function name is always an identifier.
+    if (Node *const walk_result = WalkNonNull(f->left_);
+        walk_result && walk_result->CastAsIdentifier()) {
+      f->left_ = walk_result;
+    }
     ReplaceWalk(&f->right_);
     return f;
   }
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 7dc3373..0686e33 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -60,7 +60,10 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitFunCall(FunCall *f) final {
     const NestCounter c(&nest_level_);
+    const bool is_member = (f == member_);
+    if (is_member) member_ = f->identifier();
     BaseNodeReplacementVisitor::VisitFunCall(f);
+    if (is_member) return f;  // Function of some object, not the builtin.
     const std::string_view fun_name = f->identifier()->id();
     if (fun_name == "glob") {
       return HandleGlob(f);
@@ -87,13 +90,27 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   // Variable substituion with value if known.
   Node *VisitIdentifier(Identifier *i) final {
+    if (i == member_ || loop_variables_.contains(i->id())) return i;
     auto found = global_variables_.find(i->id());
     return found != global_variables_.end() ? found->second : i;
   }
 
+  // Within the comprehension, loop variables hide global variables.
+  Node *VisitListComprehension(ListComprehension *lh) final {
+    const auto outer_loop_variables = loop_variables_;
+    CollectLoopVariables(lh->for_node());
+    Node *const result = BaseNodeReplacementVisitor::VisitListComprehension(lh);
+    loop_variables_ = outer_loop_variables;
+    return result;
+  }
+
   // Very narrow of operations actually supported. Only what we typically need.
   Node *VisitBinOpNode(BinOpNode *b) final {
+    Node *const outer_member = member_;
+    // Name after '.' is not a variable. Anything else starts fresh.
+    member_ = (b->op() == '.') ? b->right() : nullptr;
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
+    member_ = outer_member;
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
     if (!bin_op->left() || !bin_op->right()) return bin_op;  // parse error
@@ -128,6 +145,18 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
  private:
+  // See Parser::Impl::ParseComprehensionFor() for the shape of this tree.
+  void CollectLoopVariables(Node *n) {
+    for (BinOpNode *f = n ? n->CastAsBinOp() : nullptr;
+         f && f->op() == TokenType::kFor;
+         f = f->left() ? f->left()->CastAsBinOp() : nullptr) {
+      BinOpNode *const range = f->right()->CastAsBinOp();
+      for (Node *variable : *range->left()->CastAsList()) {
+        loop_variables_.insert(variable->CastAsIdentifier()->id());
+      }
+    }
+  }
+
   List *ConcatLists(List *left, List *right) {
     List *result = Make<List>(left->type());
     for (Node *n : *left) {
@@ -300,6 +329,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   ParsedProject *const project_;
   const BazelPackage &package_;
   int nest_level_ = 0;
+  Node *member_ = nullptr;  // What follows the '.' we're currently visiting.
+  absl::flat_hash_set<std::string_view> loop_variables_;
   absl::flat_hash_map<std::string_view, Node *> global_variables_;
   absl::flat_hash_set<std::string> conditions_;
 };
-- 
2.43.0


From b829ce0df3ff324b3f902faeb7cb8a6404316ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 48/60] fix: tuple assignment kept the previous value of a
 variable

---
 bant/frontend/elaboration.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 0686e33..8be08ef 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -84,6 +84,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
     if (nest_level_ == 0 && a->maybe_identifier() && a->value()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
+    } else if (List *ids = a->left() ? a->left()->CastAsList() : nullptr) {
+      for (Node *id : *ids) {  // Tuple assignment. Values now unknown.
+        if (id->CastAsIdentifier()) {
+          global_variables_.erase(id->CastAsIdentifier()->id());
+        }
+      }
     }
     return result;
   }
-- 
2.43.0


From 63537dffe2623cba911b8541140a67810f84bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 49/60] fix: concatenation of raw and triple quoted strings

The result was always a regular string, so a backslash in a raw string or
a quote or newline in a triple quoted one changed its meaning.
---
 bant/frontend/elaboration.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 8be08ef..69be579 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -140,8 +140,11 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         Scalar *right = bin_op->right()->CastAsScalar();
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
-          return ConcatStrings(project_->GetLocation(bin_op->source_range()),
-                               left->AsString(), right->AsString());
+          Node *const result =
+            ConcatStrings(project_->GetLocation(bin_op->source_range()),
+                          *static_cast<StringScalar *>(left),
+                          *static_cast<StringScalar *>(right));
+          return result ? result : bin_op;
         }
       }
       return bin_op;  // Unimplemented op. Return as-is.
@@ -184,8 +187,22 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
+  // Returns nullptr if there is no string representing the concatenation.
   StringScalar *ConcatStrings(const FileLocation &op_location,
-                              std::string_view left, std::string_view right) {
+                              const StringScalar &lhs,
+                              const StringScalar &rhs) {
+    const std::string_view left = lhs.AsString();
+    const std::string_view right = rhs.AsString();
+    const bool is_triple_quoted =
+      lhs.is_triple_quoted() || rhs.is_triple_quoted();
+    bool is_raw = lhs.is_raw();
+    if (lhs.is_raw() != rhs.is_raw()) {
+      // Without any backslash, raw and regular strings mean the same.
+      const StringScalar &raw_string = lhs.is_raw() ? lhs : rhs;
+      const StringScalar &regular_string = lhs.is_raw() ? rhs : lhs;
+      is_raw = raw_string.AsString().contains('\\');
+      if (is_raw && regular_string.AsString().contains('\\')) return nullptr;
+    }
     const size_t new_length = left.size() + right.size();
     char *new_str = static_cast<char *>(project_->arena()->Alloc(new_length));
     memcpy(new_str, left.data(), left.size());
@@ -197,7 +214,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     project_->RegisterLocationRange(assembled,
                                     Make<FixedSourceLocator>(op_location));
 
-    return Make<StringScalar>(assembled, false, false);
+    return Make<StringScalar>(assembled, is_triple_quoted, is_raw);
   }
 
   Node *HandleSelect(FunCall *fun) {
-- 
2.43.0


From 6fd6bd4db5a203f5852c793526ecc5dc32021d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 50/60] fix: run-clang-tidy-cached remembered the output of a
 crashed clang-tidy

---
 scripts/run-clang-tidy-cached.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..521189e 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -268,6 +268,11 @@ class ClangTidyRunner {
             (WTERMSIG(r) == SIGINT || WTERMSIG(r) == SIGQUIT)) {
           break;  // got Ctrl-C
         }
+        if (WIFSIGNALED(r) || (WIFEXITED(r) && WEXITSTATUS(r) > 125)) {
+          std::error_code ignored_error;
+          fs::remove(tmp_out, ignored_error);
+          continue;  // Crashed or could not run. Try again next time.
+        }
         // NOLINTEND
 #endif
         RepairFilenameOccurences(tmp_out, tmp_out);
-- 
2.43.0


From c49315b914aeaf83c899ecd178309574c9741d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 51/60] fix: run-clang-tidy-cached in directories with special
 characters

It crashed in a directory such as "src (1)".
---
 scripts/run-clang-tidy-cached.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 521189e..85850e4 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -333,6 +333,12 @@ class ClangTidyRunner {
                                 ToHex(cache_unique_id, 8));
   }
 
+  // Regular expression that matches the given text literally.
+  static std::string QuoteRegex(const std::string &text) {
+    static const std::regex special_chars(R"([\^$.|?*+(){}\[\]\\])");
+    return std::regex_replace(text, special_chars, R"(\$&)");
+  }
+
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
@@ -344,10 +350,10 @@ class ClangTidyRunner {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += QuoteRegex(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr += QuoteRegex(fs::current_path().string()) + "/";  // $(pwd)/
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 483312ca6233b2cab69355cff60ce85cb24663f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 52/60] fix: run-clang-tidy-cached did not count checks with
 digits or aliases

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 85850e4..d331f57 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -453,7 +453,7 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re("(\\[[a-zA-Z0-9.,_-]+\\])\n");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From 133e6026f2760de9928f5027625eec2d8a74c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 53/60] fix: run-clang-tidy-cached missed changes in headers
 such as x.pb.h

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index d331f57..a52d5f5 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -416,7 +416,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s+"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
       work_file.second = hashContent(content);
-- 
2.43.0


From f5b6d257ee85a1ccb65ac094351977f1f759ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 54/60] fix: collisions of content hashes in
 run-clang-tidy-cached

The xor of hashes did not change if headers swapped their content or got
included twice. Two identical files of the same name in different
directories shared the result of one of them, or made the script crash as
both were writing the same temporary file.
---
 scripts/run-clang-tidy-cached.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index a52d5f5..db7ec47 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -405,9 +405,10 @@ class FileGatherer {
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes).
+        // accomodate all of them by xor-ing the hashes of path and content).
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        const std::string path_and_content = file + "\n" + GetContent(p);
+        header_hashes[just_basename] ^= hashContent(path_and_content);
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -419,19 +420,21 @@ class FileGatherer {
         R"""(#\s*include\s+"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
-      work_file.second = hashContent(content);
+      // The path is part of it, as it shows up in the output.
+      std::string to_hash = work_file.first.string() + "\n" + content;
       if (kConfig.revisit_if_any_include_changes) {
-        // Update the hash with all the hashes from all include files.
+        // Make hash also depend on all the hashes from all include files.
         for (ReIt it(content.begin(), content.end(), inc_re); it != ReIt();
              ++it) {
           const std::string &header_path = (*it)[1].str();
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            to_hash.append(ToHex(found->second));
           }
         }
       }
+      work_file.second = hashContent(to_hash);
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
       if (store_.NeedsRefresh(work_file, min_freshness)) {
-- 
2.43.0


From 25fdb6b3e423a46d8c7c271776f8ed87b7b14857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 55/60] fix: raw strings with both kinds of quotes were printed
 with additional backslashes

---
 bant/frontend/print-visitor.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 5cef821..ce9a541 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -171,12 +171,17 @@ static bool CanBeQuotedWith(std::string_view content, char quote, bool triple) {
   return unescaped_quotes == 0;  // Would merge with closing quotes.
 }
 
-static std::string EscapeQuotes(std::string_view content, char quote) {
+// In raw content, backslashes are regular characters, so escape them as well.
+static std::string EscapeQuotes(std::string_view content, char quote,
+                                bool is_raw) {
   std::string result;
   for (size_t i = 0; i < content.size(); ++i) {
     if (content[i] == quote) result.push_back('\\');
     result.push_back(content[i]);
-    if (content[i] == '\\' && i + 1 < content.size()) {
+    if (content[i] != '\\') continue;
+    if (is_raw) {
+      result.push_back('\\');
+    } else if (i + 1 < content.size()) {
       result.push_back(content[++i]);
     }
   }
@@ -192,7 +197,7 @@ void PrintVisitor::VisitScalar(Scalar *s) {
     }
   } else {
     const StringScalar *str = static_cast<StringScalar *>(s);
-    if (str->is_raw()) out_ << "r";
+    bool is_raw = str->is_raw();
     const bool triple = str->is_triple_quoted();
     std::string_view content = str->AsString();
     std::string escaped;
@@ -201,10 +206,12 @@ void PrintVisitor::VisitScalar(Scalar *s) {
       if (CanBeQuotedWith(content, '\'', triple)) {
         quote_char = '\'';
       } else {  // Can happen in concatenated strings: need to escape.
-        escaped = EscapeQuotes(content, quote_char);
+        escaped = EscapeQuotes(content, quote_char, is_raw);
         content = escaped;
+        is_raw = false;  // Raw strings can't have escapes.
       }
     }
+    if (is_raw) out_ << "r";
     if (triple) out_ << quote_char << quote_char;
 
     out_ << quote_char;
-- 
2.43.0


From 82acea46b852820dae6ce7a89a9c075d2114354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 56/60] fix: run-clang-tidy-cached missed headers included
 without blank (#include"x.h")

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index db7ec47..1a989bd 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -417,7 +417,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([^"\n]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
       // The path is part of it, as it shows up in the output.
-- 
2.43.0


From f8803431a25c1947234e9fa50199edf9f5c09599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 57/60] fix: glob() did not match file names that are not UTF-8
 or have line breaks

---
 bant/util/glob-match-builder.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 18cdd39..8fdae71 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -39,13 +39,21 @@ class PathMatcher {
  public:
   PathMatcher(std::string_view regex,
               absl::flat_hash_set<std::string> &&match_set)
-      : pattern_re_(regex), verbatim_match_(std::move(match_set)) {}
+      : pattern_re_(regex, FilenameOptions()),
+        verbatim_match_(std::move(match_set)) {}
 
   bool Match(std::string_view s) const {
     return verbatim_match_.contains(s) || RE2::FullMatch(s, pattern_re_);
   }
 
  private:
+  // File names are arbitrary bytes: not necessarily UTF-8 or a single line.
+  static RE2::Options FilenameOptions() {
+    RE2::Options options(RE2::Latin1);
+    options.set_dot_nl(true);
+    return options;
+  }
+
   RE2 pattern_re_;
   absl::flat_hash_set<std::string> verbatim_match_;
 };
-- 
2.43.0


From e538393f9d772f60af11ca5fb21b424c01176a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 58/60] fix: target patterns with * did not match names that
 are not UTF-8 or have line breaks

---
 bant/types-bazel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 8930d0d..e246af1 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -217,7 +217,9 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     is_first = false;
   }
   absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
-  return std::make_unique<RE2>(assembled);
+  RE2::Options options(RE2::Latin1);  // Names can contain arbitrary bytes.
+  options.set_dot_nl(true);
+  return std::make_unique<RE2>(assembled, options);
 }
 
 std::optional<BazelPattern> BazelPattern::ParseFrom(
-- 
2.43.0


From db0f08fad6dce5109b6337815ffa8f845653cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 59/60] fix: keep comments with characters that are not UTF-8
 were not seen

---
 bant/tool/dwyu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index f2119f3..6967117 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -531,7 +531,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
       all_header_deps_known && !IsAlwayslink(*requested_target);
 
     if (potential_remove_suggestion_safe) {
-      static const LazyRE2 kExcludeVetoUserCommentRe{"#.*keep"};
+      static const LazyRE2 kExcludeVetoUserCommentRe{"#.*keep",
+                                                     RE2::Latin1};
       const auto line = project_.GetSurroundingLine(dependency_target);
       if (session_.flags().ignore_keep_comment ||
           !RE2::PartialMatch(line, *kExcludeVetoUserCommentRe)) {
-- 
2.43.0


From 0a92c6e51d686cbe7ee650b39bf2f926e5c77000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 60/60] fix: loop variables and variables in parentheses were
 printed as tuples

A loop over one variable was printed as 'for (i,) in', which unpacks
tuples instead; '(a) = b' was printed as '(a,) = b'.
---
 bant/frontend/elaboration.cc   | 10 +++++++-
 bant/frontend/parser.cc        | 45 +++++++++++++++++++++++++---------
 bant/frontend/print-visitor.cc | 16 ++++++++++++
 bant/frontend/print-visitor.h  |  1 +
 4 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 69be579..01046c7 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -160,7 +160,15 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
          f && f->op() == TokenType::kFor;
          f = f->left() ? f->left()->CastAsBinOp() : nullptr) {
       BinOpNode *const range = f->right()->CastAsBinOp();
-      for (Node *variable : *range->left()->CastAsList()) {
+      CollectVariables(range->left()->CastAsList());
+    }
+  }
+
+  void CollectVariables(List *variables) {
+    for (Node *variable : *variables) {
+      if (List *nested = variable->CastAsList()) {
+        CollectVariables(nested);
+      } else {
         loop_variables_.insert(variable->CastAsIdentifier()->id());
       }
     }
diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index 54450ca..b304858 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -105,9 +105,8 @@ class Parser::Impl {
       }
 
       if (tok.type == '(') {  // tuple assignment. Rarely seen in the wild.
-        List *lhs = ParseList(
-          Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
+        bool last_is_comma = false;
+        List *lhs = ParseVariables(TokenType::kCloseParen, &last_is_comma);
         if (lhs == nullptr) {
           ErrAt(tok) << "expected LHS of a tuple assignment\n";
           return statement_list;
@@ -118,8 +117,11 @@ class Parser::Impl {
                         << "\n";
           return statement_list;
         }
-        statement_list->Append(node_arena_,
-                               ParseNodeAssignRhs(lhs, tok.text, assign.text));
+        // Just parentheses around an identifier are not a tuple yet.
+        Node *assign_to = lhs;
+        if (lhs->size() == 1 && !last_is_comma) assign_to = *lhs->begin();
+        statement_list->Append(
+          node_arena_, ParseNodeAssignRhs(assign_to, tok.text, assign.text));
         continue;
       }
 
@@ -486,6 +488,20 @@ class Parser::Impl {
     return ParseList(result, element_parser, expected_close_token);
   }
 
+  // Parse list of variables to assign to. A comma at the end makes it a tuple
+  // even if it is only one.
+  List *ParseVariables(TokenType end_tok, bool *last_is_comma) {
+    *last_is_comma = false;
+    return ParseList(
+      Make<List>(List::Type::kTuple),
+      [&]() {
+        Identifier *const variable = ParseOptionalIdentifier();
+        *last_is_comma = (scanner_->Peek().type == TokenType::kComma);
+        return variable;
+      },
+      end_tok);
+  }
+
   // Parse next thing but only if it is an identifier.
   Identifier *ParseOptionalIdentifier() {
     LOG_ENTER();
@@ -513,19 +529,26 @@ class Parser::Impl {
 
       // On the input, this can look like a list i, i, j or as tuple (i, j, k).
       // We deal with these variants, but in any case, they are follwed by 'in'.
+      bool last_is_comma = false;
       if (scanner_->Peek().type == '(') {  // (i, j, k) case.
         scanner_->Next();                  // Consume open tuple '('
-        variable_tuple = ParseList(        // .. parse until we see close ')'
-          Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
+        // .. parse until we see close ')'
+        variable_tuple =
+          ParseVariables(TokenType::kCloseParen, &last_is_comma);
         const Token expected_in = scanner_->Next();
         if (expected_in.type != TokenType::kIn) {
           ErrAt(expected_in) << "expected 'in' after variable tuple\n";
         }
       } else {  // i, j, k case. Here the expected list end token is 'in'
-        variable_tuple = ParseList(
-          Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kIn);
+        variable_tuple = ParseVariables(TokenType::kIn, &last_is_comma);
+      }
+
+      // 'for i in' takes the elements as they are, while 'for (i,) in' unpacks
+      // tuples of one element. The latter is represented as nested tuple.
+      if (variable_tuple->size() == 1 && last_is_comma) {
+        List *const unpacked = variable_tuple;
+        variable_tuple = Make<List>(List::Type::kTuple);
+        variable_tuple->Append(node_arena_, unpacked);
       }
 
       Node *values_to_iterate_over = ParseExpression();
diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index ce9a541..55b598a 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -134,12 +134,28 @@ void PrintVisitor::VisitBinOpNode(BinOpNode *b) {
   } else {
     out_ << " " << b->op() << " ";
   }
+  if (b->op() == TokenType::kFor && PrintSingleLoopVariable(b->right())) {
+    return;
+  }
   WalkNonNull(b->right());
   if (b->op() == '[') {  // Array access is a BinOp with '[' as op.
     out_ << "]";
   }
 }
 
+// Loop variables are always in a tuple, but "for (i,) in" is not "for i in".
+bool PrintVisitor::PrintSingleLoopVariable(Node *range) {
+  BinOpNode *const in = range ? range->CastAsBinOp() : nullptr;
+  List *const variables = in && in->left() ? in->left()->CastAsList() : nullptr;
+  if (!variables || variables->size() != 1) return false;
+  if (!WalkNonNull(*variables->begin())) {
+    out_ << "NIL";
+  }
+  out_ << " " << in->op() << " ";
+  WalkNonNull(in->right());
+  return true;
+}
+
 void PrintVisitor::VisitListComprehension(ListComprehension *lh) {
   PrintListTypeOpen(lh->type(), out_);
   WalkNonNull(lh->for_node());
diff --git a/bant/frontend/print-visitor.h b/bant/frontend/print-visitor.h
index 403b4ab..0dd95d9 100644
--- a/bant/frontend/print-visitor.h
+++ b/bant/frontend/print-visitor.h
@@ -48,6 +48,7 @@ class PrintVisitor : public BaseVoidVisitor {
 
  private:
   void PrintMaybeHighlight(std::string_view print_str);
+  bool PrintSingleLoopVariable(Node *range);
 
   std::ostream &out_;
   const RE2 *const highlight_re_;
-- 
2.43.0

