From 565e67bc2ffd61e528860756185d4e1e5d8a9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 01/81] fix: do not materialize all-fixed-width expressions in
 the optimizer

---
 gcl/optimizer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcl/optimizer.cc b/gcl/optimizer.cc
index 9fbf97f..90869c3 100644
--- a/gcl/optimizer.cc
+++ b/gcl/optimizer.cc
@@ -50,6 +50,13 @@ Optimizer::rewrite_contained_in_all_of(std::shared_ptr<SExpression> expr,
   std::vector<std::shared_ptr<SExpression>> atoms;
   if (!collect_all_of_atoms(expr->subx_[0], &atoms) || atoms.size() < 3)
     return expr;
+  // Fixed-width atoms alone have infinitely many solutions, which can be
+  // evaluated lazily but never materialized.
+  bool finite = (expr->subx_[1]->kind_ == TERM);
+  for (auto &atom : atoms)
+    finite = finite || (atom->kind_ == TERM);
+  if (!finite)
+    return expr;
   struct Atom {
     std::shared_ptr<SExpression> expr;
     addr cost;
-- 
2.43.0


From 61642313e2cf3351d3f6a796f2969de5488d6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 02/81] fix: reject fixed widths that overflow instead of
 wrapping

---
 gcl/parse.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gcl/parse.cc b/gcl/parse.cc
index 5b6a79b..01201bc 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -140,8 +140,13 @@ const char *parse_expr(const char *where, std::shared_ptr<SExpression> expr,
     if (!is_width_character(*where))
       return where;
     addr width = width_character_value(*where++);
-    while (is_width_character(*where))
-      width = 10 * width + width_character_value(*where++);
+    while (is_width_character(*where)) {
+      addr value = width_character_value(*where);
+      if (width > (maxfinity - value) / 10)
+        return where;
+      width = 10 * width + value;
+      where++;
+    }
     expr->width_ = width;
     while (is_whitespace(*where))
       where++;
-- 
2.43.0


From b7d115d76bf4fb1f36af9b65636cef9d8c3ffd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 03/81] fix: report an error for incomplete infix contained in
 and not operators

---
 gcl/mt.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcl/mt.cc b/gcl/mt.cc
index fd1db95..53ff342 100644
--- a/gcl/mt.cc
+++ b/gcl/mt.cc
@@ -670,6 +670,7 @@ gcl_q parseQ(gcl_env *env, int topCall) {
         type = GCL_CONTAINED_IN;
       else {
         gcl_freeQ(left);
+        gcl_syntaxError = std::string("Expected \"in\" after \"contained\".");
         return GCL_SYNTAX_ERROR;
       }
     } else if (look("not")) {
@@ -682,10 +683,14 @@ gcl_q parseQ(gcl_env *env, int topCall) {
           type = GCL_NOT_CONTAINED_IN;
         else {
           gcl_freeQ(left);
+          gcl_syntaxError =
+              std::string("Expected \"in\" after \"contained\".");
           return GCL_SYNTAX_ERROR;
         }
       } else {
         gcl_freeQ(left);
+        gcl_syntaxError = std::string(
+            "Expected \"containing\" or \"contained\" after \"not\".");
         return GCL_SYNTAX_ERROR;
       }
     } else
-- 
2.43.0


From be6a41770d096a1e4a900262ec9d7d00c261ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:30 +0000
Subject: [PATCH 04/81] fix: keep only minimal intervals when building a
 posting from annotations

---
 src/simple_posting.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..b233f2f 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -56,8 +56,8 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       if (stop->v != 0.0)
         clear_fostings = false;
       if (posting->postings_.size() == 0 ||
-          (stop->p >= posting->postings_.back() &&
-           stop->q >= posting->qostings_.back())) {
+          (stop->p > posting->postings_.back() &&
+           stop->q > posting->qostings_.back())) {
         posting->postings_.push_back(stop->p);
         posting->qostings_.push_back(stop->q);
         posting->fostings_.push_back(stop->v);
-- 
2.43.0


From 2fe828916063da7ff52934efaa8bafc0da536dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:58 +0000
Subject: [PATCH 05/81] fix: compare across empty postings when deciding to
 append in a merge

---
 src/simple_posting.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index b233f2f..aac6cfd 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -400,17 +400,20 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     return postings[0];
   addr feature = postings[0]->feature();
   bool can_append = true;
+  size_t last = 0; // most recent posting that is not empty
   for (size_t i = 1; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-    size_t size0 = postings[i - 1]->size();
+    size_t size0 = postings[last]->size();
     size_t size1 = postings[i]->size();
     if (size0 > 0 && size1 > 0) {
       addr p0, p1, q0, q1;
       fval v0, v1;
-      postings[i - 1]->get(size0 - 1, &p0, &q0, &v0);
+      postings[last]->get(size0 - 1, &p0, &q0, &v0);
       postings[i]->get(0, &p1, &q1, &v1);
       can_append = (p0 < p1 && q0 < q1);
     }
+    if (size1 > 0)
+      last = i;
   }
   std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
   if (can_append) {
-- 
2.43.0


From 2f81540b48e16ed68f980c96f205d6d0476f67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 06/81] fix: encode posting deltas as unsigned so negative
 addresses terminate

---
 src/post_compressor.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/post_compressor.cc b/src/post_compressor.cc
index b93c115..deb9cfb 100644
--- a/src/post_compressor.cc
+++ b/src/post_compressor.cc
@@ -8,7 +8,7 @@ namespace cottontail {
 
 namespace {
 
-inline char *encode_1(addr delta, char *out) {
+inline char *encode_1(uint64_t delta, char *out) {
   do {
     char seven = delta & 0x7F;
     delta >>= 7;
@@ -25,18 +25,19 @@ size_t encode_all(addr *list, addr n, char *out) {
   addr previous_addr = 0;
   for (; list != last_addr; list++) {
     addr current_addr = *list;
-    addr current_delta = current_addr - previous_addr;
+    uint64_t current_delta =
+        (uint64_t)current_addr - (uint64_t)previous_addr;
     next_byte = encode_1(current_delta, next_byte);
     previous_addr = current_addr;
   }
   return next_byte - out;
 }
 
-inline char *decode_1(char *in, addr *delta) {
-  addr working = 0;
+inline char *decode_1(char *in, uint64_t *delta) {
+  uint64_t working = 0;
   int shift = 0;
   for (;;) {
-    addr current = *in++;
+    uint64_t current = *in++;
     working |= ((current & 0x7F) << shift);
     if ((current & 0x80) == 0)
       break;
@@ -50,13 +51,13 @@ size_t decode_all(char *in, size_t length, addr *list, size_t n) {
   addr *current_addr;
   addr *last_addr = list + n;
   char *last_byte = in + length;
-  addr value = 0;
+  uint64_t value = 0;
   for (current_addr = list; in < last_byte && current_addr < last_addr;
        current_addr++) {
-    addr delta;
+    uint64_t delta;
     in = decode_1(in, &delta);
     value += delta;
-    *current_addr = value;
+    *current_addr = (addr)value;
   }
   assert(in == last_byte);
   return current_addr - list;
-- 
2.43.0


From be9c48f0e9c5d65fd46cd9bfa836644ef86ea2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:27 +0000
Subject: [PATCH 07/81] fix: split text containing NUL bytes the way it is
 indexed

---
 src/utf8_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..a6592d0 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -577,7 +577,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0


From 9ab2a7012d18933c849ec933349468dce0107145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 08/81] fix: do not let malformed UTF-8 swallow the characters
 after it

---
 src/utf8_tokenizer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index a6592d0..262ff52 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -189,6 +189,8 @@ bool set_fold_actions(const std::map<uint32_t, uint32_t> &foldings,
   return true;
 }
 
+inline bool continuation(uint8_t c) { return (c & 0xC0) == 0x80; }
+
 inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
                               uint32_t *codepoint) {
   if ((s[0] & 0x80) == 0x00) {
@@ -197,7 +199,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xE0) == 0xC0) {
     const uint8_t *t = s + 2;
-    if (t > e) {
+    if (t > e || !continuation(s[1])) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -206,7 +208,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xF0) == 0XE0) {
     const uint8_t *t = s + 3;
-    if (t > e) {
+    if (t > e || !continuation(s[1]) || !continuation(s[2])) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -216,7 +218,8 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((*s & 0xF8) == 0XF0) {
     const uint8_t *t = s + 4;
-    if (t > e) {
+    if (t > e || !continuation(s[1]) || !continuation(s[2]) ||
+        !continuation(s[3])) {
       *codepoint = 0x20;
       return s + 1;
     }
-- 
2.43.0


From f905c725a98b34f6b85cc4627457d021194dc5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 09/81] fix: escape quotes and backslashes when freezing
 configuration values

---
 src/recipe.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..5515b16 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -46,7 +46,8 @@ const char *munch_map(const char *s, std::string *return_value) {
       working_value += quote;
       for (; *s != quote && *s != '\0'; s++) {
         if (*s == '\\') {
-          s++;
+          // Escapes are left for the nested map to interpret.
+          working_value += *s++;
           if (*s != '\\' && *s != quote)
             return s;
         }
@@ -134,8 +135,15 @@ void dump(std::ostream *out, std::string value, size_t depth) {
   std::map<std::string, std::string> parameters;
   if (cook(value, &parameters))
     dump(out, parameters, depth);
-  else
-    *out << '"' << value << '"';
+  else {
+    *out << '"';
+    for (auto &c : value) {
+      if (c == '"' || c == '\\')
+        *out << '\\';
+      *out << c;
+    }
+    *out << '"';
+  }
   *out << ',';
 }
 
-- 
2.43.0


From d415c859b6e3c2ec2fa162946802ccb49528fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 10/81] fix: keep newlines inside stored configuration values

---
 src/dna.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..7edddf6 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -30,7 +30,7 @@ bool read_dna(std::shared_ptr<Working> working, std::string *dna,
   }
   *dna = "";
   while (std::getline(in, line))
-    *dna += (line + " ");
+    *dna += (line + "\n");
   return true;
 }
 
-- 
2.43.0


From fbfa11d52dcb0ed8e42aee1ea3340abc7d46570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 11/81] fix: refuse malformed options instead of reading past
 them

---
 src/recipe.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 5515b16..09af317 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -249,6 +249,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 2 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -269,7 +270,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
   } else {
     std::map<std::string, std::string>::iterator item_recipe =
         item_parameters.find("recipe");
-    if (item_recipe == parameters.end()) {
+    if (item_recipe == item_parameters.end()) {
       safe_error(error) = "Option parameters not found for: " + pieces[0];
       return false;
     }
@@ -309,6 +310,7 @@ bool extract_option(const std::string &recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 1 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -323,13 +325,13 @@ bool extract_option(const std::string &recipe, const std::string &option,
   }
   std::map<std::string, std::string>::iterator item_name =
       item_parameters.find("name");
-  if (item_name == parameters.end()) {
+  if (item_name == item_parameters.end()) {
     safe_error(error) = "Option setting not found for: " + pieces[0];
     return false;
   }
   std::map<std::string, std::string>::iterator item_recipe =
       item_parameters.find("recipe");
-  if (item_recipe == parameters.end()) {
+  if (item_recipe == item_parameters.end()) {
     safe_error(error) = "Option parameters not found for: " + pieces[0];
     return false;
   }
@@ -345,6 +347,10 @@ bool extract_option(const std::string &recipe, const std::string &option,
     }
     std::map<std::string, std::string>::iterator item_recipe_item =
         item_recipe_parameters.find(pieces[1]);
+    if (item_recipe_item == item_recipe_parameters.end()) {
+      safe_error(error) = "No option: " + pieces[0] + ":" + pieces[1];
+      return false;
+    }
     *value = item_recipe_item->second;
   }
   return true;
-- 
2.43.0


From 96b4be2b568c6938b9f344efabb136bdb68c13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 12/81] fix: refuse parameters that cannot be stored in the
 configuration

---
 src/dna.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dna.cc b/src/dna.cc
index 7edddf6..b0c68d0 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -93,6 +93,15 @@ bool set_parameter_in_dna(std::shared_ptr<Working> working,
   parameters[key] = value;
   dna_parameters["parameters"] = freeze(parameters);
   dna = freeze(dna_parameters);
+  std::map<std::string, std::string> check_dna_parameters, check_parameters;
+  if (!cook(dna, &check_dna_parameters) ||
+      !cook(check_dna_parameters["parameters"], &check_parameters) ||
+      check_dna_parameters.size() != dna_parameters.size() ||
+      check_parameters.size() != parameters.size() ||
+      check_parameters.find(key) == check_parameters.end()) {
+    safe_error(error) = "Can't store parameter: " + key;
+    return false;
+  }
   if (!write_dna(working, dna, error))
     return false;
   return true;
-- 
2.43.0


From a9089cf43a5255fe68ed862c5aee9301e8c3522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:18 +0000
Subject: [PATCH 13/81] fix: treat only noncharacters as internal JSON tokens

---
 src/json.cc | 4 ++--
 src/json.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 63242b5..d6782f8 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -137,7 +137,7 @@ bool contains_utf8_noncharacters(const std::string &s) {
         state = 2;
       else
         state = 0;
-    } else if (*c >= '\x90' || *c <= '\xAF') {
+    } else if (*c >= '\x90' && *c <= '\xAF') {
       return true;
     } else {
       state = 0;
@@ -147,7 +147,7 @@ bool contains_utf8_noncharacters(const std::string &s) {
 
 inline bool noncharacter_next(const char *c) {
   return c[0] && c[0] == '\xEF' && c[1] && c[1] == '\xB7' && c[2] &&
-         (c[2] >= '\x90' || c[2] >= '\xAF');
+         (c[2] >= '\x90' && c[2] <= '\xAF');
 }
 
 std::string sanitize(const std::string &s) {
diff --git a/src/json.h b/src/json.h
index c9ad2f0..9f992a9 100644
--- a/src/json.h
+++ b/src/json.h
@@ -21,7 +21,7 @@ const std::string open_number_token = "\xEF\xB7\x98";
 const std::string close_number_token = "\xEF\xB7\x99";
 inline bool json_internal_token(const char *token, addr length) {
   return length == 3 && token[0] == '\xEF' && token[1] == '\xB7' &&
-         (token[2] >= '\x90' || token[2] >= '\x99');
+         (token[2] >= '\x90' && token[2] <= '\x99');
 }
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe,
-- 
2.43.0


From b32ce2e83e5e5c1e1e705d7a24cf3c4ebe10cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:26 +0000
Subject: [PATCH 14/81] fix: keep JSON strings from forging structure, reject
 overflowing numbers

---
 src/json.cc | 81 ++++++++++++++++++++---------------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index d6782f8..6c3ceae 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -13,6 +13,25 @@
 namespace cottontail {
 
 namespace {
+inline bool noncharacter_next(const char *c) {
+  return c[0] == '\xEF' && c[1] == '\xB7' && c[2] >= '\x90' && c[2] <= '\xAF';
+}
+
+// Noncharacters are reserved for internal tokens.
+std::string sanitize(const std::string &s) {
+  std::string t;
+  for (size_t i = 0; i < s.size(); i++)
+    if (noncharacter_next(s.c_str() + i)) {
+      t += '\xEF'; // Unicode replacement character
+      t += '\xBF';
+      t += '\xBD';
+      i += 2;
+    } else {
+      t += s[i];
+    }
+  return t;
+}
+
 bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error);
 
@@ -52,7 +71,7 @@ bool do_number(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
 
 bool do_string(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
                addr *p, addr *q, std::string *error) {
-  std::string s = open_string_token + (std::string)j + close_string_token;
+  std::string s = open_string_token + sanitize((std::string)j) + close_string_token;
   if (!scribe->appender()->append(s, p, q, error))
     return false;
   return scribe->annotator()->annotate(scribe->featurizer()->featurize(path),
@@ -91,15 +110,17 @@ bool do_object(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
       if (!scribe->appender()->append(comma_token, &p0, &q0, error))
         return false;
     }
-    std::string key =
-        open_string_token + it.key() + close_string_token + colon_token;
-    if (!scribe->appender()->append(key, &p0, &q0, error))
+    std::string key = sanitize(it.key());
+    if (!scribe->appender()->append(
+            open_string_token + key + close_string_token + colon_token, &p0,
+            &q0, error))
       return false;
-    if (!do_json(it.value(), scribe, path + it.key() + ":", &p0, &q0, error))
+    if (!do_json(it.value(), scribe, path + key + ":", &p0, &q0, error))
       return false;
-    if (!scribe->annotator()->annotate(
-            scribe->featurizer()->featurize(it.key() + ":"), p0, q0, 0.0,
-            error))
+    // An empty key would annotate its value as a document.
+    if (key != "" &&
+        !scribe->annotator()->annotate(
+            scribe->featurizer()->featurize(key + ":"), p0, q0, 0.0, error))
       return false;
   }
   if (!scribe->appender()->append(close_object_token, &p0, q, error))
@@ -126,43 +147,6 @@ bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
   return false;
 }
 
-bool contains_utf8_noncharacters(const std::string &s) {
-  int state = 0;
-  for (const char *c = s.c_str(); *c; c++)
-    if (state == 0) {
-      if (*c == '\xEF')
-        state = 1;
-    } else if (state == 1) {
-      if (*c == '\xB7')
-        state = 2;
-      else
-        state = 0;
-    } else if (*c >= '\x90' && *c <= '\xAF') {
-      return true;
-    } else {
-      state = 0;
-    }
-  return false;
-}
-
-inline bool noncharacter_next(const char *c) {
-  return c[0] && c[0] == '\xEF' && c[1] && c[1] == '\xB7' && c[2] &&
-         (c[2] >= '\x90' && c[2] <= '\xAF');
-}
-
-std::string sanitize(const std::string &s) {
-  std::string t;
-  for (const char *c = s.c_str(); *c; c++)
-    if (noncharacter_next(c)) {
-      t += '\xEF'; // Unicode replacement character
-      t += '\xBF';
-      t += '\xBD';
-      c += 2;
-    } else {
-      t += *c;
-    }
-  return t;
-}
 } // namespace
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
@@ -170,11 +154,8 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
   assert(scribe != nullptr);
   json j;
   try {
-    if (contains_utf8_noncharacters(s))
-      j = json::parse(sanitize(s));
-    else
-      j = json::parse(s);
-  } catch (json::parse_error &e) {
+    j = json::parse(s);
+  } catch (json::exception &e) {
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
   }
-- 
2.43.0


From 0a88485d7c60cb3e1a2c7764e665596c03a83532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 15/81] fix: escape control characters when translating JSON

---
 src/json.cc | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 6c3ceae..5a2883f 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -176,6 +176,24 @@ inline bool is_next(const char *c, const std::string token) {
   return c[0] && c[0] == t[0] && c[1] && c[1] == t[1] && c[2] && c[2] == t[2];
 }
 
+inline std::string control_escape(char c) {
+  const char *hex = "0123456789abcdef";
+  switch (c) {
+  case '\b':
+    return "\\b";
+  case '\f':
+    return "\\f";
+  case '\n':
+    return "\\n";
+  case '\r':
+    return "\\r";
+  case '\t':
+    return "\\t";
+  default:
+    return std::string("\\u00") + hex[(c >> 4) & 0xF] + hex[c & 0xF];
+  }
+}
+
 inline const char *skip(const char *c) {
   return c + (noncharacter_token_length - 1);
 }
@@ -186,7 +204,8 @@ std::string json_translate(const std::string &s) {
   bool inside = false;
   bool pending_space = false;
   std::string t;
-  for (const char *c = s.c_str(); *c; c++) {
+  const char *e = s.c_str() + s.size();
+  for (const char *c = s.c_str(); c < e; c++) {
     if (*c != ' ' && *c != '\n' && pending_space) {
       pending_space = false;
       t += ' ';
@@ -220,10 +239,12 @@ std::string json_translate(const std::string &s) {
     } else if (is_next(c, open_number_token) ||
                is_next(c, close_number_token)) {
       c = skip(c);
-    } else if (*c == '\n') {
+    } else if (*c == '\n' && !inside) {
       pending_space = true;
     } else if (inside) {
-      if (*c == '"')
+      if (static_cast<unsigned char>(*c) < 0x20)
+        t += control_escape(*c);
+      else if (*c == '"')
         t += "\\\"";
       else if (*c == '\\')
         t += "\\\\";
-- 
2.43.0


From f7cbeb834799cd76480b63a1d6987c136de5b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 16/81] fix: translate features that are not packed strings to
 literals

---
 src/hashing_featurizer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hashing_featurizer.cc b/src/hashing_featurizer.cc
index 75732c6..06c89c1 100644
--- a/src/hashing_featurizer.cc
+++ b/src/hashing_featurizer.cc
@@ -147,10 +147,12 @@ std::string HashingFeaturizer::translate_(addr feature) {
     addr a;
   } u;
   u.a = feature;
-  if (u.s[sizeof(addr) - 1] != '\0')
-    return "#" + std::to_string(u.a);
-  else
-    return std::string(u.s);
+  if (u.s[sizeof(addr) - 1] == '\0') {
+    std::string key(u.s);
+    if (featurize(key) == feature)
+      return key;
+  }
+  return "#" + std::to_string(u.a);
 }
 
 std::shared_ptr<Featurizer> HashingFeaturizer::make(const std::string &recipe,
-- 
2.43.0


From 987d79a314d79015bb3ad4553e8ac201c9af12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 17/81] fix: refuse parameters with blank lines, which end an
 immutable file's header

---
 src/dna.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dna.cc b/src/dna.cc
index b0c68d0..3438bd6 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -93,6 +93,11 @@ bool set_parameter_in_dna(std::shared_ptr<Working> working,
   parameters[key] = value;
   dna_parameters["parameters"] = freeze(parameters);
   dna = freeze(dna_parameters);
+  if (value.find("\n\n") != std::string::npos) {
+    // A blank line ends the configuration in an immutable file.
+    safe_error(error) = "Can't store blank lines in parameter: " + key;
+    return false;
+  }
   std::map<std::string, std::string> check_dna_parameters, check_parameters;
   if (!cook(dna, &check_dna_parameters) ||
       !cook(check_dna_parameters["parameters"], &check_parameters) ||
-- 
2.43.0


From edc7f49c1846a882f20b0953073ba8c39c399960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 18/81] fix: store empty transactions, and publish them outside
 assertions

---
 src/fiver.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..7c62f20 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -671,8 +671,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_))
@@ -716,8 +714,10 @@ void Fiver::commit_() {
       std::string ready_name = working()->make_name(name() + "." + recipe());
       name_ = "fiver";
       std::string final_name = working()->make_name(name() + "." + recipe());
-      assert(link(ready_name.c_str(), final_name.c_str()) == 0);
-      std::remove(ready_name.c_str());
+      int linked = link(ready_name.c_str(), final_name.c_str());
+      assert(linked == 0);
+      if (linked == 0)
+        std::remove(ready_name.c_str());
     } else {
       name_ = "fiver";
     }
-- 
2.43.0


From d76abd1256ee0c616c8a0230ab9fb47cc23a5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 19/81] fix: keep side effects out of assertions

---
 src/simple_txt_io.cc | 14 +++++++++-----
 src/stats.cc         |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..9e9ddea 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -51,12 +51,15 @@ void restore(const std::string &nameof_contents,
   if (last_chunk == nullptr)
     return;
   if (chunk_map_limit == 0) {
-    assert(truncate(nameof_contents.c_str(), 0) == 0);
-    assert(truncate(nameof_chunk_map.c_str(), 0) == 0);
+    int truncated = truncate(nameof_contents.c_str(), 0);
+    assert(truncated == 0);
+    truncated = truncate(nameof_chunk_map.c_str(), 0);
+    assert(truncated == 0);
     return;
   }
-  assert(truncate(nameof_chunk_map.c_str(),
-                  chunk_map_limit * sizeof(std::streamoff)) == 0);
+  int truncated = truncate(nameof_chunk_map.c_str(),
+                           chunk_map_limit * sizeof(std::streamoff));
+  assert(truncated == 0);
   std::fstream mapf(nameof_chunk_map,
                     std::ios::binary | std::ios::in | std::ios::out);
   assert(!mapf.fail());
@@ -73,7 +76,8 @@ void restore(const std::string &nameof_contents,
       std::unique_ptr<char[]>(new char[buffer_size]);
   std::streamsize amount = compressor->crush(last_chunk.get(), last_chunk_end,
                                              buffer.get(), buffer_size);
-  assert(truncate(nameof_contents.c_str(), where + amount) == 0);
+  truncated = truncate(nameof_contents.c_str(), where + amount);
+  assert(truncated == 0);
   std::fstream contents(nameof_contents,
                         std::ios::binary | std::ios::in | std::ios::out);
   assert(!contents.fail());
diff --git a/src/stats.cc b/src/stats.cc
index de821a1..5f1cb21 100644
--- a/src/stats.cc
+++ b/src/stats.cc
@@ -78,7 +78,8 @@ std::shared_ptr<Stats> Stats::make(const std::string &name,
       ((stats->stemmer_ = Stemmer::make("", "", error)) == nullptr))
     return nullptr;
   if (stats->tokenizer_ == nullptr)
-    assert((stats->tokenizer_ = warren->tokenizer()) != nullptr);
+    stats->tokenizer_ = warren->tokenizer();
+  assert(stats->tokenizer_ != nullptr);
   stats->name_ = name;
   return stats;
 }
-- 
2.43.0


From b4a3927fb9f9ae7b92e347536738a985a640048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 20/81] fix: keep minimal intervals when nested annotations are
 built

---
 src/simple_annotator.cc |  4 +++-
 src/simple_builder.cc   | 16 ++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..e4d6b76 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -202,7 +202,9 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 } // namespace
 
diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b4cfdd..d92e758 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -42,7 +42,9 @@ bool tok_cmp(const TokRecord &a, const TokRecord &b) {
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 
 template <typename T, bool CMP(const T &, const T &)>
@@ -531,19 +533,17 @@ bool SimpleBuilder::build_index(std::string *error) {
       }
     if (!feature_found)
       break;
-    std::shared_ptr<SimplePosting> merged_posting =
-        posting_factory_->posting_from_feature(feature);
+    std::vector<std::shared_ptr<SimplePosting>> posting_with_feature;
     for (size_t i = 0; i < posting_nexts.size(); i++)
       if (posting_nexts[i] != nullptr &&
           posting_nexts[i]->feature() == feature) {
-        merged_posting->append(posting_nexts[i]);
+        posting_with_feature.push_back(posting_nexts[i]);
         posting_nexts[i] =
             posting_factory_->posting_from_file(&posting_fstreams[i]);
       }
-    // If you got here because the following invariant failed, then either:
-    //   1) your builder isn't adding tokens/annonations in increasing order, or
-    //   2) your tokens/annotations nest (but it's okay if they overlap).
-    assert(merged_posting->invariants());
+    std::shared_ptr<SimplePosting> merged_posting =
+        posting_factory_->posting_from_merge(posting_with_feature);
+    assert(merged_posting != nullptr && merged_posting->invariants());
     merged_posting->write(&pst);
     IdxRecord idxr(feature, pst.tellp());
     idx.write(reinterpret_cast<char *>(&idxr), sizeof(idxr));
-- 
2.43.0


From b792db179c0f2c5ff2a350b202691e2027ec524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 21/81] fix: text of a merged shard ends where the next stored
 chunk begins

The text of the last token of a transaction ran on into the separators that
lead the next transaction, and a range ending in an address gap (an aborted
transaction) returned all of the remaining text.
---
 src/fiver.cc | 11 +++++++++--
 src/hazel.cc | 20 ++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7c62f20..6c016b8 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -283,12 +283,19 @@ private:
       return "";
     addr p0, q0, i;
     addr p1, q1, j;
+    addr k = 0; // where the text of the first chunk after q1 starts
     {
       std::lock_guard<std::mutex> lock(mutex_);
       hopper_->rho(p, &p0, &q0, &i);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &j);
+      if (q >= q1) {
+        addr p2, q2;
+        hopper_->tau(q1 + 1, &p2, &q2, &k);
+        if (p2 == maxfinity)
+          k = text_->length();
+      }
     }
     size_t n = text_->length();
     const char *t = text_->c_str();
@@ -298,8 +305,8 @@ private:
     else
       p = p0;
     const char *e;
-    if (q > q1)
-      e = t + n;
+    if (q >= q1)
+      e = t + k;
     else if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..d16778e 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -987,28 +987,36 @@ private:
 
     addr p0, q0, left_anchor_byte;
     addr p1, q1, right_anchor_byte;
+    addr next_anchor_byte = 0; // of the first text chunk after q1
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
       hopper_->rho(p, &p0, &q0, &left_anchor_byte);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &right_anchor_byte);
+      if (q >= q1) {
+        addr p2, q2;
+        hopper_->tau(q1 + 1, &p2, &q2, &next_anchor_byte);
+        if (p2 == maxfinity)
+          next_anchor_byte = raw_text_length_;
+      }
     }
     if (p1 == minfinity || p1 == maxfinity)
       return "";
     if (left_anchor_byte < 0 || left_anchor_byte > raw_text_length_ ||
-        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_)
+        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_ ||
+        next_anchor_byte < 0 || next_anchor_byte > raw_text_length_)
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    addr cover_byte_end = q >= q1 ? next_anchor_byte : right_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
     size_t last_chunk;
-    if (q > q1)
-      last_chunk = map_.size() - 1;
+    if (q >= q1)
+      last_chunk = chunk_containing(next_anchor_byte - 1);
     else
       last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
@@ -1033,8 +1041,8 @@ private:
       p = p0;
 
     const char *end;
-    if (q > q1) {
-      end = limit;
+    if (q >= q1) {
+      end = base + (next_anchor_byte - window_byte_start);
     } else if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
-- 
2.43.0


From 31ca81cd59571c29f9ffb48bc2953d680bf3aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 22/81] fix: do not keep text without tokens, which corrupted
 the text of merged shards

---
 src/fiver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index 6c016b8..4f86dbd 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -161,6 +161,8 @@ private:
     return true;
   };
   bool ready_(std::string *error) {
+    if (address_ == first_address_)
+      text_->clear(); // text without tokens can't be addressed
     if (text_->length() > 0 && text_->back() != '\n')
       *text_ += "\n";
     if (address_ > first_address_)
-- 
2.43.0


From 953ba7d2a3fa799c5231571ae56c54036ecf5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 23/81] fix: an immutable shard counted the addresses of
 aborted transactions as tokens

---
 src/hazel.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index d16778e..b6f4f5f 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1058,9 +1058,7 @@ private:
   };
   std::string raw_(addr p, addr q) final { return translate(p, q); };
   addr tokens_() final {
-    if (token_start_ == maxfinity)
-      return 0;
-    return token_end_ - token_start_ + 1;
+    return token_count_;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
@@ -1164,10 +1162,14 @@ private:
       token_start_ = p;
       hopper_->uat(maxfinity - 1, &p, &q, &value);
       token_end_ = q;
+      for (hopper_->tau(minfinity + 1, &p, &q, &value); p < maxfinity;
+           hopper_->tau(p + 1, &p, &q, &value))
+        token_count_ += q - p + 1;
     }
     if (token_end_ < token_start_) {
       token_start_ = maxfinity;
       token_end_ = maxfinity;
+      token_count_ = 0;
     }
   }
 
@@ -1257,6 +1259,7 @@ private:
   std::mutex cache_write_lock_;
   addr token_start_ = maxfinity;
   addr token_end_ = maxfinity;
+  addr token_count_ = 0;
 };
 
 bool HazelTxt::merge(const std::vector<std::shared_ptr<HazelTxt>> &txts,
-- 
2.43.0


From 6f5d3191282fe45739c16432e1eae34d01f0f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 24/81] fix: a concurrent range() of a text could be read
 before it was computed

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 4f86dbd..1dfa98b 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -326,15 +326,13 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      range_valid_ = true;
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
     }
     *p = range_p_;
-- 
2.43.0


From 7a0cd83094c17cf1cc3d28ad707070418ba2fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 25/81] fix: keep the shards of a merge whose result could not
 be stored

---
 src/bigwig.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..bd8f34e 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1281,10 +1281,8 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     std::shared_ptr<Owsla> output;
     if (action == MergeAction::fiver_merge) {
       std::shared_ptr<Fiver> merged = Fiver::merge(fivers);
-      if (merged != nullptr) {
-        merged->pickle();
+      if (merged != nullptr && merged->pickle())
         output = merged;
-      }
     } else if (action == MergeAction::hazel_merge) {
       std::string error;
       output = Hazel::merge(hazels, hazel_merge_destination, hazel_parameters,
-- 
2.43.0


From fd04007ed661ec878bc66546069c5e2c3cf5c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 26/81] fix: do not keep a posting list emptied of reversed
 annotations

---
 src/fiver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 1dfa98b..68e970a 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -697,7 +697,8 @@ bool Fiver::ready_(std::string *error) {
   while (it < annotations_->end()) {
     std::shared_ptr<SimplePosting> posting =
         posting_factory->posting_from_annotations(&it, annotations_->end());
-    (*index_)[posting->feature()] = posting;
+    if (posting->size() > 0)
+      (*index_)[posting->feature()] = posting;
   }
   if (pickle(error))
     return true;
-- 
2.43.0


From 724d56ef9b20319c090887a7e1ec6fb068d4da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 27/81] fix: an erasure inside another one cancelled the outer
 erasure

---
 src/bigwig.cc         |  4 +++-
 src/fiver.cc          |  8 ++++++--
 src/hazel.cc          |  2 +-
 src/simple_posting.cc | 48 +++++++++++++++++++++++++++++++++++++++++++
 src/simple_posting.h  |  7 +++++++
 5 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index bd8f34e..6243f39 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -172,7 +172,9 @@ private:
         postings.push_back(child);
     }
     std::shared_ptr<SimplePosting> merged =
-        posting_factory->posting_from_merge(postings);
+        feature == null_feature
+            ? posting_factory->erasures_from_merge(postings)
+            : posting_factory->posting_from_merge(postings);
     if (merged != nullptr) {
       posting->append(merged);
       posting->release();
diff --git a/src/fiver.cc b/src/fiver.cc
index 68e970a..54ed27c 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -582,7 +582,7 @@ Fiver::merge(const std::vector<std::shared_ptr<Fiver>> &fivers,
         x.push_back(posting->second);
     }
     if (x.size() > 0) {
-      exclude = posting_factory->posting_from_merge(x);
+      exclude = posting_factory->erasures_from_merge(x);
       if (exclude != nullptr)
         (*index)[null_feature] = exclude;
     }
@@ -696,7 +696,11 @@ bool Fiver::ready_(std::string *error) {
   std::vector<Annotation>::iterator it = annotations_->begin();
   while (it < annotations_->end()) {
     std::shared_ptr<SimplePosting> posting =
-        posting_factory->posting_from_annotations(&it, annotations_->end());
+        it->feature == null_feature
+            ? posting_factory->erasures_from_annotations(&it,
+                                                         annotations_->end())
+            : posting_factory->posting_from_annotations(&it,
+                                                        annotations_->end());
     if (posting->size() > 0)
       (*index_)[posting->feature()] = posting;
   }
diff --git a/src/hazel.cc b/src/hazel.cc
index b6f4f5f..af5997f 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -833,7 +833,7 @@ bool HazelIdx::merge(const std::vector<std::shared_ptr<HazelIdx>> &idxs,
     std::vector<std::shared_ptr<SimplePosting>> postings;
     if (!postings_for_feature(null_feature, &postings, error))
       return false;
-    exclude = factory->posting_from_merge(postings);
+    exclude = factory->erasures_from_merge(postings);
     HazelPostingEntry entry;
     bool wrote;
     if (!hazel_append_checkpoint_posting(&pst, &dct, exclude, &entry, &wrote,
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index aac6cfd..027da87 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -71,6 +71,54 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
   return posting;
 }
 
+namespace {
+void push_outermost(std::vector<Annotation> *erasures,
+                    std::shared_ptr<SimplePosting> posting) {
+  std::sort(erasures->begin(), erasures->end(),
+            [](const Annotation &a, const Annotation &b) {
+              return a.p < b.p || (a.p == b.p && a.q > b.q);
+            });
+  addr q = minfinity;
+  for (auto &erasure : *erasures)
+    if (erasure.p <= erasure.q && erasure.q > q) {
+      posting->push(erasure.p, erasure.q, erasure.v);
+      q = erasure.q;
+    }
+}
+} // namespace
+
+std::shared_ptr<SimplePosting> SimplePostingFactory::erasures_from_annotations(
+    std::vector<Annotation>::iterator *start,
+    const std::vector<Annotation>::iterator &end) {
+  if ((*start) >= end)
+    return nullptr;
+  addr feature = (*start)->feature;
+  std::vector<Annotation> erasures;
+  for (; (*start) < end && (*start)->feature == feature; (*start)++)
+    erasures.push_back(**start);
+  std::shared_ptr<SimplePosting> posting = posting_from_feature(feature);
+  push_outermost(&erasures, posting);
+  return posting;
+}
+
+std::shared_ptr<SimplePosting> SimplePostingFactory::erasures_from_merge(
+    const std::vector<std::shared_ptr<SimplePosting>> &postings) {
+  if (postings.size() == 0)
+    return nullptr;
+  addr feature = postings[0]->feature();
+  std::vector<Annotation> erasures;
+  for (auto &posting : postings) {
+    addr p, q;
+    fval v;
+    for (size_t i = 0; i < posting->size(); i++)
+      if (posting->get(i, &p, &q, &v))
+        erasures.emplace_back(feature, p, q, v);
+  }
+  std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
+  push_outermost(&erasures, merged_posting);
+  return merged_posting;
+}
+
 std::shared_ptr<SimplePosting>
 SimplePostingFactory::posting_from_feature(addr feature, bool open) {
   std::shared_ptr<SimplePosting> posting = std::shared_ptr<SimplePosting>(
diff --git a/src/simple_posting.h b/src/simple_posting.h
index 7470948..f2f9478 100644
--- a/src/simple_posting.h
+++ b/src/simple_posting.h
@@ -72,6 +72,13 @@ public:
   std::shared_ptr<SimplePosting>
   posting_from_annotations(std::vector<Annotation>::iterator *start,
                            const std::vector<Annotation>::iterator &end);
+  // Erasures nest outwards: one inside another adds nothing, so that the
+  // outermost remain (other annotations keep the innermost).
+  std::shared_ptr<SimplePosting>
+  erasures_from_annotations(std::vector<Annotation>::iterator *start,
+                            const std::vector<Annotation>::iterator &end);
+  std::shared_ptr<SimplePosting> erasures_from_merge(
+      const std::vector<std::shared_ptr<SimplePosting>> &postings);
   std::shared_ptr<SimplePosting> posting_from_feature(addr feature,
                                                       bool open = true);
   std::shared_ptr<SimplePosting>
-- 
2.43.0


From 093625994d6a069ad0f04db0a30d3d6c0dccf1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 28/81] fix: translate of a range ending at maxfinity lost the
 text

---
 src/fiver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index 54ed27c..7f07623 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -281,6 +281,8 @@ private:
   std::string translate_(addr p, addr q) final {
     if (p < 0)
       p = 0;
+    if (q == maxfinity)
+      q = maxfinity - 1;
     if (p == maxfinity || q < p)
       return "";
     addr p0, q0, i;
-- 
2.43.0


From ac1b4ba5bc0d24f6c535d0325374577306518c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 29/81] fix: aborting a stored transaction that was not ready
 removed a file named by uninitialized numbers

---
 src/fiver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiver.h b/src/fiver.h
index 0c099dc..315c841 100644
--- a/src/fiver.h
+++ b/src/fiver.h
@@ -98,7 +98,7 @@ private:
   bool built_;
   addr where_;
   addr storage_estimate_;
-  addr sequence_start_, sequence_end_;
+  addr sequence_start_ = -1, sequence_end_ = -1; // not known until ready
   std::shared_ptr<Compressor> posting_compressor_;
   std::shared_ptr<Compressor> fvalue_compressor_;
   std::shared_ptr<Compressor> text_compressor_;
-- 
2.43.0


From e768ff860646db532e935337bc288cea90006b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 30/81] fix: report failing writes of a transaction or shard
 file, instead of publishing it

---
 src/fiver.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7f07623..f42a78b 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -821,9 +821,16 @@ bool Fiver::pickle(const std::string &filename, std::string *error) {
     return false;
     jar.close();
   }
-  for (auto &posting : *index_)
+  for (auto &posting : *index_) {
     posting.second->write(&jar);
+    if (jar.fail())
+      break;
+  }
   jar.close();
+  if (jar.fail()) {
+    safe_error(error) = "Fiver failed to pickle into: " + filename;
+    return false;
+  }
   return true;
 }
 
@@ -1273,6 +1280,10 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
     return false;
   }
   out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fiver failed to write Hazel shard: " + filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From b2cf0fbb1ca7e228b349d152df13c80735a45b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 31/81] fix: report a configuration that could not be written

---
 src/dna.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index 3438bd6..163164e 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -46,7 +46,12 @@ bool write_dna(std::shared_ptr<Working> working, const std::string &dna,
   out << HEADER << "\n";
   out << dna;
   out.close();
-  std::rename(temp_filename.c_str(), dna_filename.c_str());
+  if (out.fail() ||
+      std::rename(temp_filename.c_str(), dna_filename.c_str()) != 0) {
+    std::remove(temp_filename.c_str());
+    safe_error(error) = "Can't write configuration to: " + dna_filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 75dc99824a101473c7c5dab435f0f640c35d9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 32/81] fix: clones of an index that stores JSON returned its
 text untranslated

---
 src/bigwig.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 6243f39..785bfb0 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -678,6 +678,7 @@ std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
   bigwig->fvalue_compressor_ = fvalue_compressor_;
   bigwig->posting_factory_ = posting_factory_;
   bigwig->text_compressor_ = text_compressor_;
+  bigwig->txt_recipe_ = txt_recipe_;
   bigwig->default_container_ = default_container_;
   if (stemmer_ != nullptr) {
     std::shared_ptr<cottontail::Stemmer> the_stemmer =
-- 
2.43.0


From c668235b8c2ba0614add37fcc805d3feb94bead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:55 +0000
Subject: [PATCH 33/81] fix: refuse changes to a transaction after it is ready

---
 src/fiver.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index f42a78b..0ab0a37 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -61,10 +61,18 @@ private:
   std::string recipe_() final { return ""; };
   bool annotate_(addr feature, addr p, addr q, fval v,
                  std::string *error = nullptr) final {
+    if (closed_) {
+      safe_error(error) = "FiverAnnotator can't annotate after ready";
+      return false;
+    }
     annotations_->emplace_back(feature, p, q, v);
     return true;
   };
   bool erase_(addr p, addr q, std::string *error) {
+    if (closed_) {
+      safe_error(error) = "FiverAnnotator can't erase after ready";
+      return false;
+    }
     annotations_->emplace_back(null_feature, p, q, 0.0);
     return true;
   }
@@ -76,9 +84,19 @@ private:
     }
     return true;
   };
-  bool ready_(std::string *error) final { return true; };
-  void commit_() final { annotations_ = nullptr; };
-  void abort_() final { annotations_->clear(); };
+  bool ready_(std::string *error) final {
+    closed_ = true;
+    return true;
+  };
+  void commit_() final {
+    closed_ = true;
+    annotations_ = nullptr;
+  };
+  void abort_() final {
+    closed_ = true;
+    annotations_->clear();
+  };
+  bool closed_ = false; // no more changes, once ready
   std::shared_ptr<std::vector<Annotation>> annotations_;
 };
 
@@ -117,6 +135,10 @@ private:
   FiverAppender(){};
   std::string recipe_() final { return ""; };
   bool append_(const std::string &text, addr *p, addr *q, std::string *error) {
+    if (closed_) {
+      safe_error(error) = "FiverAppender can't append after ready";
+      return false;
+    }
     if (text.length() == 0) {
       *p = address_ + 1;
       *q = address_;
@@ -161,6 +183,7 @@ private:
     return true;
   };
   bool ready_(std::string *error) {
+    closed_ = true;
     if (address_ == first_address_)
       text_->clear(); // text without tokens can't be addressed
     if (text_->length() > 0 && text_->back() != '\n')
@@ -177,13 +200,16 @@ private:
     return true;
   }
   void commit_() {
+    closed_ = true;
     address_ = staging;
     text_ = nullptr;
   }
   void abort_() {
+    closed_ = true;
     address_ = staging;
     (*text_) = "";
   }
+  bool closed_ = false; // no more text, once ready
   static const addr CHUNK_SIZE = 512;
   addr address_;
   addr first_address_;
-- 
2.43.0


From 7ef962d98666ed2e211bb361f3ee56f658412c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:39 +0000
Subject: [PATCH 34/81] fix: reading a range that ends far past the stored text
 overflowed

---
 src/simple_txt_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 9e9ddea..f81e08a 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -364,7 +364,7 @@ std::unique_ptr<char[]> SimpleTxtIO::read(addr start, addr desired,
   if (start < 0)
     start = 0;
   flush();
-  if (start + desired > size())
+  if (desired > size() - start)
     desired = size() - start;
   if (desired <= 0) {
     *actual = 0;
-- 
2.43.0


From d9512d0f3c480bcfe064f46eb22f4db40323222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:00 +0000
Subject: [PATCH 35/81] fix: a clone of block text storage could not read what
 was not yet flushed

---
 src/simple_txt_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index f81e08a..983b2bf 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -185,6 +185,7 @@ std::shared_ptr<SimpleTxtIO> SimpleTxtIO::clone(std::string *error) {
     safe_error(error) = "Can't clone SimpleTxtIo during transaction";
     return nullptr;
   }
+  flush();
   std::shared_ptr<SimpleTxtIO> io =
       std::shared_ptr<SimpleTxtIO>(new SimpleTxtIO(
           nameof_contents_, nameof_chunk_map_, chunk_size_, compressor_));
-- 
2.43.0


From 6827f95b0c6548635fe27fcb2d9a80ee294c4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 36/81] fix: a transaction on empty block text storage recorded
 an uninitialized length

---
 src/simple_txt_io.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 983b2bf..132c539 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -447,14 +447,14 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     safe_error(error) = "SimpleTxtIO can't record transaction info";
     return false;
   }
-  addr last_chunk_end = chunk_end_;
+  addr last_chunk_end = chunk_map_->size() > 0 ? chunk_end_ : 0;
   temp.write(reinterpret_cast<char *>(&last_chunk_end), sizeof(addr));
   if (temp.fail()) {
     std::remove(nameof_lock.c_str());
     safe_error(error) = "SimpleTxtIO can't record transaction info";
     return false;
   }
-  temp.write(chunk_.get(), chunk_end_);
+  temp.write(chunk_.get(), last_chunk_end);
   if (temp.fail()) {
     std::remove(nameof_lock.c_str());
     safe_error(error) = "SimpleTxtIO can't record transaction info";
-- 
2.43.0


From 4ebc11728edd4c905039a049568cb6154be4f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 37/81] fix: aborting a transaction on block text storage wrote
 unflushed text over what it restored

---
 src/simple_txt_io.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 132c539..8557a76 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -429,6 +429,7 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     safe_error(error) = "SimpleTxtIO can't obtain transaction lock";
     return false;
   }
+  flush();
   if (chunk_map_->size() > 0)
     fetch_last_chunk();
   std::string nameof_temp = nameof_contents_ + ".temp";
@@ -480,11 +481,12 @@ bool SimpleTxtIO::ready_(std::string *error) {
 void SimpleTxtIO::commit_() { unlock(nameof_contents_); }
 
 void SimpleTxtIO::abort_() {
+  // Anything still buffered has to go before the contents are restored.
+  contents_.close();
   restore(nameof_contents_, nameof_chunk_map_, chunk_size_, compressor_);
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
-  contents_.close();
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
   assert(!contents_.fail());
-- 
2.43.0


From 70d027d22c790a9ff8093a0a5692fa04deee9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 38/81] fix: report text that could not be written before a
 transaction commits

---
 src/simple_txt_io.cc | 22 ++++++++++++++++++++++
 src/simple_txt_io.h  |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 8557a76..2a4e681 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -88,11 +88,13 @@ void restore(const std::string &nameof_contents,
   where = contents.tellp();
   assert(!contents.fail() && where >= 0);
   contents.close();
+  assert(!contents.fail());
   mapf.seekp(-sizeof(where), mapf.end);
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
   mapf.close();
+  assert(!mapf.fail());
 }
 
 } // namespace
@@ -273,6 +275,9 @@ void SimpleTxtIO::sync_last_chunk() {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail())
+    write_failed_ = true;
   last_chunk_synced_ = true;
 }
 
@@ -295,6 +300,9 @@ void SimpleTxtIO::append_full_chunk(char *text) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail())
+    write_failed_ = true;
 }
 
 void SimpleTxtIO::start_new_chunk(char *text, addr length) {
@@ -321,6 +329,9 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail())
+    write_failed_ = true;
   last_chunk_synced_ = true;
 }
 
@@ -462,6 +473,12 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     return false;
   }
   temp.close();
+  if (temp.fail()) {
+    std::remove(nameof_temp.c_str());
+    std::remove(nameof_lock.c_str());
+    safe_error(error) = "SimpleTxtIO can't record transaction info";
+    return false;
+  }
   std::string nameof_limits = nameof_contents_ + ".limits";
   if (std::rename(nameof_temp.c_str(), nameof_limits.c_str()) != 0) {
     std::remove(nameof_temp.c_str());
@@ -475,6 +492,10 @@ bool SimpleTxtIO::transaction_(std::string *error) {
 
 bool SimpleTxtIO::ready_(std::string *error) {
   flush();
+  if (write_failed_) {
+    safe_error(error) = "SimpleTxtIO can't write to: " + nameof_contents_;
+    return false;
+  }
   return true;
 }
 
@@ -487,6 +508,7 @@ void SimpleTxtIO::abort_() {
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
+  write_failed_ = false;
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
   assert(!contents_.fail());
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..104d62f 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -30,6 +30,8 @@ public:
     if (!flushed_) {
       sync_last_chunk();
       contents_.flush();
+      if (contents_.fail())
+        write_failed_ = true;
       flushed_ = true;
     }
   }
@@ -69,6 +71,7 @@ private:
   bool chunk_valid_ = false;
   bool last_chunk_synced_ = true;
   bool flushed_ = true;
+  bool write_failed_ = false;
   size_t chunk_index_;
   std::unique_ptr<char[]> chunk_;
   std::streamsize chunk_end_;
-- 
2.43.0


From 52ff844e4f4be7fef10779f14a5ee3fa95c6fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 39/81] fix: a static index without text lost its annotations

---
 src/simple_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index d92e758..907f955 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -488,7 +488,7 @@ bool SimpleBuilder::build_index(std::string *error) {
     safe_error(error) = "SimpleBuilder can't open: " + pst_filename_;
     return false;
   }
-  if (tokq_.empty())
+  if (tokq_.empty() && annq_.empty())
     return true; // empty index
   std::vector<std::fstream> posting_fstreams;
   std::vector<std::shared_ptr<SimplePosting>> posting_nexts;
-- 
2.43.0


From a97b65b534190e07b0dc7710b1b7f6dd827da656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:20 +0000
Subject: [PATCH 40/81] fix: an id with a NUL byte was cut short when ids are
 stored apart

---
 src/fastid_txt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 81fbdad..bb1b057 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -194,7 +194,7 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   addr *ob = offset_buffer.get();
   char *tb = text_buffer.get();
   for (auto &id : ids) {
-    strcpy(tb, id.text.c_str());
+    memcpy(tb, id.text.data(), id.text.size());
     tb += id.text.size();
     *pb++ = id.p;
     *qb++ = id.q;
-- 
2.43.0


From bd0efeb53056582459c9ce6cf36cca28d6fe641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 41/81] fix: refuse text appended to a static index after its
 transaction is ready

---
 src/simple_appender.cc | 8 ++++++++
 src/simple_appender.h  | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..f457726 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -60,6 +60,7 @@ SimpleAppender::make(const std::string &recipe, std::string *error,
   appender->text_compressor_chunk_size_ = TEXT_COMPRESSOR_CHUNK_SIZE;
   appender->io_ = nullptr;
   appender->adding_ = false;
+  appender->isready_ = false;
   return appender;
 }
 
@@ -115,6 +116,11 @@ bool SimpleAppender::append_(const std::string &text, addr *p, addr *q,
     lock_.unlock();
     return false;
   }
+  if (isready_) {
+    safe_error(error) = "SimpleAppender transaction is already ready";
+    lock_.unlock();
+    return false;
+  }
   if (text.size() == 0) {
     *p = address_ + 1;
     *q = address_;
@@ -304,6 +310,7 @@ bool SimpleAppender::transaction_(std::string *error) {
     address_ = txtr.pq + tail_tokens.size();
   }
   adding_ = true;
+  isready_ = false;
   lock_.unlock();
   return true;
 }
@@ -315,6 +322,7 @@ bool SimpleAppender::ready_(std::string *error) {
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
     safe_error(error) = "SimpleAppender in failed state";
+  isready_ = result;
   lock_.unlock();
   return result;
 }
diff --git a/src/simple_appender.h b/src/simple_appender.h
index 3370aa8..678fec1 100644
--- a/src/simple_appender.h
+++ b/src/simple_appender.h
@@ -60,6 +60,7 @@ private:
   addr text_compressor_chunk_size_;
   std::shared_ptr<SimpleTxtIO> io_;
   bool adding_;
+  bool isready_;
   std::fstream txt_;
   addr address_;
   addr offset_;
-- 
2.43.0


From 9400e3150e2750e226c8f9d4a36a7bc8f07e03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 42/81] fix: text after a NUL byte was given addresses already
 in use

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index f457726..9d8c92e 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -294,7 +294,7 @@ bool SimpleAppender::transaction_(std::string *error) {
       lock_.unlock();
       return false;
     }
-    std::string tail_string = tail.get();
+    std::string tail_string(tail.get(), actual);
     std::vector<std::string> tail_tokens = tokenizer_->split(tail_string);
     if (tail_tokens.size() == 0) {
       safe_error(error) =
-- 
2.43.0


From ebc89304233e9ec536e4ba8ba9b59d00bc611029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 43/81] fix: report annotations that could not be written
 before a transaction commits

---
 src/simple_annotator.cc | 13 +++++++++++++
 src/simple_appender.cc  |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index e4d6b76..50f2035 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -198,6 +198,16 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + idx_filename;
+    return false;
+  }
   return true;
 }
 
@@ -228,6 +238,9 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
             posting_factory->posting_from_annotations(&it, added->end());
         posting->write(&addf);
       }
+      addf.close();
+      if (addf.fail())
+        (*cannot_create_temp_files) = true;
     };
     std::string add_filename = working_->make_temp("ann");
     added_files_.push_back(add_filename);
diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 9d8c92e..29906eb 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -318,6 +318,14 @@ bool SimpleAppender::transaction_(std::string *error) {
 bool SimpleAppender::ready_(std::string *error) {
   lock_.lock();
   bool result = !failed_ && adding_ && io_->ready(error);
+  if (result) {
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) = "SimpleAppender can't write to: " + txt_filename_;
+      lock_.unlock();
+      return false;
+    }
+  }
   if (!result && !failed_ && !adding_)
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
-- 
2.43.0


From ff5083441b5f8e5e2c586138dab9eae0374c04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 44/81] fix: a word with a NUL byte was stemmed to what was
 stemmed before

---
 src/porter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/porter.h b/src/porter.h
index 520eab3..5b43c4d 100644
--- a/src/porter.h
+++ b/src/porter.h
@@ -40,9 +40,9 @@ private:
     }
     lock_.lock();
     char *p = b;
-    for (const char *q = word.c_str(); *q; q++)
-      if (LETTER(*q)) {
-        *p++ = tolower(*q);
+    for (unsigned char c : word)
+      if (LETTER(c)) {
+        *p++ = tolower(c);
       } else {
         if (stemmed != nullptr)
           *stemmed = false;
-- 
2.43.0


From 480852a06dab22c026df30836272c97237bb06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:26 +0000
Subject: [PATCH 45/81] fix: stemming words such as ies or ion read before the
 start of the word

---
 src/porter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/porter.cc b/src/porter.cc
index 5101162..ec9ad6f 100644
--- a/src/porter.cc
+++ b/src/porter.cc
@@ -294,7 +294,7 @@ void Porter::step4()
                  if (ends("\05" "ement")) break;
                  if (ends("\04" "ment")) break;
                  if (ends("\03" "ent")) break; return;
-       case 'o': if (ends("\03" "ion") && (b[j] == 's' || b[j] == 't')) break;
+       case 'o': if (ends("\03" "ion") && j >= k0 && (b[j] == 's' || b[j] == 't')) break;
                  if (ends("\02" "ou")) break; return;
                  /* takes care of -ous */
        case 's': if (ends("\03" "ism")) break; return;
@@ -340,7 +340,8 @@ int Porter::porter(char * p, int i, int j)
       published algorithm. Remove the line to match the published
       algorithm. */
 
-   step1ab(); step1c(); step2(); step3(); step4(); step5();
+   step1ab();
+   if (k > k0) { step1c(); step2(); step3(); step4(); step5(); } // C++ conversion
    return k;
 }
 } // namespace cottontail
-- 
2.43.0


From ec13cf18852b39e8cdcd8d6074e2b649257a4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 46/81] fix: reciprocal rank reported average precision

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 4cf7770..e22a8ff 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -179,7 +179,7 @@ void trec_eval(const std::map<addr, fval> &qrels,
     ap /= rels_possible;
   }
   (*metrics)["ap"] = ap;
-  (*metrics)["rr"] = ap;
+  (*metrics)["rr"] = rr;
   (*metrics)["p05"] = p05;
   (*metrics)["p10"] = p10;
   (*metrics)["p20"] = p20;
-- 
2.43.0


From 896a6e7d384d0c901ad5db86c354dae326ed6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 47/81] fix: grades were not numbers when no judged document is
 relevant

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index e22a8ff..c97e3d6 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -129,7 +129,7 @@ bool load_trec_qrels(std::shared_ptr<Warren> warren,
       if (microsoft_interpretation_of_grades)
         (*qrels)[topic.first][docno.first] =
             (std::pow(2.0, docno.second) - 1.0) / std::pow(2.0, max_level);
-      else
+      else if (max_level > 0.0)
         (*qrels)[topic.first][docno.first] /= max_level;
   return true;
 }
-- 
2.43.0


From 625a35dd766ea12b25ee561547cd3867e4e548d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 48/81] fix: the effectiveness difference of two empty rankings
 was not a number

---
 src/eval.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index c97e3d6..7121978 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -388,8 +388,11 @@ void med(const std::vector<RankingResult> &one,
       std::max(metrics1["med-rbp50"], metrics2["med-rbp50"]);
   (*metrics)["med-rbp95"] =
       std::max(metrics1["med-rbp95"], metrics2["med-rbp95"]);
-  (*metrics)["med-ndcg"] = (*metrics)["med-dcg"] /
-                           med_fake_ideal_dcg(std::max(one.size(), two.size()));
+  size_t depth = std::max(one.size(), two.size());
+  if (depth > 0)
+    (*metrics)["med-ndcg"] = (*metrics)["med-dcg"] / med_fake_ideal_dcg(depth);
+  else
+    (*metrics)["med-ndcg"] = 0.0;
 }
 
 void mean(const std::map<std::string, fval> &metrics,
-- 
2.43.0


From fdafc29b7438c48965798cb0d1b0e03ae8b4318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 49/81] fix: averaging read a measure after erasing it

---
 src/eval.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 7121978..1bc2fd9 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -401,29 +401,33 @@ void mean(const std::map<std::string, fval> &metrics,
     (*mean_metrics) = metrics;
     (*mean_metrics)["n"] = 1.0;
   } else if ((*mean_metrics).find("n") == (*mean_metrics).end()) {
-    for (auto &&metric : (*mean_metrics))
-      if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= 2.0;
+    for (auto metric = mean_metrics->begin(); metric != mean_metrics->end();) {
+      if (metric->first != "n") {
+        if (metrics.find(metric->first) == metrics.end()) {
+          metric = mean_metrics->erase(metric);
+          continue;
         }
+        metric->second += metrics.at(metric->first);
+        metric->second /= 2.0;
       }
+      ++metric;
+    }
     (*mean_metrics)["n"] = 2.0;
   } else {
     fval n = (*mean_metrics)["n"];
     assert(n > 0.0);
-    for (auto &&metric : (*mean_metrics))
-      if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] *= n;
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= (n + 1.0);
+    for (auto metric = mean_metrics->begin(); metric != mean_metrics->end();) {
+      if (metric->first != "n") {
+        if (metrics.find(metric->first) == metrics.end()) {
+          metric = mean_metrics->erase(metric);
+          continue;
         }
+        metric->second *= n;
+        metric->second += metrics.at(metric->first);
+        metric->second /= (n + 1.0);
       }
+      ++metric;
+    }
     (*mean_metrics)["n"]++;
   }
 }
-- 
2.43.0


From e5c9c709bb1c7728282b98b3120b1f727cf5c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 50/81] fix: term frequencies of items around addresses without
 text were counted in the wrong text

---
 src/ranking.cc | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..a03636d 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -757,6 +757,28 @@ std::vector<std::string> kld_prf(std::shared_ptr<Warren> warren,
   return expansion_terms;
 }
 
+namespace {
+// Tokens of each item. The items are translated together, unless there are
+// addresses without text between them.
+std::vector<std::vector<std::string>>
+item_tokens(std::shared_ptr<Warren> warren, const std::vector<addr> &ps,
+            const std::vector<addr> &qs) {
+  std::vector<std::vector<std::string>> items;
+  std::string text = warren->txt()->translate(ps.front(), qs.back());
+  std::vector<std::string> tokens = warren->tokenizer()->split(text);
+  bool together =
+      (static_cast<addr>(tokens.size()) == qs.back() - ps.front() + 1);
+  for (size_t i = 0; i < ps.size(); i++)
+    if (together)
+      items.emplace_back(tokens.begin() + (ps[i] - ps[0]),
+                         tokens.begin() + (qs[i] - ps[0] + 1));
+    else
+      items.emplace_back(warren->tokenizer()->split(
+          warren->txt()->translate(ps[i], qs[i])));
+  return items;
+}
+} // namespace
+
 // Generate term frequency annotations over a range.
 bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
                     addr start, addr end) {
@@ -798,13 +820,13 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     }
     if (ps.size() > 0 &&
         (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
+      std::vector<std::vector<std::string>> items =
+          item_tokens(warren, ps, qs);
       for (size_t i = 0; i < ps.size(); i++) {
         std::map<addr, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          addr feature = tf_featurizer->featurize(
-              warren->stemmer()->stem(tokens[j - ps[0]]));
+        for (auto &token : items[i]) {
+          addr feature =
+              tf_featurizer->featurize(warren->stemmer()->stem(token));
           auto it = tf.find(feature);
           if (it == tf.end())
             tf[feature] = 1;
@@ -893,12 +915,12 @@ bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
       qs.push_back(q);
     }
     if (ps.size() > 0 && (p == maxfinity || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
+      std::vector<std::vector<std::string>> items =
+          item_tokens(warren, ps, qs);
       for (size_t i = 0; i < ps.size(); i++) {
         std::map<std::string, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          std::string stem = warren->stemmer()->stem(tokens[j - ps[0]]);
+        for (auto &token : items[i]) {
+          std::string stem = warren->stemmer()->stem(token);
           auto it = tf.find(stem);
           if (it == tf.end())
             tf[stem] = 1;
-- 
2.43.0


From 8f519aded105c753e47bbeb00f623726ed610111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 51/81] fix: term frequencies over a range left out the items
 not yet counted when it ends, and had no totals without a start

---
 src/ranking.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index a03636d..519954a 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -810,16 +810,18 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   addr p = start, q, total_items = 0, total_length = 0;
   if (p == minfinity)
     p += 1;
-  for (hopper->tau(p, &p, &q); q <= end && q < maxfinity;
-       hopper->tau(p + 1, &p, &q)) {
-    if (q <= end && q < maxfinity) {
+  bool more = true;
+  for (hopper->tau(p, &p, &q); more; hopper->tau(p + 1, &p, &q)) {
+    more = (q <= end && q < maxfinity);
+    if (more) {
+      if (start == minfinity)
+        start = p;
       total_items++;
       total_length += q - p + 1;
       ps.push_back(p);
       qs.push_back(q);
     }
-    if (ps.size() > 0 &&
-        (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
+    if (ps.size() > 0 && (!more || qs.back() - ps.front() > HUGE)) {
       std::vector<std::vector<std::string>> items =
           item_tokens(warren, ps, qs);
       for (size_t i = 0; i < ps.size(); i++) {
-- 
2.43.0


From 4404b2b209bdfa5e1f3d133b75ea1366257c0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 52/81] fix: counting term frequencies without an item
 definition did not stop

---
 src/ranking.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ranking.cc b/src/ranking.cc
index 519954a..3282e3e 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -789,6 +789,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   if (content_query == "") {
     safe_error(error) =
         "tf_annotations can't find a definition for item content";
+    return false;
   }
   std::unique_ptr<cottontail::Hopper> hopper =
       warren->hopper_from_gcl(content_query, error);
-- 
2.43.0


From 6e16a519d3702dbb6984b0000848117566deec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 53/81] fix: tiered ranking ignored the parameters of the
 ranking inside a tier

---
 src/ranking.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 3282e3e..4b24986 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -248,7 +248,7 @@ tiered_ranking(std::shared_ptr<Warren> warren,
   std::set<addr> container_seen;
   for (auto &&tier : tiers) {
     std::vector<RankingResult> ranking =
-        ssr_ranking(warren, tier, container, depth);
+        ssr_ranking(warren, tier, container, parameters, depth);
     for (size_t i = 0; i < ranking.size() && top.size() < depth; i++)
       if (container_seen.find(ranking[i].container_p()) ==
           container_seen.end()) {
-- 
2.43.0


From 1288eea2a6a1352420df19fd0d74f1cb71d85075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 54/81] fix: statistics left out of an index were reported as
 present

---
 src/idf_stats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf_stats.cc b/src/idf_stats.cc
index dad3e32..dd84f26 100644
--- a/src/idf_stats.cc
+++ b/src/idf_stats.cc
@@ -47,13 +47,13 @@ std::shared_ptr<Stats> IdfStats::make(const std::string &recipe,
     return nullptr;
   std::string value;
   std::string unstemmed = "unstemmed";
-  if (!warren->get_parameter(unstemmed, &value, error))
+  if (warren->get_parameter(unstemmed, &value, error) && value != "")
     stats->have_unstemmed_ = okay(value);
   std::string idf = "idf";
-  if (!warren->get_parameter(idf, &value, error))
+  if (warren->get_parameter(idf, &value, error) && value != "")
     stats->have_idf_ = okay(value);
   std::string rsj = "rsj";
-  if (!warren->get_parameter(rsj, &value, error))
+  if (warren->get_parameter(rsj, &value, error) && value != "")
     stats->have_rsj_ = okay(value);
   return stats;
 }
-- 
2.43.0


From 7a1873ef3ecd38b88fdeb882071f755b8a1917ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 55/81] fix: backward access to weighted term frequencies found
 the wrong item

---
 src/field_stats.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/field_stats.cc b/src/field_stats.cc
index fb8fbf0..8e97d4e 100644
--- a/src/field_stats.cc
+++ b/src/field_stats.cc
@@ -214,11 +214,16 @@ private:
     tau(p0, p, q, v);
   };
   void uat_(addr k, addr *p, addr *q, fval *v) final {
+    addr p0, q0;
+    content_hopper_->uat(k, &p0, &q0);
+    ohr(p0, p, q, v);
+  };
+  void ohr_(addr k, addr *p, addr *q, fval *v) final {
     std::vector<addr> ps, tfs;
     addr max_p = minfinity;
     for (size_t i = 0; i < tf_hoppers_.size(); i++) {
       addr p0, q0, tf0;
-      tf_hoppers_[i]->uat(k, &p0, &q0, &tf0);
+      tf_hoppers_[i]->ohr(k, &p0, &q0, &tf0);
       ps.push_back(p0);
       tfs.push_back(tf0);
       max_p = std::max(max_p, p0);
@@ -227,14 +232,9 @@ private:
     for (size_t i = 0; i < tfs.size(); i++)
       if (ps[i] == max_p)
         tf += weights_[i] * tfs[i];
-    content_hopper_->uat(max_p, p, q);
+    content_hopper_->ohr(max_p, p, q);
     *v = tf;
   };
-  void ohr_(addr k, addr *p, addr *q, fval *v) final {
-    addr p0, q0;
-    content_hopper_->ohr(k, &p0, &q0);
-    uat(q0, p, q, v);
-  };
   std::vector<fval> weights_;
   std::vector<std::unique_ptr<Hopper>> tf_hoppers_;
   std::unique_ptr<Hopper> content_hopper_;
-- 
2.43.0


From 6deb205fa1543667e18bd32bf5b19a3e625f201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:33 +0000
Subject: [PATCH 56/81] fix: product ranking without a depth failed for tags
 that name no ranker

---
 src/parameters.h | 2 +-
 src/ranking.cc   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parameters.h b/src/parameters.h
index eeb1fed..5c29e87 100644
--- a/src/parameters.h
+++ b/src/parameters.h
@@ -105,12 +105,12 @@ public:
 
   static std::shared_ptr<Parameters>
   from_ranker_name(const std::string &ranker_name);
+  static fval default_depth();
 
 protected:
   Parameters() = default;
 
 private:
-  fval default_depth();
   virtual std::map<std::string, fval> random_() = 0;
   virtual std::map<std::string, fval> defaults_() = 0;
 };
diff --git a/src/ranking.cc b/src/ranking.cc
index 4b24986..467bf98 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -34,8 +34,12 @@ fval ranking_parameter(std::string ranker_name, std::string parameter_name,
     return parameters.at(full_parameter_name);
   if (parameters.find(parameter_name) != parameters.end())
     return parameters.at(parameter_name);
-  std::map<std::string, fval> defaults =
-      Parameters::from_ranker_name(ranker_name)->defaults();
+  std::shared_ptr<Parameters> ranker =
+      Parameters::from_ranker_name(ranker_name);
+  if (ranker == nullptr && parameter_name == "depth")
+    return Parameters::default_depth(); // a tag, which has no other parameters
+  assert(ranker != nullptr);
+  std::map<std::string, fval> defaults = ranker->defaults();
   if (defaults.find(full_parameter_name) != defaults.end())
     return defaults[full_parameter_name];
   assert(defaults.find(parameter_name) != defaults.end());
-- 
2.43.0


From 01eac79ee470c25d618ec37eeb0765b63e468651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 57/81] fix: the end of a range of term frequencies could
 overflow an address

---
 src/ranking.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 467bf98..f75aa1c 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -816,7 +816,8 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   if (p == minfinity)
     p += 1;
   bool more = true;
-  for (hopper->tau(p, &p, &q); more; hopper->tau(p + 1, &p, &q)) {
+  while (more) {
+    hopper->tau(p, &p, &q);
     more = (q <= end && q < maxfinity);
     if (more) {
       if (start == minfinity)
@@ -850,6 +851,8 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
       ps.clear();
       qs.clear();
     }
+    if (more)
+      p++;
   }
   if (total_items == 0) {
     safe_error(error) = "tf_annotations can't find any items for ranking";
-- 
2.43.0


From 3fc30e50593fc83bb7ab6c0ab718f81d46489386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:16 +0000
Subject: [PATCH 58/81] fix: threads that ask for no error message shared one
 unsynchronised string

---
 src/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.h b/src/core.h
index 39d9e92..8283d10 100644
--- a/src/core.h
+++ b/src/core.h
@@ -37,7 +37,7 @@ inline fval addr2fval(addr a) {
 }
 
 template <typename T> T &safe_set(T *thing) {
-  static T never_used;
+  static thread_local T never_used;
   if (thing == nullptr)
     return never_used;
   else
-- 
2.43.0


From 5e182ba1999e676c8623e6eda7065a24e5ad4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:15 +0000
Subject: [PATCH 59/81] fix: opening a meadow that is not there crashed

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..c2a87b4 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From fb10595a2b9365a427974d5ca3c06490dc12e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:15 +0000
Subject: [PATCH 60/81] fix: a file was taken for already appended when the
 name of an appended one continues its name

---
 meadowlark/meadowlark.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index c2a87b4..6294fc8 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -101,7 +101,7 @@ bool path_match(const std::string &text, const std::string &path) {
   while (end < text.size() &&
          std::isspace(static_cast<unsigned char>(text[end])))
     end++;
-  return true;
+  return end == text.size();
 }
 
 bool append_path(std::shared_ptr<Appender> appender,
-- 
2.43.0


From 99a6da8e5a907bbd313b472f369ac13197ec3377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 61/81] fix: a tabular file whose records could not be added
 was left marked as appended

---
 meadowlark/meadowlark.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 6294fc8..a968ac0 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -312,9 +312,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   addr path_feature;
   if (!append_path_warren(warren, filename, &path_feature, error))
     return false;
-  warren->commit();
-  if (lines.size() == 0)
+  if (lines.size() == 0) {
+    warren->commit();
     return true;
+  }
   threads = thread_count(threads, lines.size());
   std::string wsep = separator;
   if (wsep == "")
@@ -327,6 +328,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clone->start();
@@ -336,6 +338,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clones.push_back(clone);
@@ -411,12 +414,14 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
       c->abort();
       c->end();
     }
+    warren->abort();
     return false;
   }
-  for (auto &c : clones) {
-    c->commit();
+  std::vector<std::shared_ptr<cottontail::Warren>> warrens = clones;
+  warrens.push_back(warren);
+  Warren::commit_all(warrens);
+  for (auto &c : clones)
     c->end();
-  }
   return true;
 }
 
-- 
2.43.0


From d15a47dab66de747a4b2e5837fd8eb45618f2413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 62/81] fix: foraging with parameters the forager does not
 accept crashed

---
 meadowlark/meadowlark.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index a968ac0..7976b5d 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -449,7 +449,7 @@ bool forage(std::shared_ptr<Warren> warren,
       std::lock_guard<std::mutex> _(sync);
       if (failed)
         return;
-      twarren = warren->clone(error);
+      twarren = warren->clone(&terror);
       if (twarren == nullptr) {
         failed = true;
         safe_error(error) = terror;
@@ -459,7 +459,7 @@ bool forage(std::shared_ptr<Warren> warren,
     twarren->start();
     std::shared_ptr<Forager> forager =
         Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
+    if (forager == nullptr || !forager->transaction(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       twarren->end();
       if (!failed) {
-- 
2.43.0


From 9f9858b1fbf6ba6b072b30861b4e42568f308f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:20 +0000
Subject: [PATCH 63/81] fix: an annotation a builder refused was reported as
 added

---
 src/scribe.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..9cb301c 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -124,8 +124,7 @@ private:
       safe_error(error) = "BuilderAnnotator has null builder";
       return false;
     }
-    builder_->add_annotation(feature, p, q, v, error);
-    return true;
+    return builder_->add_annotation(feature, p, q, v, error);
   };
   bool transaction_(std::string *error) final { return true; };
   bool ready_(std::string *error) final { return true; };
-- 
2.43.0


From b5e897b6ea8e6892dca7414e41ae983eaafbaed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 64/81] fix: scribing a file that could not be read or added
 left its transaction open

---
 src/scribe.cc | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 9cb301c..f3e66f4 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -268,30 +268,27 @@ bool scribe_files(const std::vector<std::string> &filenames,
     if (verbose)
       std::cerr << "scribing: " << filename << "\n";
     std::shared_ptr<std::string> content = inhale(filename, error);
-    if (content) {
-      addr name_p, name_q, content_p, content_q;
-      if (!scribe->appender()->append(filename, &name_p, &name_q, error))
-        return false;
-      if (!scribe->appender()->append(*content, &content_p, &content_q, error))
-        return false;
-      if (!scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(filename_feature, name_p, name_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(content_feature, content_p, content_q,
-                                         error))
-        return false;
-      if (verbose)
-        std::cerr << "scribe_files commiting: " << filename << "\n";
-      if (!scribe->ready()) {
-        safe_error(error) =
-            "Function scribe_files unable to commit transaction";
-        return false;
-      }
-      scribe->commit();
+    addr name_p, name_q, content_p, content_q;
+    if (content == nullptr ||
+        !scribe->appender()->append(filename, &name_p, &name_q, error) ||
+        !scribe->appender()->append(*content, &content_p, &content_q, error) ||
+        !scribe->annotator()->annotate(file_feature, name_p, content_q,
+                                       error) ||
+        !scribe->annotator()->annotate(filename_feature, name_p, name_q,
+                                       error) ||
+        !scribe->annotator()->annotate(content_feature, content_p, content_q,
+                                       error)) {
+      scribe->abort();
+      return false;
+    }
+    if (verbose)
+      std::cerr << "scribe_files commiting: " << filename << "\n";
+    if (!scribe->ready()) {
+      safe_error(error) = "Function scribe_files unable to commit transaction";
+      scribe->abort();
+      return false;
     }
+    scribe->commit();
   }
   if (verbose)
     std::cerr << "scribe done\n";
-- 
2.43.0


From 8f9efa74cf49dc659519626c16555b503b47c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 65/81] fix: scribing JSON lines dropped an unterminated last
 line and left failed transactions open

---
 src/scribe.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index f3e66f4..33fff42 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -1,5 +1,6 @@
 #include "src/scribe.h"
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -309,6 +310,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                   bool verbose) {
   if (scribe == nullptr) {
     safe_error(error) = "Function scribe_jsonl passed null scribe";
+    return false;
   }
   for (auto &filename : filenames) {
     if (verbose)
@@ -326,13 +328,14 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     std::string::size_type pos;
     std::string::size_type prev;
     std::string newline = "\n";
-    for (prev = 0; (pos = everything->find(newline, prev)) != std::string::npos;
-         prev = pos + 1) {
+    for (prev = 0; prev < everything->size(); prev = pos + 1) {
+      pos = std::min(everything->find(newline, prev), everything->size());
       addr p0, q0;
       if (!json_scribe(everything->substr(prev, pos - prev), scribe, &p0,
                        &q0)) {
         safe_error(error) = "Cannot scribe json line: " + filename + ":" +
                             std::to_string(number);
+        scribe->abort();
         return false;
       }
       p = std::min(p, p0);
@@ -341,10 +344,13 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     }
     if (p < maxfinity && q > minfinity && p <= q)
       if (!scribe->annotator()->annotate(
-              scribe->featurizer()->featurize(path(filename)), p, q, error))
+              scribe->featurizer()->featurize(path(filename)), p, q, error)) {
+        scribe->abort();
         return false;
+      }
     if (!scribe->ready()) {
       safe_error(error) = "Function scribe_jsonl unable to commit transaction";
+      scribe->abort();
       return false;
     }
     scribe->commit();
-- 
2.43.0


From 8cee7156060ae29565695369a7688ef024869df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 66/81] fix: building from a file that cannot be read crashed

---
 src/builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..7c30f1e 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -158,6 +158,8 @@ bool build_trec(const std::vector<std::string> &text,
     if (builder->verbose())
       std::cout << "Builder inhaling: " << filename << "\n";
     std::shared_ptr<std::string> contents = inhale(filename, error);
+    if (contents == nullptr)
+      return false;
     addr p, q;
     if (!builder->add_text(*contents, &p, &q, error))
       return false;
-- 
2.43.0


From 943e06b16aea0c3d5012941495892c27cccc8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 67/81] fix: a compressed file that cannot be fully read was
 taken for a shorter one

---
 src/builder.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/builder.cc b/src/builder.cc
index 7c30f1e..619cd37 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -12,6 +12,8 @@
 #include <string>
 #include <vector>
 
+#include <sys/wait.h>
+
 #include "src/core.h"
 
 namespace cottontail {
@@ -71,21 +73,32 @@ protected:
     if (file_ == nullptr)
       return traits_type::eof();
     size_t count = fread(buffer_.data(), 1, buffer_.size(), file_);
-    if (count == 0)
+    if (count == 0) {
+      if (!close())
+        throw std::ios_base::failure("FileStreamBuffer got a read error");
       return traits_type::eof();
+    }
     setg(buffer_.data(), buffer_.data(), buffer_.data() + count);
     return traits_type::to_int_type(*gptr());
   }
 
 private:
-  void close() {
+  bool close() {
     if (file_ == nullptr)
-      return;
-    if (pipe_)
-      pclose(file_);
-    else
+      return true;
+    bool okay = !ferror(file_);
+    if (pipe_) {
+      // zcat exits with 2 for a warning only
+      int status = pclose(file_);
+      if (status != -1 &&
+          (!WIFEXITED(status) ||
+           (WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 2)))
+        okay = false;
+    } else {
       fclose(file_);
+    }
     file_ = nullptr;
+    return okay;
   }
 
   FILE *file_;
-- 
2.43.0


From facc36fca0ba41cb227d394b2c05797ecfa032d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 68/81] fix: a record ending in an empty field reached into the
 next record

---
 meadowlark/meadowlark.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 7976b5d..e0de5a3 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -381,8 +381,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
           }
           return;
         }
-        p0 = std::min(p0, p1);
-        q0 = std::max(q0, q1);
+        if (p1 <= q1) {
+          p0 = std::min(p0, p1);
+          q0 = std::max(q0, q1);
+        }
       }
       if (p0 <= q0 &&
           !twarren->annotator()->annotate(record_feature, p0, q0, &terror)) {
@@ -392,8 +394,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         }
         return;
       }
-      p = std::min(p, p0);
-      q = std::max(q, q0);
+      if (p0 <= q0) {
+        p = std::min(p, p0);
+        q = std::max(q, q0);
+      }
     }
     if ((p <= q &&
          !twarren->annotator()->annotate(path_feature, p, q, &terror)) ||
-- 
2.43.0


From 2ad17e9658c2a0bec507a38a4eef329ceb6e16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 69/81] fix: a compressed file whose name starts with a dash
 was taken for an option

---
 src/builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.cc b/src/builder.cc
index 619cd37..869508d 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -138,7 +138,7 @@ std::unique_ptr<std::istream> maybe_zipped(const std::string &filename,
     safe_error(error) = "Can't find zcat in any of the usual places";
     return nullptr;
   }
-  std::string zcat_command = zcat_path + " " + shell_quote(filename);
+  std::string zcat_command = zcat_path + " -- " + shell_quote(filename);
   FILE *pipe = popen(zcat_command.c_str(), "r");
   if (!pipe) {
     safe_error(error) = "Can't run zcat command: " + zcat_command;
-- 
2.43.0


From 52343e394bd9e146567fae6d5770bf3b61385d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 70/81] fix: an empty file was scribed as reaching into the
 next one

---
 src/scribe.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 33fff42..4a4e6c1 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -273,8 +273,9 @@ bool scribe_files(const std::vector<std::string> &filenames,
     if (content == nullptr ||
         !scribe->appender()->append(filename, &name_p, &name_q, error) ||
         !scribe->appender()->append(*content, &content_p, &content_q, error) ||
-        !scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                       error) ||
+        !scribe->annotator()->annotate(
+            file_feature, name_p <= name_q ? name_p : content_p,
+            content_p <= content_q ? content_q : name_q, error) ||
         !scribe->annotator()->annotate(filename_feature, name_p, name_q,
                                        error) ||
         !scribe->annotator()->annotate(content_feature, content_p, content_q,
-- 
2.43.0


From 83b74265dd6ceee4eefd4fc98dad6707ad90319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 71/81] fix: committing a forager that had found nothing
 crashed

---
 meadowlark/tf-idf_forager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/tf-idf_forager.cc b/meadowlark/tf-idf_forager.cc
index 2d64a2f..3661d69 100644
--- a/meadowlark/tf-idf_forager.cc
+++ b/meadowlark/tf-idf_forager.cc
@@ -99,7 +99,7 @@ bool TfIdfForager::forage_(addr p, addr q, std::string *error) {
 
 bool TfIdfForager::ready_(std::string *error) {
   if (p_min_ == maxfinity)
-    return true;
+    return warren_->ready(error);
   for (auto &feature : df_)
     if (!warren_->annotator()->annotate(feature.first, p_min_, p_min_,
                                         feature.second, error))
-- 
2.43.0


From 58287aa209bcdc445ee1cdc874409ec744f1779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 72/81] fix: statistics foraged under the default name could
 not be found

---
 meadowlark/forager.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meadowlark/forager.cc b/meadowlark/forager.cc
index 371af00..8489caa 100644
--- a/meadowlark/forager.cc
+++ b/meadowlark/forager.cc
@@ -16,14 +16,14 @@
 namespace cottontail {
 namespace meadowlark {
 
+namespace {
+const std::string DEFAULT_FORAGER = "tf-idf";
+} // namespace
+
 std::string forager_label(const std::string &name, const std::string &tag) {
-  std::string combined_tag;
-  if (name != "")
-    combined_tag = name + ":";
+  std::string combined_tag = (name == "" ? DEFAULT_FORAGER : name) + ":";
   if (tag != "")
     combined_tag += tag + ":";
-  if (combined_tag == "")
-    combined_tag = "tf-idf:";
   return combined_tag;
 }
 
@@ -41,7 +41,7 @@ Forager::make(std::shared_ptr<Warren> warren, const std::string &name,
   else
     safe_error(error) = "No Forager named: " + name;
   if (forager != nullptr) {
-    forager->name_ = name;
+    forager->name_ = (name == "" ? DEFAULT_FORAGER : name);
     forager->tag_ = tag;
     forager->parameters_ = parameters;
     forager->warren_ = warren;
-- 
2.43.0


From d2bb73f05a4ff9e7fb682abb5aa8bd7c461fee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:53 +0000
Subject: [PATCH 73/81] fix: switching merging on or off raced with commits of
 other threads

---
 src/bigwig.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 785bfb0..d465366 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -661,12 +661,11 @@ std::shared_ptr<Bigwig> Bigwig::make(
 
 void Bigwig::merge(bool on) {
   set_parameter("merge", okay(on));
-  if (on) {
-    fluffle_->merge = true;
+  fluffle_->lock.lock();
+  fluffle_->merge = on;
+  fluffle_->lock.unlock();
+  if (on)
     try_merge();
-  } else {
-    fluffle_->merge = false;
-  }
 }
 
 std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
@@ -1339,15 +1338,13 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
 } // namespace
 
 void Bigwig::try_merge() {
-  if (fluffle_->merge) {
-    fluffle_->lock.lock();
-    if (fluffle_->workers < fluffle_->max_workers) {
-      fluffle_->workers++;
-      std::thread t(merge_worker, fluffle_);
-      t.detach();
-    }
-    fluffle_->lock.unlock();
+  fluffle_->lock.lock();
+  if (fluffle_->merge && fluffle_->workers < fluffle_->max_workers) {
+    fluffle_->workers++;
+    std::thread t(merge_worker, fluffle_);
+    t.detach();
   }
+  fluffle_->lock.unlock();
 }
 
 void Bigwig::commit_() {
-- 
2.43.0


From 0a8c48db6f18fdb9f331ba50523aead3655eb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 74/81] fix: a working directory whose name holds a space or
 other shell characters lost other files and was not listed

---
 src/working.cc | 41 ++++++++++++-----------------------------
 src/working.h  | 17 ++++++++++-------
 2 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/src/working.cc b/src/working.cc
index 7e905b5..83987ca 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -1,11 +1,13 @@
 #include "src/working.h"
 
-#include <array>
+#include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <filesystem>
 #include <fstream>
 #include <memory>
-#include <regex>
+#include <string>
+#include <system_error>
 #include <vector>
 
 #include "src/compressor.h"
@@ -339,35 +341,16 @@ std::shared_ptr<Writer> Writer::make(const std::string &name,
 };
 
 std::vector<std::string> Working::ls(const std::string &prefix) {
-  std::string ls_command;
-  FILE *fp = fopen("/usr/bin/ls", "r");
-  if (fp) {
-    fclose(fp);
-    ls_command = "/usr/bin/ls " + working_;
-  } else {
-    fp = fopen("/bin/ls", "r");
-    assert(fp);
-    fclose(fp);
-    ls_command = "/bin/ls " + working_;
-  }
-  FILE *pipe = popen(ls_command.c_str(), "r");
-  assert(pipe);
-  std::string pattern = "^" + prefix + "\\.*";
-  std::regex r(pattern);
   std::vector<std::string> names;
-  const size_t buffer_size = 256;
-  std::array<char, buffer_size> buffer;
-  while (fgets(buffer.data(), buffer_size, pipe) != NULL) {
-    if (!std::regex_search(buffer.data(), r))
-      continue;
-    for (char *s = buffer.data(); *s != '\0'; s++)
-      if (*s == '\n') {
-        *s = '\0';
-        break;
-      }
-    names.emplace_back(buffer.data());
+  std::error_code error;
+  std::filesystem::directory_iterator end;
+  for (std::filesystem::directory_iterator it(working_, error);
+       !error && it != end; it.increment(error)) {
+    std::string name = it->path().filename().string();
+    if (name[0] != '.' && name.compare(0, prefix.size(), prefix) == 0)
+      names.push_back(name);
   }
-  pclose(pipe);
+  std::sort(names.begin(), names.end());
   return names;
 }
 
diff --git a/src/working.h b/src/working.h
index 0fe3023..646c8db 100644
--- a/src/working.h
+++ b/src/working.h
@@ -4,14 +4,19 @@
 #include <cerrno>
 #include <cassert>
 #include <cstdio>
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <memory>
 #include <mutex>
 #include <set>
 #include <sstream>
+#include <string>
+#include <system_error>
 #include <vector>
 
+#include <unistd.h>
+
 #include "src/core.h"
 
 namespace cottontail {
@@ -95,13 +100,11 @@ public:
   }
   Working(const std::string &working, bool mkdir)
       : working_(working), temp_counter_(0) {
-    if (mkdir) {
-      // TODO: Replace with direct function calls. Maybe boost can do this?
-      std::string mkdir_command = "/bin/mkdir -p " + working;
-      system(mkdir_command.c_str());
-    }
-    std::string cleanup_command = "/bin/rm -f " + working + "/temp.*";
-    system(cleanup_command.c_str());
+    std::error_code ignored;
+    if (mkdir)
+      std::filesystem::create_directories(working, ignored);
+    for (auto &name : ls("temp."))
+      unlink(make_name(name).c_str());
   }
   std::string make_name(const std::string &name) {
     return working_ + "/" + name;
-- 
2.43.0


From e0866a66ed2e309ce585758a11284042dedef3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 75/81] fix: a reader of an unknown kind was taken for a
 compressed one

---
 src/working.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/working.cc b/src/working.cc
index 83987ca..5276d25 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -213,7 +213,7 @@ std::shared_ptr<Reader> Reader::make(const std::string &name,
     return FileReader::make(name, error);
   } else if (recipe == "full") {
     return FullReader::make(name, error);
-  } else if (recipe == "compressed" || "compression test") {
+  } else if (recipe == "compressed" || recipe == "compression test") {
     return CompressReader::make(name, error);
   } else {
     safe_error(error) = "Can't make reader with recipe: " + recipe;
-- 
2.43.0


From 264d3084a589707b90e11c8455ed24ae6b62d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:43 +0000
Subject: [PATCH 76/81] fix: a directory read as a file crashed, or passed for
 an empty file when named like a compressed one

---
 src/builder.cc | 8 ++++++++
 src/working.cc | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/builder.cc b/src/builder.cc
index 869508d..49676ae 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -4,12 +4,14 @@
 #include <cassert>
 #include <cstdio>
 #include <exception>
+#include <filesystem>
 #include <iostream>
 #include <istream>
 #include <memory>
 #include <regex>
 #include <streambuf>
 #include <string>
+#include <system_error>
 #include <vector>
 
 #include <sys/wait.h>
@@ -130,6 +132,12 @@ std::unique_ptr<std::istream> maybe_zipped(const std::string &filename,
   if (!has_zcat_extension(filename))
     return std::make_unique<FileInputStream>(fp, false);
   fclose(fp);
+  std::error_code ignored;
+  if (std::filesystem::is_directory(filename, ignored)) {
+    // zcat ignores it with a warning
+    safe_error(error) = "Is a directory: " + filename;
+    return nullptr;
+  }
   // All this is pretty ugly..
   // ...and won't work at all on things that aren't fairly unix-like.
   // TODO: replace with a call to a library function?
diff --git a/src/working.cc b/src/working.cc
index 5276d25..4785147 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -26,8 +26,10 @@ public:
                                       std::string *error = nullptr) {
     std::shared_ptr<FileReader> reader =
         std::shared_ptr<FileReader>(new FileReader());
+    std::error_code ignored;
     reader->contents_.open(name, std::ios::binary | std::ios::in);
-    if (reader->contents_.fail()) {
+    if (reader->contents_.fail() ||
+        std::filesystem::is_directory(name, ignored)) {
       safe_error(error) = "Reader can't access: " + name;
       return nullptr;
     } else {
-- 
2.43.0


From dc6a77168c1e8130b300e7ddf055aa0aeffb6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 77/81] fix: refuse damaged immutable files, shards, postings
 and tokenizer recipes instead of crashing

---
 src/fiver.cc           | 37 ++++++++++++++++++++++-----
 src/hazel.cc           | 41 ++++++++++++++++++++++++-----
 src/post_compressor.cc | 25 ++++++++++--------
 src/simple_posting.cc  | 58 +++++++++++++++++++++++++++++-------------
 src/simple_posting.h   |  3 ++-
 src/tfdf_compressor.cc | 25 ++++++++++++------
 src/tokenizer.cc       |  6 +++--
 7 files changed, 144 insertions(+), 51 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 0ab0a37..00f670d 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <map>
 #include <mutex>
+#include <new>
 #include <sstream>
 #include <unistd.h>
 #include <vector>
@@ -936,18 +937,35 @@ Fiver::unpickle(const std::string &filename, std::shared_ptr<Working> working,
     jar.close();
     return nullptr;
   }
-  addr nx = n + fiver->text_compressor_->extra(n);
-  std::unique_ptr<char[]> uncompressed = std::unique_ptr<char[]>(new char[nx]);
   addr m;
   jar.read(reinterpret_cast<char *>(&m), sizeof(m));
-  if (jar.fail()) {
+  if (jar.fail() || n < 0 || m < 0) {
+    safe_error(error) = "Fiver can't unpickle: " + jarname;
+    jar.close();
+    return nullptr;
+  }
+  addr nx = 0;
+  std::unique_ptr<char[]> uncompressed = nullptr;
+  if (n < maxfinity / 4) {
+    // One more than needed, to notice a text longer than n.
+    nx = n + fiver->text_compressor_->extra(n) + 1;
+    uncompressed = std::unique_ptr<char[]>(new (std::nothrow) char[nx]);
+  }
+  std::unique_ptr<char[]> compressed =
+      std::unique_ptr<char[]>(new (std::nothrow) char[m]);
+  if (uncompressed == nullptr || compressed == nullptr) {
     safe_error(error) = "Fiver can't unpickle: " + jarname;
     jar.close();
     return nullptr;
   }
-  std::unique_ptr<char[]> compressed = std::unique_ptr<char[]>(new char[m]);
   jar.read(reinterpret_cast<char *>(compressed.get()), m);
-  fiver->text_compressor_->tang(compressed.get(), m, uncompressed.get(), nx);
+  if (jar.fail() ||
+      (addr)fiver->text_compressor_->tang(compressed.get(), m,
+                                          uncompressed.get(), nx) != n) {
+    safe_error(error) = "Fiver can't unpickle: " + jarname;
+    jar.close();
+    return nullptr;
+  }
   fiver->text_ = std::make_shared<std::string>(uncompressed.get(), n);
   std::shared_ptr<SimplePostingFactory> factory = SimplePostingFactory::make(
       fiver->posting_compressor_, fiver->fvalue_compressor_);
@@ -956,7 +974,14 @@ Fiver::unpickle(const std::string &filename, std::shared_ptr<Working> working,
       std::make_shared<std::map<addr, std::shared_ptr<SimplePosting>>>();
   addr total_annotations = 0;
   for (;;) {
-    std::shared_ptr<SimplePosting> posting = factory->posting_from_file(&jar);
+    std::string damage;
+    std::shared_ptr<SimplePosting> posting =
+        factory->posting_from_file(&jar, &damage);
+    if (damage != "") {
+      safe_error(error) = "Fiver can't unpickle: " + jarname + ": " + damage;
+      jar.close();
+      return nullptr;
+    }
     if (posting == nullptr)
       break;
     total_annotations += posting->size();
diff --git a/src/hazel.cc b/src/hazel.cc
index af5997f..c52cb6f 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -116,13 +116,18 @@ bool read_blob_dictionary(const std::string &filename,
     return false;
   }
   addr count;
+  std::streampos here = in.tellg();
+  in.seekg(0, in.end);
+  addr file_size = in.tellg();
+  in.seekg(here);
   if (!read_pod(&in, &count) || count < 0) {
     safe_error(error) = "Hazel got bad blob dictionary count";
     return false;
   }
   for (addr i = 0; i < count; i++) {
     addr name_length;
-    if (!read_pod(&in, &name_length) || name_length < 0) {
+    if (!read_pod(&in, &name_length) || name_length < 0 ||
+        name_length > file_size) {
       safe_error(error) = "Hazel got bad blob name length";
       return false;
     }
@@ -131,7 +136,8 @@ bool read_blob_dictionary(const std::string &filename,
     HazelBlob blob;
     blob.name = name;
     if (in.fail() || !read_pod(&in, &blob.offset) ||
-        !read_pod(&in, &blob.length) || blob.offset < 0 || blob.length < 0) {
+        !read_pod(&in, &blob.length) || blob.offset < 0 || blob.length < 0 ||
+        blob.offset > file_size || blob.length > file_size - blob.offset) {
       safe_error(error) = "Hazel got bad blob dictionary entry";
       return false;
     }
@@ -275,6 +281,21 @@ public:
     return entry;
   }
 
+  bool readable(addr feature, std::string *error) {
+    size_t index;
+    if (!locate_posting(directory_, feature, &index))
+      return true;
+    std::shared_ptr<SimplePosting> posting = posting_at(index, error);
+    if (posting == nullptr)
+      return false;
+    if (posting_start(index) != directory_[index].end &&
+        (addr)posting->size() != directory_[index].count_or_p) {
+      safe_error(error) = "Hazel posting count differs from directory";
+      return false;
+    }
+    return true;
+  }
+
   addr estimated_size() const {
     addr posting_bytes =
         directory_.empty() ? postings_start_ : directory_.back().end;
@@ -376,9 +397,10 @@ private:
     p += sizeof(addr);
     addr directory_count = read_pod<addr>(p);
     if (directory_offset < postings_start_ || directory_length < 0 ||
-        directory_count < 0 ||
-        directory_offset + directory_length > blob_length_ ||
-        directory_length != directory_count * (addr)(3 * sizeof(addr))) {
+        directory_count < 0 || directory_offset > blob_length_ ||
+        directory_length > blob_length_ - directory_offset ||
+        directory_length % (addr)(3 * sizeof(addr)) != 0 ||
+        directory_count != directory_length / (addr)(3 * sizeof(addr))) {
       safe_error(error) = "Hazel got bad idx directory";
       return false;
     }
@@ -401,6 +423,10 @@ private:
         safe_error(error) = "Hazel got bad idx posting boundary";
         return false;
       }
+      if (!directory_.empty() && entry.feature <= directory_.back().feature) {
+        safe_error(error) = "Hazel got unsorted idx directory";
+        return false;
+      }
       directory_.push_back(entry);
     }
     return true;
@@ -1100,7 +1126,8 @@ private:
     addr chunk_space_length = blob_length - header_length;
     if (directory_offset < 0 || directory_length < 0 || directory_count < 0 ||
         raw_text_length_ < 0 || target_chunk_size_ <= 0 ||
-        directory_length != directory_count * (addr)(2 * sizeof(addr)) ||
+        directory_length % (addr)(2 * sizeof(addr)) != 0 ||
+        directory_count != directory_length / (addr)(2 * sizeof(addr)) ||
         directory_offset > chunk_space_length ||
         directory_length > chunk_space_length - directory_offset) {
       safe_error(error) = "Hazel got bad txt directory";
@@ -2160,6 +2187,8 @@ std::shared_ptr<Warren> Hazel::make(const std::string &filename,
       HazelIdx::make(idx_recipe, filename, file, idx_blob->second, error);
   if (hazel_idx == nullptr)
     return nullptr;
+  if (!hazel_idx->readable(featurizer->featurize(text_chunk_tag), error))
+    return nullptr;
   std::unique_ptr<Hopper> text_chunk_hopper =
       hazel_idx->hopper(featurizer->featurize(text_chunk_tag));
   if (text_chunk_hopper == nullptr) {
diff --git a/src/post_compressor.cc b/src/post_compressor.cc
index deb9cfb..b2ab2b1 100644
--- a/src/post_compressor.cc
+++ b/src/post_compressor.cc
@@ -1,6 +1,5 @@
 #include "src/post_compressor.h"
 
-#include <cassert>
 #include <cstdint>
 #include <string>
 
@@ -33,20 +32,21 @@ size_t encode_all(addr *list, addr n, char *out) {
   return next_byte - out;
 }
 
-inline char *decode_1(char *in, uint64_t *delta) {
+// Returns nullptr if the encoding runs past the end or is too long.
+inline char *decode_1(char *in, char *end, uint64_t *delta) {
   uint64_t working = 0;
-  int shift = 0;
-  for (;;) {
+  for (int shift = 0; in < end && shift < 64; shift += 7) {
     uint64_t current = *in++;
     working |= ((current & 0x7F) << shift);
-    if ((current & 0x80) == 0)
-      break;
-    shift += 7;
+    if ((current & 0x80) == 0) {
+      *delta = working;
+      return in;
+    }
   }
-  *delta = working;
-  return in;
+  return nullptr;
 }
 
+// Returns zero if the input is not exactly an encoding of at most n values.
 size_t decode_all(char *in, size_t length, addr *list, size_t n) {
   addr *current_addr;
   addr *last_addr = list + n;
@@ -55,11 +55,14 @@ size_t decode_all(char *in, size_t length, addr *list, size_t n) {
   for (current_addr = list; in < last_byte && current_addr < last_addr;
        current_addr++) {
     uint64_t delta;
-    in = decode_1(in, &delta);
+    in = decode_1(in, last_byte, &delta);
+    if (in == nullptr)
+      return 0;
     value += delta;
     *current_addr = (addr)value;
   }
-  assert(in == last_byte);
+  if (in != last_byte)
+    return 0;
   return current_addr - list;
 }
 
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 027da87..8db1b5e 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <fstream>
 #include <memory>
+#include <new>
 #include <queue>
 #include <string>
 #include <vector>
@@ -156,6 +157,10 @@ SimplePostingFactory::posting_from_compressed_blob(const char *data,
     safe_error(error) = "Compressed posting blob has truncated fostings";
     return nullptr;
   }
+  if (idx.fst != length - foffset || idx.n > maxfinity / (addr)sizeof(addr)) {
+    safe_error(error) = "Compressed posting blob has bad sizes";
+    return nullptr;
+  }
   std::shared_ptr<SimplePosting> posting = std::shared_ptr<SimplePosting>(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = idx.feature;
@@ -163,9 +168,12 @@ SimplePostingFactory::posting_from_compressed_blob(const char *data,
     return posting;
   addr postings_size = idx.n * sizeof(addr);
   addr fvalues_size = idx.n * sizeof(fval);
-  std::unique_ptr<char[]> tanged =
-      std::unique_ptr<char[]>(new char[std::max(postings_size, fvalues_size)]);
-
+  std::unique_ptr<char[]> tanged = std::unique_ptr<char[]>(
+      new (std::nothrow) char[std::max(postings_size, fvalues_size)]);
+  if (tanged == nullptr) {
+    safe_error(error) = "Compressed posting blob has bad sizes";
+    return nullptr;
+  }
   addr posting_size =
       posting_compressor_->tang(const_cast<char *>(data + header), idx.pst,
                                 tanged.get(), postings_size);
@@ -303,51 +311,67 @@ bool SimplePostingFactory::cache_entry_from_compressed_blob(
 }
 
 std::shared_ptr<SimplePosting>
-SimplePostingFactory::posting_from_file(std::fstream *f) {
+SimplePostingFactory::posting_from_file(std::fstream *f, std::string *error) {
   if (f->fail())
     return nullptr;
+  auto damaged = [&]() {
+    assert(error != nullptr);
+    safe_error(error) = "Damaged posting";
+    return nullptr;
+  };
   PstRecord idx;
   f->read(reinterpret_cast<char *>(&idx), sizeof(PstRecord));
-  if (f->fail())
+  if (f->fail()) {
+    if (f->gcount() > 0)
+      return damaged();
     return nullptr;
+  }
+  if (idx.n < 0 || idx.n > maxfinity / (addr)sizeof(addr) || idx.pst < 0 ||
+      idx.qst < 0 || idx.fst < 0)
+    return damaged();
   std::shared_ptr<SimplePosting> posting = std::shared_ptr<SimplePosting>(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = idx.feature;
   if (idx.n == 0)
     return posting;
-  addr crushed_size = std::max(std::max(idx.pst, idx.qst), idx.fst) + 1;
+  addr crushed_size = std::max(std::max(idx.pst, idx.qst), idx.fst);
   std::unique_ptr<char[]> crushed =
-      std::unique_ptr<char[]>(new char[crushed_size]);
+      std::unique_ptr<char[]>(new (std::nothrow) char[crushed_size + 1]);
   addr tanged_size = std::max(idx.n * sizeof(addr), idx.n * sizeof(fval));
   std::unique_ptr<char[]> tanged =
-      std::unique_ptr<char[]>(new char[tanged_size]);
+      std::unique_ptr<char[]>(new (std::nothrow) char[tanged_size]);
+  if (crushed == nullptr || tanged == nullptr)
+    return damaged();
   f->read(crushed.get(), idx.pst);
-  assert(!f->fail());
+  if (f->fail())
+    return damaged();
   addr posting_size = posting_compressor_->tang(crushed.get(), idx.pst,
                                                 tanged.get(), tanged_size);
-  assert(posting_size % sizeof(addr) == 0 &&
-         posting_size / (addr)sizeof(addr) == idx.n);
+  if (posting_size != idx.n * (addr)sizeof(addr))
+    return damaged();
   addr *start = reinterpret_cast<addr *>(tanged.get());
   addr *end = start + idx.n;
   for (addr *p = start; p < end; p++)
     posting->postings_.push_back(*p);
   if (idx.qst > 0) {
     f->read(crushed.get(), idx.qst);
-    assert(!f->fail());
+    if (f->fail())
+      return damaged();
     posting_size = posting_compressor_->tang(crushed.get(), idx.qst,
                                              tanged.get(), tanged_size);
-    assert(posting_size % sizeof(addr) == 0 &&
-           posting_size / (addr)sizeof(addr) == idx.n);
+    if (posting_size != idx.n * (addr)sizeof(addr))
+      return damaged();
     for (addr *q = start; q < end; q++)
       posting->qostings_.push_back(*q);
   }
   if (idx.fst > 0) {
     f->read(crushed.get(), idx.fst);
-    assert(!f->fail());
+    if (f->fail())
+      return damaged();
     posting_size = fvalue_compressor_->tang(crushed.get(), idx.fst,
                                             tanged.get(), tanged_size);
-    assert(posting_size % sizeof(addr) == 0 &&
-           posting_size / (addr)sizeof(addr) == idx.n);
+    if (posting_size != idx.n * (addr)sizeof(fval))
+      return damaged();
     fval *start = reinterpret_cast<fval *>(tanged.get());
     fval *end = start + idx.n;
     for (fval *f = start; f < end; f++)
diff --git a/src/simple_posting.h b/src/simple_posting.h
index f2f9478..28fa859 100644
--- a/src/simple_posting.h
+++ b/src/simple_posting.h
@@ -87,7 +87,8 @@ public:
   bool cache_entry_from_compressed_blob(std::shared_ptr<CacheRecord> cache_line,
                                         const char *data, addr length,
                                         std::string *error = nullptr);
-  std::shared_ptr<SimplePosting> posting_from_file(std::fstream *f);
+  std::shared_ptr<SimplePosting> posting_from_file(std::fstream *f,
+                                                   std::string *error = nullptr);
   std::shared_ptr<SimplePosting> posting_from_merge(
       const std::vector<std::shared_ptr<SimplePosting>> &postings);
   std::shared_ptr<SimplePosting> posting_from_merge(
diff --git a/src/tfdf_compressor.cc b/src/tfdf_compressor.cc
index a5af834..9b6751e 100644
--- a/src/tfdf_compressor.cc
+++ b/src/tfdf_compressor.cc
@@ -1,6 +1,8 @@
 #include "src/tfdf_compressor.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <cstring>
 #include <memory>
 #include <string>
@@ -32,9 +34,9 @@ inline bool crush_addr(addr a, BitsIn *bin) {
 }
 
 inline addr tang_addr(BitsOut *bout) {
-  addr a = 0;
-  addr mask = 1;
-  while (bout->front() == 0) {
+  uint64_t a = 0;
+  uint64_t mask = 1;
+  while (!bout->empty() && bout->front() == 0) {
     bout->pop();
     if (bout->front() == 1)
       a |= mask;
@@ -43,7 +45,7 @@ inline addr tang_addr(BitsOut *bout) {
   }
   a |= mask;
   bout->pop();
-  return a;
+  return (addr)a;
 }
 } // namespace
 
@@ -71,15 +73,19 @@ size_t TfdfCompressor::crush_(char *in, size_t length, char *out,
 
 size_t TfdfCompressor::tang_(char *in, size_t length, char *out,
                              size_t available) {
+  if (length == 0)
+    return 0;
   if (!component_) {
     if (length % (sizeof(addr)) == 0) {
+      length = std::min(length, available);
       memcpy(out, in, length);
       return length;
     }
-    if (in[length - 1] == '\0')
-      --length;
+    if (in[length - 1] == '\0' && --length == 0)
+      return 0;
   }
-  assert(in[length - 1] != '\0');
+  if (in[length - 1] == '\0')
+    return 0;
   addr count = 8 * length;
   unsigned char *uin = (unsigned char *) in;
   unsigned mask = 0x80;
@@ -89,8 +95,11 @@ size_t TfdfCompressor::tang_(char *in, size_t length, char *out,
   }
   BitsOut b(uin, count);
   addr *a = (addr *) out;
-  while (!b.empty())
+  addr *end = a + available / sizeof(addr);
+  while (!b.empty() && a < end)
     *a++ = tang_addr(&b);
+  if (!b.empty())
+    return 0;
   return (((char *) a) - out);
 }
 
diff --git a/src/tokenizer.cc b/src/tokenizer.cc
index c0e9b66..b28e220 100644
--- a/src/tokenizer.cc
+++ b/src/tokenizer.cc
@@ -16,10 +16,12 @@ std::shared_ptr<Tokenizer> Tokenizer::make(const std::string &name,
   std::shared_ptr<Tokenizer> tokenizer = nullptr;
   if (name == "" || name == "ascii") {
     tokenizer = AsciiTokenizer::make(recipe, error);
-    tokenizer->name_ = "ascii";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "ascii";
   } else if (name == "utf8") {
     tokenizer = Utf8Tokenizer::make(recipe, error);
-    tokenizer->name_ = "utf8";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "utf8";
   } else {
     safe_error(error) = "No Tokenizer named: " + name;
   }
-- 
2.43.0


From 351f921e958239c50dec1aaa89718b997ce0a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:16 +0000
Subject: [PATCH 78/81] fix: opening another kind of index as a static one left
 empty text files in it

---
 src/simple_warren.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simple_warren.cc b/src/simple_warren.cc
index c34cf8a..267cf9a 100644
--- a/src/simple_warren.cc
+++ b/src/simple_warren.cc
@@ -29,6 +29,12 @@ std::shared_ptr<Warren> SimpleWarren::make(const std::string &burrow,
   std::map<std::string, std::string> parameters;
   if (!cook(dna, &parameters, error))
     return nullptr;
+  auto warren_element = parameters.find("warren");
+  if (warren_element != parameters.end() &&
+      warren_element->second != "simple") {
+    safe_error(error) = "Not a simple warren: " + the_burrow;
+    return nullptr;
+  }
   std::map<std::string, std::string> featurizer_parameters;
   if (!cook(parameters["featurizer"], &featurizer_parameters, error))
     return nullptr;
-- 
2.43.0


From 34184d2b5d652ba0be2fa461e94c89f73f6ee1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:47 +0000
Subject: [PATCH 79/81] fix: a quoted term ending in an escaped backslash was
 rejected

---
 gcl/parse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcl/parse.cc b/gcl/parse.cc
index 01201bc..170b3bd 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -103,7 +103,7 @@ const char *parse_expr(const char *where, std::shared_ptr<SExpression> expr,
       where++;
       bool escaped = false;
       while (*where != '\0' && (*where != the_quote || escaped)) {
-        escaped = (*where == '\\');
+        escaped = (!escaped && *where == '\\');
         where++;
       }
       if (*where != *start)
-- 
2.43.0


From bf5b1205e7dc939dcdaaac0b3e167959b969f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:24 +0000
Subject: [PATCH 80/81] fix: a failing write of postings or text ended the
 process, or went unnoticed when building a static index

---
 src/simple_builder.cc | 48 ++++++++++++++++++++++++++++++++++++-------
 src/simple_builder.h  |  3 +++
 src/simple_posting.cc |  7 +------
 src/simple_txt_io.cc  | 19 ++++++-----------
 src/simple_txt_io.h   |  1 +
 5 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 907f955..0fbffd5 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <cerrno>
 #include <cstdio>
@@ -433,23 +434,27 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
       auto token_sorter =
           [](std::string tok_filename,
              std::unique_ptr<std::vector<TokRecord>> tokens,
-             std::shared_ptr<SimplePostingFactory> posting_factory) {
+             std::shared_ptr<SimplePostingFactory> posting_factory,
+             std::shared_ptr<std::atomic<bool>> cannot_write_temp_files) {
             std::sort(tokens->begin(), tokens->end(), tok_cmp);
             std::fstream tok(tok_filename, std::ios::binary | std::ios::out);
-            assert(!tok.fail());
             std::vector<cottontail::TokRecord>::iterator it = tokens->begin();
             while (it < tokens->end()) {
               std::shared_ptr<cottontail::SimplePosting> posting =
                   posting_factory->posting_from_tokens(&it, tokens->end());
               posting->write(&tok);
             }
+            tok.close();
+            if (tok.fail())
+              *cannot_write_temp_files = true;
           };
       if (verbose())
         std::cout << "SimpleBuilder starting thread to sort token buffer\n";
       std::string tok_filename = working_->make_temp();
       tokq_.push(tok_filename);
       workers_.emplace_back(std::thread(token_sorter, tok_filename,
-                                        std::move(tokens_), posting_factory_));
+                                        std::move(tokens_), posting_factory_,
+                                        cannot_write_temp_files_));
       tokens_ = std::make_unique<std::vector<TokRecord>>();
     } else {
       if (verbose())
@@ -470,6 +475,9 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
             posting_factory_->posting_from_tokens(&it, tokens_->end());
         posting->write(&tok);
       }
+      tok.close();
+      if (tok.fail())
+        *cannot_write_temp_files_ = true;
       tokq_.push(tok_filename);
       tokens_->clear();
     }
@@ -552,6 +560,16 @@ bool SimpleBuilder::build_index(std::string *error) {
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + pst_filename_;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + idx_filename_;
+    return false;
+  }
   while (!tokq_.empty()) {
     std::string remove_me = tokq_.front();
     std::remove(remove_me.c_str());
@@ -622,10 +640,10 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
     auto annotation_sorter =
         [](std::string ann_filename,
            std::unique_ptr<std::vector<Annotation>> annotations,
-           std::shared_ptr<SimplePostingFactory> posting_factory) {
+           std::shared_ptr<SimplePostingFactory> posting_factory,
+           std::shared_ptr<std::atomic<bool>> cannot_write_temp_files) {
           std::sort(annotations->begin(), annotations->end(), annotation_cmp);
           std::fstream ann(ann_filename, std::ios::binary | std::ios::out);
-          assert(!ann.fail());
           std::vector<Annotation>::iterator it = annotations->begin();
           while (it < annotations->end()) {
             std::shared_ptr<cottontail::SimplePosting> posting =
@@ -633,6 +651,9 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
                                                           annotations->end());
             posting->write(&ann);
           }
+          ann.close();
+          if (ann.fail())
+            *cannot_write_temp_files = true;
         };
     std::string ann_filename = working_->make_temp();
     annq_.push(ann_filename);
@@ -641,12 +662,13 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
         std::cout << "SimpleBuilder starting thread to sort annotations\n";
       workers_.emplace_back(std::thread(annotation_sorter, ann_filename,
                                         std::move(annotations_),
-                                        posting_factory_));
+                                        posting_factory_,
+                                        cannot_write_temp_files_));
     } else {
       if (verbose())
         std::cout << "SimpleBuilder sorting annotations\n";
       annotation_sorter(ann_filename, std::move(annotations_),
-                        posting_factory_);
+                        posting_factory_, cannot_write_temp_files_);
     }
     annotations_ = std::make_unique<std::vector<Annotation>>();
     assert(annotations_ != nullptr);
@@ -685,6 +707,18 @@ bool SimpleBuilder::finalize_(std::string *error) {
     for (auto &worker : workers_)
       worker.join();
   }
+  if (txt_.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + txt_filename_;
+    return false;
+  }
+  if (io_->write_failed()) {
+    safe_error(error) = "SimpleBuilder can't write text";
+    return false;
+  }
+  if (*cannot_write_temp_files_) {
+    safe_error(error) = "SimpleBuilder can't write temporary files";
+    return false;
+  }
   if (verbose())
     std::cout << "SimpleBuilder building inverted index\n";
   if (!build_index(error))
diff --git a/src/simple_builder.h b/src/simple_builder.h
index c71851d..54f78b8 100644
--- a/src/simple_builder.h
+++ b/src/simple_builder.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 #define COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -85,6 +86,8 @@ private:
   std::unique_ptr<std::vector<Annotation>> annotations_;
   size_t ann_file_size_;
   std::shared_ptr<SimplePostingFactory> posting_factory_;
+  std::shared_ptr<std::atomic<bool>> cannot_write_temp_files_ =
+      std::make_shared<std::atomic<bool>>(false);
   bool write_dna_ = true;
   bool multithreaded_ = true;
   std::vector<std::thread> workers_;
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 8db1b5e..6458515 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -590,13 +590,12 @@ void SimplePosting::push(addr p, addr q, fval v) {
   postings_.push_back(p);
 }
 
+// The caller checks the stream: a failing write is for it to report.
 void SimplePosting::write(std::ostream *f) {
-  assert(!f->fail());
   addr n = postings_.size();
   if (n == 0) {
     PstRecord idx(feature_, 0, 0, 0, 0);
     f->write(reinterpret_cast<char *>(&idx), sizeof(PstRecord));
-    assert(!f->fail());
     return;
   }
   addr postings_size = sizeof(addr) * n;
@@ -633,16 +632,12 @@ void SimplePosting::write(std::ostream *f) {
   PstRecord idx(feature_, n, postings_compressed, qostings_compressed,
                 fostings_compressed);
   f->write(reinterpret_cast<char *>(&idx), sizeof(PstRecord));
-  assert(!f->fail());
   f->write(postings_buffer.get(), postings_compressed);
-  assert(!f->fail());
   if (qostings_compressed > 0) {
     f->write(qostings_buffer.get(), qostings_compressed);
-    assert(!f->fail());
   }
   if (fostings_compressed > 0) {
     f->write(fostings_buffer.get(), fostings_compressed);
-    assert(!f->fail());
   }
 }
 
diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2a4e681..4645d0a 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -263,18 +263,15 @@ void SimpleTxtIO::sync_last_chunk() {
   std::streamsize amount =
       compressor_->crush(chunk_.get(), chunk_end_, buffer_.get(), buffer_size_);
   contents_.seekp(where, contents_.beg);
-  assert(!contents_.fail());
   contents_.write(buffer_.get(), amount);
-  assert(!contents_.fail());
+  if (contents_.fail())
+    write_failed_ = true;
   where += amount;
   (*chunk_map_)[chunk_map_->size() - 1] = where;
   std::fstream mapf(nameof_chunk_map_,
                     std::ios::binary | std::ios::in | std::ios::out);
-  assert(!mapf.fail());
   mapf.seekp(-sizeof(where), mapf.end);
-  assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
-  assert(!mapf.fail());
   mapf.close();
   if (mapf.fail())
     write_failed_ = true;
@@ -290,16 +287,14 @@ void SimpleTxtIO::append_full_chunk(char *text) {
   std::streamsize amount =
       compressor_->crush(text, chunk_size_, buffer_.get(), buffer_size_);
   contents_.seekp(where, contents_.beg);
-  assert(!contents_.fail());
   contents_.write(buffer_.get(), amount);
-  assert(!contents_.fail());
+  if (contents_.fail())
+    write_failed_ = true;
   where += amount;
   chunk_map_->push_back(where);
   std::fstream mapf(nameof_chunk_map_,
                     std::ios::binary | std::ios::out | std::ios::app);
-  assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
-  assert(!mapf.fail());
   mapf.close();
   if (mapf.fail())
     write_failed_ = true;
@@ -319,16 +314,14 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
   std::streamsize amount =
       compressor_->crush(text, chunk_end_, buffer_.get(), buffer_size_);
   contents_.seekp(where, contents_.beg);
-  assert(!contents_.fail());
   contents_.write(buffer_.get(), amount);
-  assert(!contents_.fail());
+  if (contents_.fail())
+    write_failed_ = true;
   where += amount;
   chunk_map_->push_back(where);
   std::fstream mapf(nameof_chunk_map_,
                     std::ios::binary | std::ios::out | std::ios::app);
-  assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
-  assert(!mapf.fail());
   mapf.close();
   if (mapf.fail())
     write_failed_ = true;
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index 104d62f..a395b25 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -35,6 +35,7 @@ public:
       flushed_ = true;
     }
   }
+  bool write_failed() { return write_failed_; }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
   void dump(std::ostream &output = std::cout);
-- 
2.43.0


From 64a8905ba20f91f0187250606bb356eb0b817386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:00 +0000
Subject: [PATCH 81/81] fix: the search server ended on requests of unexpected
 types, texts that are not UTF-8, and clients that left early

---
 apps/ssr-server.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 784107f..28da1a1 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -268,7 +268,7 @@ ssize_t write_all(int fd, const std::string &text) {
   const char *p = text.data();
   size_t n = text.size();
   while (n > 0) {
-    ssize_t wrote = send(fd, p, n, 0);
+    ssize_t wrote = send(fd, p, n, MSG_NOSIGNAL);
     if (wrote <= 0)
       return wrote;
     p += wrote;
@@ -283,7 +283,8 @@ bool send_record(int fd, const json &request, const json &response,
   record["query"] = request;
   record["response"] = response;
   record["time"] = time;
-  std::string line = record.dump() + "\n";
+  std::string line =
+      record.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
   std::cout << line << std::flush;
   return write_all(fd, line) > 0;
 }
@@ -354,15 +355,20 @@ public:
         send_record(fd, request, response, cottontail::now() - start);
         continue;
       }
-      std::string op = request.value("op", "");
-      if (op == "query")
-        response = query(request);
-      else if (op == "next")
-        response = next(request);
-      else if (op == "document")
-        response = document(request);
-      else
-        response = error_response(op, "Unknown op");
+      std::string op;
+      try {
+        op = request.value("op", "");
+        if (op == "query")
+          response = query(request);
+        else if (op == "next")
+          response = next(request);
+        else if (op == "document")
+          response = document(request);
+        else
+          response = error_response(op, "Unknown op");
+      } catch (json::type_error &e) {
+        response = error_response(op, e.what());
+      }
       if (!send_record(fd, request, response, cottontail::now() - start))
         return;
     }
-- 
2.43.0

