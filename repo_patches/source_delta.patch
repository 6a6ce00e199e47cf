From e32bfdf6dc2483502c83967b69610f9b169bcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:13 +0000
Subject: [PATCH 01/93] fix: sr_skip_char_limited must not step over the string
 terminator

---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..272bdd5 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From ba60484a00d37aee781f2610bd0bd28b98a5c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 02/93] fix: do not read past the end of a Python traceback
 that ends at a frame

---
 lib/python_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..8d04201 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -236,7 +236,7 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
+        sr_skip_char(&local_input, '\n');
         *input = local_input;
     }
 
-- 
2.43.0


From 12ae410490a5aa792488882f8f159f358485cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 03/93] fix: do not take the line after an empty Java exception
 message for the message

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..4f0c5e6 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -300,8 +300,8 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        /* the message may be empty, stay on the line */
+        sr_location_add(location, 0, sr_skip_char_span(&cursor, " \t\r\v\f"));
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
-- 
2.43.0


From 88c343e47cfdc30877a95915bddabd7a30087a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 04/93] fix: skip all of a suppressed Java exception that is
 not preceded by '...'

---
 lib/java_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 4f0c5e6..66943f5 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -370,7 +370,8 @@ sr_java_frame_parse_exception(const char **input,
     goto exception_parsing_successful;
 
 current_exception_done:
-    sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
+    if (strncmp("... ", cursor, strlen("... ")) == 0)
+        sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
 
     mark = cursor;
     cursor = sr_skip_whitespace(mark);
-- 
2.43.0


From a2a6be3678ba54369509b1d85bbfc14d77c79ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 05/93] fix: stop at the end of a gdb function name that ends
 with an operator

---
 lib/gdb_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..544c2fc 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -442,9 +442,9 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
-        if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
+        if (*local_input == '\0' || strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
-            if (!space_allowed || strchr(" ", *local_input) == NULL)
+            if (*local_input == '\0' || !space_allowed || strchr(" ", *local_input) == NULL)
                 break;
         }
 
-- 
2.43.0


From db5d8395c221cf1211868ead03100ea1b1f0624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 06/93] fix: do not read past a gdb frame that ends right after
 '('

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 544c2fc..8c8b048 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -814,7 +814,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -853,7 +853,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From 37e2ac6e37f2a4af04d7c35b19e8b7a135da6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 07/93] fix: do not free a missing gdb function name buffer

---
 lib/gdb_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 8c8b048..4c875d7 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -775,7 +775,8 @@ sr_gdb_frame_parse_function_name(const char **input,
         {
             /* Function name MUST be ended by empty space. */
             g_string_free(buf0, TRUE);
-            g_string_free(buf1, TRUE);
+            if (buf1)
+                g_string_free(buf1, TRUE);
             location->message = "Space or newline expected after function name.";
             return false;
         }
-- 
2.43.0


From 066551997dd8c3cde42ee391afa96f871409a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 08/93] fix: compare integer fields without truncation or
 overflow

---
 lib/core_frame.c     |  4 ++--
 lib/gdb_frame.c      |  4 ++--
 lib/gdb_thread.c     |  2 +-
 lib/internal_utils.h |  3 +++
 lib/java_frame.c     |  2 +-
 lib/js_frame.c       |  6 +++---
 lib/koops_frame.c    | 12 ++++++------
 lib/python_frame.c   |  2 +-
 lib/rpm.c            |  4 ++--
 lib/ruby_frame.c     |  6 +++---
 10 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..2cf70d4 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,7 +166,7 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
     if (build_id_offset != 0)
         return build_id_offset;
 
@@ -203,7 +203,7 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 4c875d7..7bb5b59 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = SR_CMP(frame1->source_line, frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +216,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = SR_CMP(frame1->number, frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..60b7c88 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,7 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = SR_CMP(thread1->number, thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..429a24b 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -55,6 +55,9 @@ warn(const char *fmt, ...) __sr_printf(1, 2);
 #define DEFINE_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_GETTER(name, next, abstract_t, concrete_t, abstract_t)
 #define DEFINE_SET_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_SETTER(name, next, abstract_t, concrete_t, abstract_t)
 
+/* three-way comparison of numbers that neither truncates nor overflows */
+#define SR_CMP(a, b) (((a) > (b)) - ((a) < (b)))
+
 /* beware the side effects */
 #define OR_UNKNOWN(s) ((s) ? (s) : "<unknown>")
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 66943f5..e96db0e 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,7 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return SR_CMP(frame1->file_line, frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..9fafdfb 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,12 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = SR_CMP(frame1->line_column, frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +149,7 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..cdfdeef 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,7 +127,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
+    int address = SR_CMP(frame2->address, frame1->address);
     if (address != 0)
         return address;
 
@@ -144,12 +144,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
+    int function_offset = SR_CMP(frame2->function_offset, frame1->function_offset);
     if (function_offset != 0)
         return function_offset;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
+    int function_length = SR_CMP(frame2->function_length, frame1->function_length);
     if (function_length != 0)
         return function_length;
 
@@ -161,7 +161,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
+    int from_address = SR_CMP(frame2->from_address, frame1->from_address);
     if (from_address != 0)
         return from_address;
 
@@ -173,12 +173,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
+    int from_function_offset = SR_CMP(frame2->from_function_offset, frame1->from_function_offset);
     if (from_function_offset != 0)
         return from_function_offset;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
+    int from_function_length = SR_CMP(frame2->from_function_length, frame1->from_function_length);
     if (from_function_length != 0)
         return from_function_length;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 8d04201..778f780 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,7 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..635a198 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,7 +77,7 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
+    int install_time = SR_CMP(package1->install_time, package2->install_time);
     if (install_time != 0)
         return install_time;
 
@@ -100,7 +100,7 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
+    int epoch = SR_CMP(package1->epoch, package2->epoch);
     if (epoch != 0)
         return epoch;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..576d9e9 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,7 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +137,12 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = SR_CMP(frame1->block_level, frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = SR_CMP(frame1->rescue_level, frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From ef890b3c1071b6179a894c94055f354c9884a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 09/93] fix: compare all frames of Java threads

---
 lib/java_thread.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..881dd89 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,20 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
+    while (frame1 && frame2)
+    {
+        res = sr_java_frame_cmp(frame1, frame2);
+        if (res)
+            return res;
+
+        frame1 = frame1->next;
+        frame2 = frame2->next;
+    }
+
+    if (frame1)
         return 1;
-    else if (frame2 && !frame1)
+    else if (frame2)
         return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
 
     return 0;
 }
-- 
2.43.0


From 6b820b7f011745e1851343755ca72848d1bbae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:15 +0000
Subject: [PATCH 10/93] fix: duplicate of a core stacktrace must not point to
 the original's crash thread

---
 lib/core_stacktrace.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..1dceeda 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -114,6 +114,18 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
 
     if (stacktrace->threads)
         result->threads = sr_core_thread_dup(stacktrace->threads, true);
+
+    /* The crash thread is one of the threads, let it point to the copy. */
+    result->crash_thread = NULL;
+    for (struct sr_core_thread *thread = stacktrace->threads,
+             *copy = result->threads;
+         thread && copy;
+         thread = thread->next, copy = copy->next)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = copy;
+    }
+
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
-- 
2.43.0


From 7f6b80bc035cc91ca00d16a9acfcd14edcff3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:15 +0000
Subject: [PATCH 11/93] fix: do not skip the first and dereference the missing
 frame after the last when creating a core stacktrace

---
 lib/core_stacktrace.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 1dceeda..53a926e 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -353,8 +353,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -376,6 +374,7 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From 73ebc42478df65a2d8001e999982136deb164708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 12/93] fix: escape all control characters in JSON strings

---
 lib/json_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..78c67f3 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,11 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            /* the other control characters must not appear in a string */
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From c755e1118fea645c984b47acc1f420f614443032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 13/93] fix: write well-formed JSON for Python, Ruby and
 JavaScript frames without any field

---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index 9fafdfb..4390f9d 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 778f780..5ae0c44 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -397,7 +397,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 576d9e9..91e7272 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From a60f0fb8bacb2c00493acfd305b19db68eba66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 14/93] fix: write well-formed JSON for a core stacktrace
 without threads

---
 lib/core_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 53a926e..547ef43 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -281,6 +281,8 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
         g_string_append(strbuf, ",   \"only_crash_thread\": true\n");
 
     g_string_append(strbuf, ",   \"stacktrace\":\n");
+    if (!stacktrace->threads)
+        g_string_append(strbuf, "      [");
 
     struct sr_core_thread *thread = stacktrace->threads;
     while (thread)
-- 
2.43.0


From fc0729bda0d50ef6ce8a86493c5aaa4dd07a930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 15/93] fix: keep the crash flag of a core thread without
 frames in JSON

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From 78daa17032ed52c2bad5bafccfcfc579442d3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 16/93] fix: read the upper half of the range of unsigned
 numbers from JSON

---
 lib/json_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 78c67f3..2d32d7e 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -37,9 +37,10 @@
     }
 
 #define NOOP
+#define CLAMP_TO_UINT32(value) MIN((value), UINT32_MAX)
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, CLAMP_TO_UINT32)
 DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
-- 
2.43.0


From 074655b3cc92a616e1e1cb265f138598c3dee8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 17/93] fix: do not swap JavaScript engine and runtime loaded
 from JSON

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 23716aee6aa335ca11c3ba00830511d71dcdb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 18/93] fix: keep the list of kernel modules loaded from JSON
 within its memory and terminated

---
 lib/koops_stacktrace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..839471d 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -706,7 +706,10 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             mod_json = json_object_array_get_idx(modules, i);
 
             if (!json_check_type(mod_json, json_type_string, "module", error_message))
+            {
+                result->modules[i] = NULL;
                 goto fail;
+            }
 
             module = json_object_get_string(mod_json);
 
@@ -714,7 +717,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
         }
-- 
2.43.0


From bca7facc514cbb9182e0cc6e765e49a1181b198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 19/93] fix: JavaScript and gdb stacktraces: do not read or
 write through a missing JSON error pointer

---
 lib/gdb_stacktrace.c |  4 +++-
 lib/js_platform.c    | 12 ++++++++----
 lib/js_stacktrace.c  | 12 ++++++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..dd3edd0 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -48,7 +48,9 @@ gdb_return_null(struct sr_stacktrace *stacktrace)
 static struct sr_gdb_stacktrace *
 gdb_from_json(json_object *root, char **error_message)
 {
-    *error_message = g_strdup("Not implemented");
+    if (error_message)
+        *error_message = g_strdup("Not implemented");
+
     return NULL;
 }
 
diff --git a/lib/js_platform.c b/lib/js_platform.c
index 4d85182..1ccace8 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -201,7 +201,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (engine_str == NULL)
     {
-        *error_message = g_strdup("No 'engine' member");
+        if (error_message)
+            *error_message = g_strdup("No 'engine' member");
         goto fail;
     }
 
@@ -209,7 +210,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(engine_str, "<unknown>") != 0
         && !(engine = sr_js_engine_from_string(engine_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
         goto fail;
     }
 
@@ -218,7 +220,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (runtime_str == NULL)
     {
-        *error_message = g_strdup("No 'runtime' member");
+        if (error_message)
+            *error_message = g_strdup("No 'runtime' member");
         goto fail;
     }
 
@@ -226,7 +229,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(runtime_str, "<unknown>") != 0
         && !(runtime = sr_js_runtime_from_string(runtime_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
         goto fail;
     }
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..91d5629 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,17 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        char *platform_error = NULL;
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
+
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 07fb14fc9f0d3a1cd9d3a1188b3f9329d6547916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 20/93] fix: initialise the id of a new core thread

---
 lib/core_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 2b6cebb..f6e6cf9 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -68,6 +68,7 @@ sr_core_thread_init(struct sr_core_thread *thread)
 {
     thread->frames = NULL;
     thread->next = NULL;
+    thread->id = 0;
     thread->type = SR_REPORT_CORE;
 }
 
-- 
2.43.0


From db6444b37da802a4a649bf76047720a342dae5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 21/93] fix: keep the Jaro-Winkler similarity within one when
 frames repeat

---
 lib/distance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..00ab973 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -95,8 +95,9 @@ distance_jaro_winkler(struct sr_thread *thread1,
     if (0 == match_count)
         return 0;  // so as not to divide by 0
 
+    /* Several frames of thread1 can match the same frame of thread2. */
     float dist_jaro = (match_count / (float)frame1_count +
-                       match_count / (float)frame2_count +
+                       MIN(match_count, frame2_count) / (float)frame2_count +
                        (match_count - trans_count) / match_count) / 3;
 
     /* How much weight we give to having common prefixes
-- 
2.43.0


From 26381f4bbf57fc374f75ad7d66e709e83c4d5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 22/93] fix: do not merge gdb frames without a function name as
 recursion

---
 lib/normalize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/normalize.c b/lib/normalize.c
index df74e41..98fe3ab 100644
--- a/lib/normalize.c
+++ b/lib/normalize.c
@@ -342,7 +342,8 @@ sr_normalize_gdb_thread(struct sr_gdb_thread *thread)
     while (curr_frame)
     {
         if (prev_frame &&
-            0 != g_strcmp0(prev_frame->function_name, "??") &&
+            prev_frame->function_name &&
+            0 != strcmp(prev_frame->function_name, "??") &&
             0 == g_strcmp0(prev_frame->function_name, curr_frame->function_name))
         {
             prev_frame->next = curr_frame->next;
-- 
2.43.0


From f74400dd10ec276e3cdc85ca7d7aa650c38a1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 23/93] fix: do not read past the end of a gdb shared library
 list

---
 lib/gdb_sharedlib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..5383a5e 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -243,6 +243,10 @@ sr_gdb_sharedlib_parse(const char *input)
         current->symbols = symbols;
         current->soname = g_string_free(buf, FALSE);
 
+        /* the last line does not need to end with '\n' */
+        if (!*tmp)
+            break;
+
         /* we are on '\n' character, jump to next line */
         ++tmp;
     }
-- 
2.43.0


From 218e95f0837e8bb54efff736a4dd7122dc6cd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 24/93] fix: find addresses in a module that ends at the top of
 the address space

---
 lib/unstrip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index cd81e2b..94e5f71 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -104,7 +104,7 @@ sr_unstrip_find_address(struct sr_unstrip_entry *entries,
     struct sr_unstrip_entry *loop = entries;
     while (loop)
     {
-        if (loop->start <= address && loop->start + loop->length > address)
+        if (loop->start <= address && address - loop->start < loop->length)
             return loop;
 
         loop = loop->next;
-- 
2.43.0


From 135b805b6eb9b78ec715010c965d17807c45abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 25/93] fix: refuse package names with an empty release or
 architecture

---
 lib/rpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 635a198..6cd14e0 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -669,7 +669,7 @@ sr_rpm_package_parse_nvr(const char *text,
     if (!last_dash)
         return false;
 
-    if (0 == strlen(last_dash))
+    if (0 == strlen(last_dash + 1))
         return false;
 
     char *last_but_one_dash = last_dash;
@@ -708,7 +708,7 @@ sr_rpm_package_parse_nevra(const char *text,
                            char **architecture)
 {
     char *last_dot = strrchr(text, '.');
-    if (!last_dot || 0 == strlen(last_dot))
+    if (!last_dot || 0 == strlen(last_dot + 1))
         return false;
 
     char *last_dash = strrchr(text, '-');
-- 
2.43.0


From da94acdb8ce19ed78ae24c9d4b6f202b8dd08dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 26/93] fix: do not leak or leave dangling parts of a package
 name with an invalid epoch

---
 lib/rpm.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 6cd14e0..8aab5df 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -739,19 +739,10 @@ sr_rpm_package_parse_nevra(const char *text,
         return false;
     }
 
-    // Architecture is after the last dot.
-    *architecture = g_strdup(last_dot + 1);
-
-    // Release is after the last dash.
-    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
-
     // Epoch is optional.
+    uint32_t parsed_epoch = 0;
     if (colon)
     {
-        // Version is before the last dash.
-        *version = g_strndup(colon + 1,
-                              last_dash - colon - 1);
-
         char *epoch_str = g_strndup(last_but_one_dash + 1,
                                      colon - last_but_one_dash - 1);
 
@@ -764,22 +755,24 @@ sr_rpm_package_parse_nevra(const char *text,
         if (failure)
         {
             g_free(epoch_str);
-            g_free(*release);
-            g_free(*architecture);
             return false;
         }
 
-        *epoch = r;
+        parsed_epoch = r;
         g_free(epoch_str);
     }
-    else
-    {
-        // Version is before the last dash.
-        *version = g_strndup(last_but_one_dash + 1,
-                              last_dash - last_but_one_dash - 1);
 
-        *epoch = 0;
-    }
+    *epoch = parsed_epoch;
+
+    // Architecture is after the last dot.
+    *architecture = g_strdup(last_dot + 1);
+
+    // Release is after the last dash.
+    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
+
+    // Version is before the last dash, after the epoch if there is one.
+    const char *version_start = (colon ? colon : last_but_one_dash) + 1;
+    *version = g_strndup(version_start, last_dash - version_start);
 
     // Name is before version.
     *name = g_strndup(text, last_but_one_dash - text);
-- 
2.43.0


From e1ae2f8683cfe169db6645fdd3e0f9deebca10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 27/93] fix: sort an empty list of packages

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8aab5df..9b4a8a2 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -174,6 +174,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From fd448f1458cf71d21faf576fca364aa055456bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:04 +0000
Subject: [PATCH 28/93] fix: do not lose the last mapped library or take a
 package from two lines

---
 lib/abrt.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..ac4ae4c 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -219,7 +219,7 @@ sr_abrt_parse_dso_list(const char *text)
 
         // Find the package NEVRA.
         char *end = strchr(pos, ' ');
-        if (!end || end - pos <= 1)
+        if (!end || end - pos <= 1 || memchr(pos, '\n', end - pos))
         {
             pos = strchr(pos, '\n');
             continue;
@@ -246,13 +246,7 @@ sr_abrt_parse_dso_list(const char *text)
         }
 
         // Find the package install time.
-        char *eol = strchr(pos, '\n');
-        if (!eol)
-        {
-            sr_rpm_package_free(dso_package, true);
-            break;
-        }
-
+        char *eol = strchrnul(pos, '\n');
         char *line = g_strndup(pos, eol - pos);
         pos = strrchr(line, ' ');
         if (!pos)
-- 
2.43.0


From 3892a63ff8820657962016a84742a6f539eedbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:52 +0000
Subject: [PATCH 29/93] fix: write the taint flags into the text of the kernel
 oops backtrace hash

---
 lib/koops_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 839471d..ca11865 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -805,6 +805,8 @@ koops_append_bthash_text(struct sr_koops_stacktrace *stacktrace,
         bool val = *(bool *)((void *)stacktrace + f->member_offset);
         if (val == false)
             continue;
+
+        g_string_append_c(strbuf, f->letter);
     }
     g_string_append_c(strbuf, '\n');
 
-- 
2.43.0


From 08abf4c40ce4ca73aa8cabf9a671633716772e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:03 +0000
Subject: [PATCH 30/93] fix: do not leak the values of repeated keys in
 os-release

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..0acf924 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -203,12 +203,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -220,10 +223,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From 839be5588b7ffb5cf84dbffb6e533586be9e9fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:03 +0000
Subject: [PATCH 31/93] fix: do not leak an empty name when a release sentence
 is refused

---
 lib/operating_system.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 0acf924..35924f2 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -159,7 +159,7 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
                                              char **version)
 {
     const char *release = strstr(etc_system_release, " release ");
-    if (!release)
+    if (!release || release == etc_system_release)
         return false;
 
     /* Normal form of Red Hat Enterprise Linux's name is "rhel" */
@@ -169,9 +169,6 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
     {
         *name = g_strndup(etc_system_release, release - etc_system_release);
 
-        if (0 == strlen(*name))
-            return false;
-
         /* make the name all lower case */
         char *a = *name;
         while (*a)
-- 
2.43.0


From ae170ccaeabe60cdedf20770866531b29a258424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 32/93] fix: load the stacktrace of JavaScript reports

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..f3d17a2 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -401,6 +401,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From d85d7f4f240f50efabf7d738c220e1bdea052731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 33/93] fix: read the user object of a report from where it is
 written

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index f3d17a2..9e88d75 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -378,7 +378,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From 5ed488fd89e5584fbf373e7b47aa8a97207c3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 34/93] fix: refuse reports whose stacktrace can not be loaded

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 9e88d75..c2caead 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -403,6 +403,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From 6ea8f5a7f51041d49d95c9813fa7ec60b6ba9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 35/93] fix: escape the reporter name and version in the JSON
 of a report

---
 lib/report.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index c2caead..1b29c47 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -209,9 +209,13 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From e9b48f338753febcb99a9ff3fdf3d1a673ec89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 36/93] fix: do not leave an error message behind for skipped
 auth entries

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 1b29c47..2df6dce 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -438,7 +438,7 @@ sr_report_from_json(json_object *root, char **error_message)
             child_name = lh_entry_k(entry);
             child_value = lh_entry_v(entry);
 
-            if (!json_check_type(child_value, json_type_string, child_name, error_message))
+            if (!json_check_type(child_value, json_type_string, child_name, NULL))
                 continue;
 
             string = json_object_get_string(child_value);
-- 
2.43.0


From e24ceb8698468d69ca46880a88b9d42f6499d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 37/93] fix: do not crash when writing a report that has no
 stacktrace

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 2df6dce..9b3d4ac 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -196,7 +196,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ?
+            sr_stacktrace_get_reason(report->stacktrace) : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From 6444fd18495df7cae5e0772722d899bf750caec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 38/93] fix: write valid JSON for a report whose stacktrace is
 empty

---
 lib/report.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 9b3d4ac..f0ea87d 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -108,7 +108,7 @@ sr_report_add_auth(struct sr_report *report, const char *key, const char *value)
     report->auth_entries = new_entry;
 }
 
-/* The object has to be non-empty, i.e. contain at least one key-value pair. */
+/* An object without any key-value pair becomes an empty string. */
 static void
 dismantle_object(char *obj)
 {
@@ -119,7 +119,7 @@ dismantle_object(char *obj)
     assert(obj[0] == '{');
     assert(obj[last] == '}');
 
-    obj[0] = ',';
+    obj[0] = (last == 1) ? '\0' : ',';
     obj[last] = '\0';
 }
 
-- 
2.43.0


From e5a7e7d646dcc6f7bd2dcf37b3e85f14bf9f9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 39/93] fix: load the CPE of an operating system

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 35924f2..5a72127 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From 6e11771953438be84726089a78394b264d5ed2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 40/93] fix: do not leave an error message behind for optional
 members of an operating system

---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 5a72127..c149315 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From ea22cad7d1409ff6a61388608f68b84e15f8ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 41/93] fix: write valid JSON for an empty list of packages

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 9b4a8a2..c18738b 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -473,6 +473,9 @@ sr_rpm_package_to_json(struct sr_rpm_package *package,
 
     if (recursive)
     {
+        if (!package)
+            g_string_append(strbuf, "[");
+
         struct sr_rpm_package *p = package;
         while (p)
         {
-- 
2.43.0


From d65d8efd2727758d292820487cabccdc166c8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 42/93] fix: report the failure to load a single package

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index c18738b..4bc6254 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -631,7 +631,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -1;
     }
     else
     {
-- 
2.43.0


From eb79291db102dfe3daa4edaab482b4b743cd1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 43/93] fix: do not refuse a zero count because of an earlier
 error

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index ac4ae4c..bde5c26 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -473,6 +473,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From 6f48cac581f2e759921532947a858679df50130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 44/93] fix: recognise JavaScript problem directories

---
 lib/abrt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index bde5c26..5a7c8a0 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -848,6 +848,9 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    /* "Java" is a prefix of "JavaScript" */
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From d65492be8def1fc269d69383ad3f787d6276b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 45/93] fix: find the desktop session after a variable whose
 name ends the same

---
 lib/abrt.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5a7c8a0..5a78fb9 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -437,16 +437,13 @@ desktop_from_dir(const char *directory,
     if (!environ_contents)
         return NULL;
 
-    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
-
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From fb472354d9ef7cc938195e9f51c21e111ffebf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 46/93] fix: refuse epochs that are not numbers and do not leak
 when package data are missing

---
 lib/abrt.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5a78fb9..a80223c 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -295,26 +295,29 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+    char *endptr;
+    errno = 0;
+    unsigned long epoch = strtoul(epoch_str, &endptr, 10);
+    if (errno || endptr == epoch_str || epoch > UINT32_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
 
     packages->epoch = (uint32_t)epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    if (!(packages->name = file_contents(directory, "pkg_name", error_message)) ||
+        !(packages->version = file_contents(directory, "pkg_version", error_message)) ||
+        !(packages->release = file_contents(directory, "pkg_release", error_message)) ||
+        !(packages->architecture = file_contents(directory, "pkg_arch", error_message)))
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From a9c3364f2084736a7f5074ed9f8f01753ba835d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 47/93] fix: do not fail without a message when the dso list
 names no package

---
 lib/abrt.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index a80223c..90d43da 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -333,29 +333,28 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     return packages;
 }
 
-static struct sr_rpm_package *
-rpm_dso_list_from_dir(struct sr_rpm_package *packages,
+static bool
+rpm_dso_list_from_dir(struct sr_rpm_package **packages,
                       const char *directory,
                       char **error_message)
 {
     char *dso_list_contents = file_contents(directory, "dso_list",
                                             error_message);
-    if (dso_list_contents)
-    {
-        struct sr_rpm_package *dso_packages =
-            sr_abrt_parse_dso_list(dso_list_contents);
+    if (!dso_list_contents)
+        return false;
 
-        if (dso_packages)
-        {
-            packages = sr_rpm_package_append(packages, dso_packages);
-            packages = sr_rpm_package_sort(packages);
-            packages = sr_rpm_package_uniq(packages);
-        }
+    struct sr_rpm_package *dso_packages =
+        sr_abrt_parse_dso_list(dso_list_contents);
 
-        g_free(dso_list_contents);
+    if (dso_packages)
+    {
+        *packages = sr_rpm_package_append(*packages, dso_packages);
+        *packages = sr_rpm_package_sort(*packages);
+        *packages = sr_rpm_package_uniq(*packages);
     }
 
-    return packages;
+    g_free(dso_list_contents);
+    return true;
 }
 
 static struct sr_rpm_package *
@@ -420,8 +419,7 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        if (!rpm_dso_list_from_dir(packages, directory, error_message))
             return -2;
     }
 
-- 
2.43.0


From 944df7d0a601586a136c4368457bb4f44582701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 48/93] fix: do not leave or leak error messages about optional
 files of a problem directory

---
 lib/abrt.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 90d43da..005d3fb 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* The error is dropped if the file can not be read. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -359,11 +370,9 @@ rpm_dso_list_from_dir(struct sr_rpm_package **packages,
 
 static struct sr_rpm_package *
 rpm_interpreter_from_dir(struct sr_rpm_package *packages,
-                         const char *directory,
-                         char **error_message)
+                         const char *directory)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -425,16 +434,15 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
 
     /* attach interpreter as related package if exists */
     if (file_exist(directory, "interpreter"))
-        *packages = rpm_interpreter_from_dir(*packages, directory, error_message);
+        *packages = rpm_interpreter_from_dir(*packages, directory);
 
     return 0;
 }
 
 static char *
-desktop_from_dir(const char *directory,
-                    char **error_message)
+desktop_from_dir(const char *directory)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -509,16 +517,15 @@ finito:
 }
 
 static char *
-get_component(const char *directory,
-              char **error_message)
+get_component(const char *directory)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -544,7 +551,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -554,8 +561,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
@@ -580,7 +586,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     }
 
     /* optional - failure is not fatal */
-    os->desktop = desktop_from_dir(directory, error_message);
+    os->desktop = desktop_from_dir(directory);
 
     return os;
 }
@@ -613,7 +619,7 @@ sr_abrt_report_from_dir(const char *directory,
     }
 
     /* Component name. */
-    report->component_name = get_component(directory, error_message);
+    report->component_name = get_component(directory);
 
     /* RPM packages. */
     if (sr_abrt_rpm_packages_from_dir(directory, &report->rpm_packages, error_message) < 0 )
-- 
2.43.0


From c74dbfb9d2d82a339a01a8fdbc7235a0f4935c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 49/93] fix: do not leak the data of an incomplete os_info

---
 lib/abrt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 005d3fb..ba86e3b 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -564,6 +564,10 @@ sr_abrt_operating_system_from_dir(const char *directory,
         char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
+            g_free(os->name);
+            g_free(os->version);
+            os->name = os->version = NULL;
+
             success = sr_operating_system_parse_etc_system_release(release_contents,
                                                                    &os->name,
                                                                    &os->version);
-- 
2.43.0


From 15232ef5fdf08b15a44a6ed8f49c8bf1ebbebfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 50/93] fix: do not leak what was read before a missing file of
 a problem directory

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index ba86e3b..5768ebc 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -705,6 +705,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -800,6 +801,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From d39d4412c01f9d09ea3e85b0d1ac0a7be3428b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 51/93] fix: do not leak memory when parsing kernel oopses

---
 lib/koops_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index ca11865..0f87f75 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -391,6 +391,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
@@ -504,6 +505,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
                 g_free(result[result_offset-1]);
+                g_free(therest);
                 result[result_offset-1] = tmp;
             }
 
-- 
2.43.0


From d1b1ac845fa8106a558264f6177c82ef836eb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:27 +0000
Subject: [PATCH 52/93] fix: do not leak the inner frames of a Java exception
 that is refused

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index e96db0e..6db76a7 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -349,7 +349,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -398,7 +398,7 @@ parse_inner_exception:
         struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
         if (inner == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
-- 
2.43.0


From 37a926d0d4ca76c20c81ce1f8d8ddaa4a2686100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:45 +0000
Subject: [PATCH 53/93] fix: do not allocate messages of the Python parser that
 nobody may release

---
 lib/python_frame.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 5ae0c44..b4de900 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -242,7 +242,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -252,8 +252,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -275,7 +275,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -285,7 +285,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -295,7 +295,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -313,8 +313,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                    "identifying the end of function name.";
 
             goto fail;
         }
-- 
2.43.0


From fa0ef9f13b9b3143e3eebeb2a7767058dd7e28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:17 +0000
Subject: [PATCH 54/93] fix: do not leak the messages of refused Ruby
 backtraces

---
 lib/internal_utils.h  |  5 +++++
 lib/ruby_frame.c      | 50 +++++++++++++++++++++++++++----------------
 lib/ruby_stacktrace.c | 33 ++++++++++++++--------------
 3 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index 429a24b..f23ca01 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -70,6 +70,11 @@ struct sr_taint_flag
 };
 extern struct sr_taint_flag sr_flags[];
 
+/* the part of sr_ruby_frame_parse shared with the stacktrace parser */
+struct sr_ruby_frame;
+struct sr_ruby_frame *
+ruby_frame_parse(const char **input, struct sr_location *location);
+
 /* assert that is never compiled out */
 #define SR_ASSERT(cond)                                                               \
     if (!(cond))                                                                      \
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 91e7272..2bd8b82 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -188,9 +188,10 @@ sr_ruby_frame_append(struct sr_ruby_frame *dest,
     return dest;
 }
 
+/* the message left in the location on failure is not to be released */
 struct sr_ruby_frame *
-sr_ruby_frame_parse(const char **input,
-                    struct sr_location *location)
+ruby_frame_parse(const char **input,
+                 struct sr_location *location)
 {
     const char *local_input = *input;
     struct sr_ruby_frame *frame = sr_ruby_frame_new();
@@ -202,8 +203,8 @@ sr_ruby_frame_parse(const char **input,
     char *filename_lineno_in = NULL;
     if (!sr_parse_char_cspan(&local_input, "`", &filename_lineno_in))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                            "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -219,8 +220,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || 0 != strcmp(":in ", p))
     {
         location->column -= strlen(":in ");
-        location->message = g_strdup("Unable to find ':in ' preceding the "
-                                      "backtick character.");
+        location->message = "Unable to find ':in ' preceding the "
+                            "backtick character.";
         goto fail;
     }
 
@@ -238,7 +239,7 @@ sr_ruby_frame_parse(const char **input,
     int lineno_len = sr_parse_uint32((const char **)&p_copy, &frame->file_line);
     if (lineno_len <= 0)
     {
-        location->message = g_strdup("Unable to find line number before ':in '");
+        location->message = "Unable to find line number before ':in '";
         goto fail;
     }
 
@@ -249,8 +250,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || *p != ':')
     {
         location->column -= lineno_len;
-        location->message = g_strdup("Unable to fin the ':' character "
-                                      "preceding the line number");
+        location->message = "Unable to fin the ':' character "
+                            "preceding the line number";
         goto fail;
     }
 
@@ -263,8 +264,8 @@ sr_ruby_frame_parse(const char **input,
 
     if(!sr_skip_char(&local_input, '`'))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                            "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -292,7 +293,7 @@ sr_ruby_frame_parse(const char **input,
         int len = sr_parse_uint32(&local_input, &frame->block_level);
         if (len == 0 || !sr_skip_string(&local_input, " levels) in "))
         {
-            location->message = g_strdup("Unable to parse block depth.");
+            location->message = "Unable to parse block depth.";
             goto fail;
         }
         location->column += len + strlen(" levels) in ");
@@ -306,8 +307,8 @@ sr_ruby_frame_parse(const char **input,
 
     if (!sr_parse_char_cspan(&local_input, "'>", &frame->function_name))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                            "delimiting the function name.";
         goto fail;
     }
     location->column += strlen(frame->function_name);
@@ -316,8 +317,8 @@ sr_ruby_frame_parse(const char **input,
     {
         if (!sr_skip_char(&local_input, '>'))
         {
-            location->message = g_strdup("Unable to find the \">\" character "
-                                          "delimiting the function name.");
+            location->message = "Unable to find the \">\" character "
+                                          "delimiting the function name.";
             goto fail;
         }
         location->column++;
@@ -325,8 +326,8 @@ sr_ruby_frame_parse(const char **input,
 
     if (!sr_skip_char(&local_input, '\''))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                            "delimiting the function name.";
         goto fail;
     }
     location->column++;
@@ -340,6 +341,19 @@ fail:
     return NULL;
 }
 
+struct sr_ruby_frame *
+sr_ruby_frame_parse(const char **input,
+                    struct sr_location *location)
+{
+    struct sr_ruby_frame *frame = ruby_frame_parse(input, location);
+
+    /* callers release the message of a frame */
+    if (!frame)
+        location->message = g_strdup(location->message);
+
+    return frame;
+}
+
 char *
 sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
 {
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..067679d 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -136,11 +136,12 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      * ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
+    stacktrace->frames = ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+        /* the frame parser usually says why */
+        if (!location->message)
+            location->message = "Topmost stacktrace frame not found.";
         goto fail;
     }
 
@@ -149,7 +150,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -159,7 +160,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
 
@@ -173,8 +174,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -185,8 +186,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -201,8 +202,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -213,8 +214,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
 
@@ -237,12 +238,12 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
 
-        last_frame->next = sr_ruby_frame_parse(&local_input, location);
+        last_frame->next = ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
             /* location->message is already set */
@@ -252,7 +253,7 @@ sr_ruby_stacktrace_parse(const char **input,
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
-- 
2.43.0


From 58bce29d827ab730014e7c49d81df04d951fe8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:01 +0000
Subject: [PATCH 55/93] fix: do not print an absent file name in the reason of
 a stacktrace

---
 lib/js_stacktrace.c     | 3 ++-
 lib/python_stacktrace.c | 3 ++-
 lib/ruby_stacktrace.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 91d5629..208d11a 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -367,7 +367,8 @@ sr_js_stacktrace_get_reason(struct sr_js_stacktrace *stacktrace)
     struct sr_js_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
         column = frame->line_column;
     }
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..1230030 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -335,7 +335,8 @@ sr_python_stacktrace_get_reason(struct sr_python_stacktrace *stacktrace)
 
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 067679d..844656c 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -372,7 +372,8 @@ sr_ruby_stacktrace_get_reason(struct sr_ruby_stacktrace *stacktrace)
     struct sr_ruby_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
-- 
2.43.0


From 5123f271afe46cefdb47d77ac7e641762bee4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:01 +0000
Subject: [PATCH 56/93] fix: do not print absent fields of core and JavaScript
 frames

---
 lib/core_frame.c | 2 +-
 lib/js_frame.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 2cf70d4..f49c4ad 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -341,7 +341,7 @@ sr_core_frame_append_to_str(struct sr_core_frame *frame,
     }
     else
     {
-        g_string_append_printf(dest, " %s+%"PRIu64, frame->build_id,
+        g_string_append_printf(dest, " %s+%"PRIu64, OR_UNKNOWN(frame->build_id),
                               frame->build_id_offset);
     }
 }
diff --git a/lib/js_frame.c b/lib/js_frame.c
index 4390f9d..cb2c7cf 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -474,7 +474,7 @@ sr_js_frame_append_to_str(struct sr_js_frame *frame,
         g_string_append_printf(dest, "%s (", frame->function_name);
 
     g_string_append_printf(dest, "%s:%"PRIu32":%"PRIu32,
-                          frame->file_name,
+                          OR_UNKNOWN(frame->file_name),
                           frame->file_line,
                           frame->line_column);
 
-- 
2.43.0


From 4a0c21b0e4e55e3b9be72c55615a2f2517ce9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:34 +0000
Subject: [PATCH 57/93] fix: do not leave the verbosity of a GDB frame printed
 through sr_frame_append_to_str undefined

---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 7bb5b59..63caa92 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+frame_append_to_str(struct sr_gdb_frame *frame, GString *strbuf)
+{
+    sr_gdb_frame_append_to_str(frame, strbuf, false);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) frame_append_to_str,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From d8d83a858214c2b49697a8c7385fd26aaad795d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:18 +0000
Subject: [PATCH 58/93] fix: compare whole mnemonics when looking for an
 instruction

The character behind the mnemonic was taken from the mnemonic itself,
where it is always the terminator, so that every instruction that starts
with a listed mnemonic was taken for it.
---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index e38a91d..61a726b 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -81,7 +81,7 @@ sr_disasm_instruction_is_one_of(char *instruction,
     {
         size_t len = strlen(*mnemonics);
         if (0 == strncmp(instruction, *mnemonics, len) &&
-            (' ' == *(*mnemonics + len) || '\0' == *(*mnemonics + len)))
+            (' ' == instruction[len] || '\0' == instruction[len]))
         {
             return true;
         }
-- 
2.43.0


From c45ed917e95ed2e06863806e09bcd6e4435f722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:18 +0000
Subject: [PATCH 59/93] fix: allocate the terminator of the list of called
 addresses

Only one byte was allocated for the terminating zero of the list, which
takes the size of an address.
---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index 61a726b..a800bc5 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -160,7 +160,7 @@ sr_disasm_get_callee_addresses(char **instructions)
     }
 
     /* Create the output array and fill it */
-    uint64_t *result = g_malloc(result_size * sizeof(*result) + 1);
+    uint64_t *result = g_malloc((result_size + 1) * sizeof(*result));
     size_t result_offset = 0;
     instruction_offset = 0;
     while (instructions[instruction_offset])
-- 
2.43.0


From 3e9474f8cd5d65655bce2bd44fbf69f9b7f2f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:32 +0000
Subject: [PATCH 60/93] fix: release the instructions a call graph is made from

---
 lib/callgraph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/callgraph.c b/lib/callgraph.c
index 530e8a6..1b8845d 100644
--- a/lib/callgraph.c
+++ b/lib/callgraph.c
@@ -52,6 +52,7 @@ sr_callgraph_compute(struct sr_disasm_state *disassembler,
         }
 
         entry->callees = sr_disasm_get_callee_addresses(instructions);
+        sr_disasm_instructions_free(instructions);
 
         if (result)
         {
@@ -109,6 +110,7 @@ sr_callgraph_extend(struct sr_callgraph *callgraph,
     }
 
     entry->callees = sr_disasm_get_callee_addresses(instructions);
+    sr_disasm_instructions_free(instructions);
 
     if (callgraph)
     {
-- 
2.43.0


From 5ee75d2593e995f839120f2cb939a0e1e77412ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:10 +0000
Subject: [PATCH 61/93] fix: close the core file even if it got descriptor 0

With standard input closed, as it is after unwinding a process in the
core handler, the core file is opened as descriptor 0, which was taken
for no descriptor and left open.
---
 lib/core_unwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..1799dd6 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -123,7 +123,7 @@ core_handle_free(struct core_handle *ch)
             dwfl_end(ch->dwfl);
         if (ch->eh)
             elf_end(ch->eh);
-        if (ch->fd > 0)
+        if (ch->fd >= 0)
             close(ch->fd);
         g_free(ch);
     }
-- 
2.43.0


From 4b8533440ed51ec11d38ae75cc89f4a006552de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:10 +0000
Subject: [PATCH 62/93] fix: release the segments found before listing the
 modules of a core file fails

---
 lib/core_unwind.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 1799dd6..a6ef9df 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -104,20 +104,27 @@ _set_error(char **error_msg, const char *fmt, ...)
     va_end(ap);
 }
 
+static void
+exe_mapping_data_free(struct exe_mapping_data *seg)
+{
+    struct exe_mapping_data *next;
+
+    while (seg)
+    {
+        g_free(seg->filename);
+
+        next = seg->next;
+        g_free(seg);
+        seg = next;
+    }
+}
+
 void
 core_handle_free(struct core_handle *ch)
 {
     if (ch)
     {
-        struct exe_mapping_data *seg = ch->segments, *next;
-        while (seg)
-        {
-            g_free(seg->filename);
-
-            next = seg->next;
-            g_free(seg);
-            seg = next;
-        }
+        exe_mapping_data_free(ch->segments);
 
         if (ch->dwfl)
             dwfl_end(ch->dwfl);
@@ -277,6 +284,7 @@ open_coredump(const char *elf_file, const char *exe_file, char **error_msg)
     return ch;
 
 fail_dwfl:
+    exe_mapping_data_free(head);
     dwfl_end(ch->dwfl);
 fail_elf:
     elf_end(ch->eh);
-- 
2.43.0


From b1e2f0f76c027864a1280e91f001f85ca7aaafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:10 +0000
Subject: [PATCH 63/93] fix: return no stacktrace if attaching to the dying
 process fails

A stacktrace with a thread without frames was returned along with the
error message, and the caller took it for a success.
---
 lib/core_unwind_elfutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..1f56bf3 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -331,6 +331,8 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
     if (dwfl_linux_proc_attach(state->dwfl, tid, true) != 0)
     {
         set_error_dwfl("dwfl_linux_proc_attach");
+        sr_core_stacktrace_free(stacktrace);
+        stacktrace = NULL;
         goto fail;
     }
 
-- 
2.43.0


From 41a083830e5f1f170ca7718bf9b3f063674c9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 64/93] fix: do not count signal handler frames when shortening
 a thread from gdb

They are not part of the core stacktrace, but one was dropped in place
of a frame, so that threads could get longer than the limit.
---
 lib/core_unwind.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index a6ef9df..bd8fdc6 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -473,7 +473,13 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
             if (nframes)
                 --nframes;
             else
+            {
+                /* Signal handler frames do not count. */
+                while (top_frame->signal_handler_called)
+                    top_frame = top_frame->next;
+
                 top_frame = top_frame->next;
+            }
         }
 
         for (struct sr_gdb_frame *gdb_frame = top_frame;
-- 
2.43.0


From 9e6bf9134105000c2f9c82bb45c6014028c86b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:40 +0000
Subject: [PATCH 65/93] fix: free the rpm tag data when a header lacks the tag

---
 lib/rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 4bc6254..f87ea98 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -288,7 +288,10 @@ header_get_string(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     const char *str = rpmtdGetString(tag_data);
     *result = (str ? g_strdup(str) : NULL);
@@ -308,7 +311,10 @@ header_get_uint32(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     uint32_t *num = rpmtdGetUint32(tag_data);
     if (num)
-- 
2.43.0


From 446925ec55895f3acbc562911f27dc883f580317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:40 +0000
Subject: [PATCH 66/93] fix: packages without an epoch are found in the rpm
 database

---
 lib/rpm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index f87ea98..d57e7d0 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -337,15 +337,11 @@ header_to_rpm_info(Header header,
         return NULL;
     }
 
-    bool success = header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
-    if (!success)
-    {
-        *error_message = g_strdup_printf("Failed to find package epoch.");
-        sr_rpm_package_free(rpm, false);
-        return NULL;
-    }
+    /* Most packages have no epoch tag, which means that the epoch is 0. */
+    if (!header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch))
+        rpm->epoch = 0;
 
-    success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
+    bool success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
     if (!success)
     {
         *error_message = g_strdup_printf("Failed to find package version.");
-- 
2.43.0


From e3bf62e3a79abeb5c6c4e39a7340a3af58706f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:28 +0000
Subject: [PATCH 67/93] fix: set the ELF version before reading the PLT and
 .eh_frame

---
 lib/elves.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 45ae61c..60edcf2 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -131,6 +131,15 @@ sr_elf_get_procedure_linkage_table(const char *filename,
         return NULL;
     }
 
+    /* elf_begin refuses to work until the version is set. */
+    if (elf_version(EV_CURRENT) == EV_NONE)
+    {
+        *error_message = g_strdup_printf("elf_version failed: %s",
+                                     elf_errmsg(-1));
+        close(fd);
+        return NULL;
+    }
+
     /* Initialize libelf on the opened file. */
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
@@ -511,6 +520,15 @@ sr_elf_get_eh_frame(const char *filename,
         return NULL;
     }
 
+    /* elf_begin refuses to work until the version is set. */
+    if (elf_version(EV_CURRENT) == EV_NONE)
+    {
+        *error_message = g_strdup_printf("elf_version failed: %s",
+                                     elf_errmsg(-1));
+        close(fd);
+        return NULL;
+    }
+
     /* Initialize libelf on the opened file. */
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
-- 
2.43.0


From 9ae5df26208518c55bb39adbb5e7150a1b4353bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:50 +0000
Subject: [PATCH 68/93] fix: do not read the PLT past its end

---
 lib/elves.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 60edcf2..f37f1d8 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -283,10 +283,15 @@ sr_elf_get_procedure_linkage_table(const char *filename,
     struct sr_elf_plt_entry *result = NULL, *last = NULL;
     for (unsigned plt_offset = 16; plt_offset < plt_data->d_size; plt_offset += 16)
     {
-        uint32_t *plt_index = (uint32_t*)(plt_data->d_buf + plt_offset + 7);
+        /* An incomplete slot at the end holds no index. */
+        if (plt_data->d_size - plt_offset < 7 + sizeof(uint32_t))
+            break;
+
+        uint32_t plt_index;
+        memcpy(&plt_index, plt_data->d_buf + plt_offset + 7, sizeof(plt_index));
 
         GElf_Rela rela;
-        if (gelf_getrela(rela_plt_data, *plt_index, &rela) != &rela)
+        if (gelf_getrela(rela_plt_data, plt_index, &rela) != &rela)
         {
             *error_message = g_strdup_printf("gelf_getrela failed for %s: %s",
                                          filename,
-- 
2.43.0


From 61303bb866c4cd7e7aafe4455c2fb9ff5184bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:50 +0000
Subject: [PATCH 69/93] fix: do not read .eh_frame entries past their end

---
 lib/elves.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index f37f1d8..d8abc1b 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -434,11 +434,21 @@ read_cie(Dwarf_CFI_Entry *cfi,
      */
     const char *augmentation = cfi->cie.augmentation;
     const uint8_t *augmentation_data = cfi->cie.augmentation_data;
+    const uint8_t *augmentation_end = augmentation_data + cfi->cie.augmentation_data_size;
     if (*augmentation == 'z')
         ++augmentation;
 
     while (*augmentation != '\0')
     {
+        if (augmentation_data >= augmentation_end &&
+            (*augmentation == 'R' || *augmentation == 'P'))
+        {
+            *error_message = g_strdup_printf("Augmentation data too short (CIE %jx)",
+                                         (uintmax_t)cfi_offset);
+            g_free(cie);
+            return NULL;
+        }
+
         switch (*augmentation)
         {
         case 'R':
@@ -747,6 +757,19 @@ sr_elf_get_eh_frame(const char *filename,
              * compute the offset from VMA base
              */
 
+            if (cfi.fde.end - cfi.fde.start < 2 * cie->ptr_len)
+            {
+                *error_message = g_strdup_printf("FDE %jx in %s is too short",
+                                             (uintmax_t)cfi_offset,
+                                             filename);
+
+                cie_free(cie_list);
+                sr_elf_eh_frame_free(result);
+                elf_end(elf);
+                close(fd);
+                return NULL;
+            }
+
             uint64_t initial_location = fde_read_address(cfi.fde.start,
                                                          cie->ptr_len);
 
-- 
2.43.0


From 30c42900f6c3c9faa571a51e5da60f6b82984264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:50 +0000
Subject: [PATCH 70/93] fix: pc-relative .eh_frame addresses are relative to
 the executable segment

---
 lib/elves.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index d8abc1b..126c044 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -778,13 +778,10 @@ sr_elf_get_eh_frame(const char *filename,
 
             if (cie->pcrel)
             {
-                /* We need to determine how long is the 'length' (and
-                 * consequently CIE id) field of this FDE -- it can be
-                 * either 4 or 12 bytes long. */
-                uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
-                uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
+                /* The value is relative to the address it is stored at. */
+                uint64_t offset = cfi.fde.start - (const uint8_t *)section_data->d_buf;
                 uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset + cfi_offset + 2 * skip;
+                initial_location += shdr.sh_addr + offset - exec_base;
                 initial_location &= mask;
             }
             else
-- 
2.43.0


From c093b356465e6bcbf7573c3eaf35c54535907c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 71/93] fix: do not crash on ELF sections without content

---
 lib/elves.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 126c044..dc5b28e 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -104,6 +104,15 @@ find_elf_section_by_name(Elf *elf,
                 return 0;
             }
 
+            /* Files with debugging information contain the headers of
+             * sections whose content is elsewhere. */
+            if (!(*data_dest)->d_buf)
+            {
+                *error_message = g_strdup_printf("Section %s has no content",
+                                             section_name);
+                return 0;
+            }
+
             /* Save the section header. */
             *shdr_dest = shdr;
             return section_index;
-- 
2.43.0


From 7940e42b4e7fa76c8388df73ea7fc4982459f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 72/93] fix: find the PLT relocations when they apply to
 .got.plt

---
 lib/elves.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/elves.c b/lib/elves.c
index dc5b28e..fc4ebfa 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -186,6 +186,17 @@ sr_elf_get_procedure_linkage_table(const char *filename,
      * with its symbol and string table
      */
     uint64_t plt_base = shdr.sh_addr;
+
+    /* Linkers since 2015 say that the relocations apply to .got.plt. */
+    Elf_Data *got_plt_data;
+    char *got_plt_error_message = NULL;
+    size_t got_plt_section_index = find_elf_section_by_name(elf,
+                                                            ".got.plt",
+                                                            &got_plt_data,
+                                                            &shdr,
+                                                            &got_plt_error_message);
+    g_free(got_plt_error_message);
+
     Elf_Data *rela_plt_data = NULL;
     Elf_Data *plt_symbols = NULL;
     size_t stringtable = 0;
@@ -204,7 +215,9 @@ sr_elf_get_procedure_linkage_table(const char *filename,
         }
 
         if (shdr.sh_type == SHT_RELA &&
-            shdr.sh_info == plt_section_index)
+            (shdr.sh_info == plt_section_index ||
+             (got_plt_section_index != 0 &&
+              shdr.sh_info == got_plt_section_index)))
         {
             rela_plt_data = elf_getdata(section, NULL);
             if (!rela_plt_data)
-- 
2.43.0


From 852b6da11009496745c63b552771147150007ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 73/93] fix: python objects with emptied lists do not use the
 objects that were in them

---
 python/py_base_stacktrace.c |  9 +++++++++
 python/py_base_thread.c     |  9 +++++++++
 python/py_gdb_stacktrace.c  | 10 ++++++++++
 python/py_report.c          |  5 ++++-
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..5084fb0 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -185,6 +185,15 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
     PyObject *item;
     struct sr_py_base_thread *current = NULL, *prev = NULL;
 
+    if (!stacktrace->threads || !PyList_Check(stacktrace->threads))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'threads' is not a list.");
+        return -1;
+    }
+
+    /* The threads known so far may not exist any more. */
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+
     for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
     {
         item = PyList_GetItem(stacktrace->threads, i);
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..7bdc5f2 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -119,6 +119,15 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
     PyObject *item;
     struct sr_py_base_frame *current = NULL, *prev = NULL;
 
+    if (!thread->frames || !PyList_Check(thread->frames))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'frames' is not a list.");
+        return -1;
+    }
+
+    /* The frames known so far may not exist any more. */
+    sr_thread_set_frames(thread->thread, NULL);
+
     for (i = 0; i < PyList_Size(thread->frames); ++i)
     {
         item = PyList_GetItem(thread->frames, i);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..54fd414 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -148,6 +148,16 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
     int i;
     PyObject *item;
     struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
+
+    if (!stacktrace->libs || !PyList_Check(stacktrace->libs))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'libs' is not a list.");
+        return -1;
+    }
+
+    /* The libraries known so far may not exist any more. */
+    stacktrace->stacktrace->libs = NULL;
+
     for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
     {
         item = PyList_GetItem(stacktrace->libs, i);
diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..256eec3 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -169,7 +169,7 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
 int
 rpms_prepare_linked_list(struct sr_py_report *report)
 {
-    if (!PyList_Check(report->packages))
+    if (!report->packages || !PyList_Check(report->packages))
     {
         PyErr_SetString(PyExc_TypeError, "Attribute 'packages' is not a list.");
         return -1;
@@ -179,6 +179,9 @@ rpms_prepare_linked_list(struct sr_py_report *report)
     PyObject *item;
     struct sr_py_rpm_package *current = NULL, *prev = NULL;
 
+    /* The packages known so far may not exist any more. */
+    report->report->rpm_packages = NULL;
+
     for (i = 0; i < PyList_Size(report->packages); ++i)
     {
         item = PyList_GetItem(report->packages, i);
-- 
2.43.0


From 410b9ebd37ba08305ffd0a4c25984223d560ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 74/93] fix: python lists with a wrong object do not lose a
 reference to the right ones

---
 python/py_base_stacktrace.c | 6 +++++-
 python/py_gdb_stacktrace.c  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 5084fb0..abd863e 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -203,7 +203,7 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, stacktrace->thread_type))
         {
-            Py_XDECREF(current);
+            Py_XDECREF(item);
             Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError,
                          "threads must be a list of %s objects",
@@ -214,7 +214,11 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         /* Note: this line is not present in frames_prepare_linked_list. */
         current = (struct sr_py_base_thread*)item;
         if (frames_prepare_linked_list(current) < 0)
+        {
+            Py_XDECREF(item);
+            Py_XDECREF(prev);
             return -1;
+        }
 
         if (i == 0)
             sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 54fd414..b7556f7 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -167,7 +167,7 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
         {
-            Py_XDECREF(currentlib);
+            Py_XDECREF(item);
             Py_XDECREF(prevlib);
             PyErr_SetString(PyExc_TypeError,
                             "libs must be a list of satyr.Sharedlib objects");
-- 
2.43.0


From 91c5e27dca9e1c38d0415644964ff117e8be1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 75/93] fix: python kerneloops frame from text that is no frame

---
 python/py_koops_frame.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..de1d53d 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -150,6 +150,13 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (str)
     {
         fo->frame = sr_koops_frame_parse(&str);
+
+        if (!fo->frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Invalid kerneloops frame.");
+            PyObject_Del(fo);
+            return NULL;
+        }
     }
     else
         fo->frame = sr_koops_frame_new();
-- 
2.43.0


From 0ee46df788b875ca23b1fb761f78ececb526e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 76/93] fix: python rpm package without an epoch

---
 python/py_rpm_package.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..87a6791 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -122,7 +122,7 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
+    unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
         return NULL;
-- 
2.43.0


From 4be85c9a7d1e498a71d5187f04babff75fdca195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 77/93] fix: python attributes of 32 bits refuse larger numbers

---
 python/py_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..1db6104 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -118,9 +118,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
-- 
2.43.0


From 08b17d2f2de3da84a5e5b443a6512afd09da0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 78/93] fix: python gdb stacktrace keeps its own reference to
 the crash frame

---
 python/py_gdb_stacktrace.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index b7556f7..ba9687f 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -301,6 +301,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
     bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
     if (str)
     {
@@ -338,6 +339,7 @@ sr_py_gdb_stacktrace_free(PyObject *object)
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     Py_DECREF(this->libs);
+    Py_XDECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
     sr_gdb_stacktrace_free(this->stacktrace);
@@ -389,12 +391,15 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
 
     if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
+        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
         if (!bo->crashframe)
             return NULL;
     }
     else
+    {
+        Py_INCREF(Py_None);
         bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    }
 
     return (PyObject*)bo;
 }
@@ -424,15 +429,18 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
     if (stacktrace_rebuild_thread_python_list(this) < 0)
     {
-        sr_gdb_frame_free(frame);
         Py_DECREF(result);
         return NULL;
     }
 
+    /* one reference for the caller and one for the attribute */
+    Py_INCREF(result);
+    Py_XDECREF(this->crashframe);
+    this->crashframe = result;
+
     return (PyObject *)result;
 }
 
-- 
2.43.0


From edc2616e4b99f733b796e7c4a72a117be2d19f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 79/93] fix: python methods of gdb stacktraces without threads

---
 python/py_gdb_stacktrace.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index ba9687f..8785ad8 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -255,9 +255,13 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
 int
 stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
 {
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
-        return -1;
+    struct sr_gdb_thread *newlinkedlist = NULL;
+    if (stacktrace->stacktrace->threads)
+    {
+        newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
+        if (!newlinkedlist)
+            return -1;
+    }
 
     /* the list will decref all of its elements */
     Py_DECREF(stacktrace->threads);
@@ -271,9 +275,13 @@ stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
 int
 stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
 {
-    struct sr_gdb_sharedlib *newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
-    if (!newlinkedlist)
-        return -1;
+    struct sr_gdb_sharedlib *newlinkedlist = NULL;
+    if (stacktrace->stacktrace->libs)
+    {
+        newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
+        if (!newlinkedlist)
+            return -1;
+    }
 
     /* the list will decref all of its elements */
     Py_DECREF(stacktrace->libs);
-- 
2.43.0


From d2e3d33d3f892c130fb1878a7fa2c952699b4216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:58 +0000
Subject: [PATCH 80/93] fix: python lists own the objects put into them

---
 python/py_base_stacktrace.c  |  2 ++
 python/py_base_thread.c      |  2 ++
 python/py_cluster.c          |  7 ++++++-
 python/py_gdb_stacktrace.c   | 20 +++++++++++++++++---
 python/py_koops_stacktrace.c |  4 +++-
 python/py_metrics.c          |  6 ++++++
 python/py_report.c           |  5 +++++
 7 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index abd863e..b499af0 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -263,6 +263,8 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
 
+        /* the list has its own reference */
+        Py_DECREF(item);
         thread = sr_thread_next(thread);
     }
 
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 7bdc5f2..8c9aa7b 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -188,6 +188,8 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
 
+        /* the list has its own reference */
+        Py_DECREF(item);
         frame = sr_frame_next(frame);
     }
 
diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..8fb8cdb 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -188,8 +188,13 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     {
         listc = PyList_New(0);
         for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
+        {
+            PyObject *object = PyInt_FromLong(cluster->objects[i]);
+            PyList_Append(listc, object);
+            Py_XDECREF(object);
+        }
         PyList_Append(list, listc);
+        Py_XDECREF(listc);
 
         cl = cluster;
         cluster = cluster->next;
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 8785ad8..7c8770f 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -217,6 +217,8 @@ thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
 
+        /* the list has its own reference */
+        Py_DECREF(item);
         thread = thread->next;
     }
 
@@ -241,6 +243,8 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
 
+        /* the list has its own reference */
+        Py_DECREF(item);
         sharedlib = sharedlib->next;
     }
 
@@ -463,9 +467,18 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    /* frees frames, which belong to their python objects - work on a copy */
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    /* the list will decref all of its elements */
+    Py_DECREF(this->threads);
+
+    this->stacktrace->threads = tmp->threads;
+    tmp->threads = NULL;
+    sr_gdb_stacktrace_free(tmp);
+
+    this->threads = thread_linked_list_to_python_list(this->stacktrace);
+    if (!this->threads)
         return NULL;
 
     Py_RETURN_NONE;
@@ -558,6 +571,7 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     Py_DECREF(this->threads);
 
     this->stacktrace->threads = tmp->threads;
+    sr_gdb_frame_free(this->stacktrace->crash);
     this->stacktrace->crash = tmp->crash;
     this->stacktrace->crash_tid = tmp->crash_tid;
     tmp->threads = NULL;
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..763117d 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,9 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = Py_BuildValue("s", *iter++);
+      PyList_Append(result, module);
+      Py_XDECREF(module);
     }
 
     return result;
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..6c5df3c 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -520,6 +520,9 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 Py_XDECREF(dist_list);
                 return NULL;
             }
+
+            /* the list has its own reference */
+            Py_DECREF(f);
         }
     }
     else
@@ -574,6 +577,9 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
             sr_distances_part_free(it, true);
             return NULL;
         }
+
+        /* the list has its own reference */
+        Py_DECREF(py_part);
     }
 
     return part_list;
diff --git a/python/py_report.c b/python/py_report.c
index 256eec3..68237fb 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -160,6 +160,8 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
 
+        /* the list has its own reference */
+        Py_DECREF(item);
         rpm = rpm->next;
     }
 
@@ -524,6 +526,9 @@ sr_py_report_get_auth(PyObject *self, void *data)
 
         if (PyDict_SetItemString(auth, ae->key, val) == -1)
             return NULL;
+
+        /* the dictionary has its own reference */
+        Py_DECREF(val);
     }
 
     return auth;
-- 
2.43.0


From a883975cd58b8114dc2cf5500e67da3de727d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:58 +0000
Subject: [PATCH 81/93] fix: python objects without their deletable attributes
 can be freed

---
 python/py_core_stacktrace.c   |  2 +-
 python/py_core_thread.c       |  2 +-
 python/py_gdb_stacktrace.c    |  4 ++--
 python/py_gdb_thread.c        |  2 +-
 python/py_java_stacktrace.c   |  2 +-
 python/py_java_thread.c       |  2 +-
 python/py_js_stacktrace.c     |  2 +-
 python/py_koops_stacktrace.c  |  2 +-
 python/py_python_stacktrace.c |  2 +-
 python/py_report.c            | 11 ++++++-----
 python/py_ruby_stacktrace.c   |  2 +-
 11 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 1feea4c..4eada74 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -167,7 +167,7 @@ sr_py_core_stacktrace_free(PyObject *object)
 {
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
+    Py_XDECREF(this->threads);
     this->stacktrace->threads = NULL;
     sr_core_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_core_thread.c b/python/py_core_thread.c
index f583f22..1a73677 100644
--- a/python/py_core_thread.c
+++ b/python/py_core_thread.c
@@ -114,7 +114,7 @@ sr_py_core_thread_free(PyObject *object)
 {
     struct sr_py_core_thread *this = (struct sr_py_core_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_core_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 7c8770f..44418b0 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -349,8 +349,8 @@ sr_py_gdb_stacktrace_free(PyObject *object)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    Py_DECREF(this->libs);
+    Py_XDECREF(this->threads);
+    Py_XDECREF(this->libs);
     Py_XDECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..f9d70e3 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -160,7 +160,7 @@ sr_py_gdb_thread_free(PyObject *object)
 {
     struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_gdb_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_java_stacktrace.c b/python/py_java_stacktrace.c
index aef1689..eb5db5d 100644
--- a/python/py_java_stacktrace.c
+++ b/python/py_java_stacktrace.c
@@ -129,7 +129,7 @@ sr_py_java_stacktrace_free(PyObject *object)
 {
     struct sr_py_java_stacktrace *this = (struct sr_py_java_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
+    Py_XDECREF(this->threads);
     this->stacktrace->threads = NULL;
     sr_java_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..10c629a 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -151,7 +151,7 @@ sr_py_java_thread_free(PyObject *object)
 {
     struct sr_py_java_thread *this = (struct sr_py_java_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_java_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_js_stacktrace.c b/python/py_js_stacktrace.c
index 5027dcf..15f9ece 100644
--- a/python/py_js_stacktrace.c
+++ b/python/py_js_stacktrace.c
@@ -164,7 +164,7 @@ sr_py_js_stacktrace_free(PyObject *object)
 {
     struct sr_py_js_stacktrace *this = (struct sr_py_js_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_js_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 763117d..5b1306e 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -208,7 +208,7 @@ sr_py_koops_stacktrace_free(PyObject *object)
 {
     struct sr_py_koops_stacktrace *this = (struct sr_py_koops_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_koops_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_python_stacktrace.c b/python/py_python_stacktrace.c
index 30e0169..fdad844 100644
--- a/python/py_python_stacktrace.c
+++ b/python/py_python_stacktrace.c
@@ -149,7 +149,7 @@ sr_py_python_stacktrace_free(PyObject *object)
 {
     struct sr_py_python_stacktrace *this = (struct sr_py_python_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_python_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_report.c b/python/py_report.c
index 68237fb..e17f157 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -222,7 +222,7 @@ rpms_prepare_linked_list(struct sr_py_report *report)
 static int
 stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_thread)
 {
-    if (!PyObject_TypeCheck(report->stacktrace, type))
+    if (!report->stacktrace || !PyObject_TypeCheck(report->stacktrace, type))
     {
         PyErr_Format(PyExc_TypeError, "stacktrace must be an %s object", type->tp_name);
         return -1;
@@ -256,7 +256,8 @@ report_prepare_subobjects(struct sr_py_report *report)
     }
     else
     {
-        if (!PyObject_TypeCheck(report->operating_system, &sr_py_operating_system_type))
+        if (!report->operating_system ||
+            !PyObject_TypeCheck(report->operating_system, &sr_py_operating_system_type))
         {
             PyErr_SetString(PyExc_TypeError, "operating_system must be an OperatingSystem object");
             return -1;
@@ -419,9 +420,9 @@ sr_py_report_free(PyObject *object)
     /* python will free the subordinate objects once their refcount reaches zero */
     /* XXX: is this correct wrt the warning on
      * http://docs.python.org/2.7/c-api/refcounting.html?highlight=py_decref#Py_DECREF ? */
-    Py_DECREF(this->packages);
-    Py_DECREF(this->operating_system);
-    Py_DECREF(this->stacktrace);
+    Py_XDECREF(this->packages);
+    Py_XDECREF(this->operating_system);
+    Py_XDECREF(this->stacktrace);
 
     /* if there was no other reference, these structs are free'd by now */
     this->report->rpm_packages = NULL;
diff --git a/python/py_ruby_stacktrace.c b/python/py_ruby_stacktrace.c
index c03ab10..56ee05f 100644
--- a/python/py_ruby_stacktrace.c
+++ b/python/py_ruby_stacktrace.c
@@ -144,7 +144,7 @@ sr_py_ruby_stacktrace_free(PyObject *object)
 {
     struct sr_py_ruby_stacktrace *this = (struct sr_py_ruby_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_ruby_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
-- 
2.43.0


From 43025d401c0cb9fe5629f239a8242eb6e2a3b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:58 +0000
Subject: [PATCH 82/93] fix: python format_funs uses the current frames and
 frees the string

---
 python/py_gdb_thread.c  | 9 ++++++++-
 python/py_java_thread.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index f9d70e3..ff1579d 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -231,5 +231,12 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 10c629a..31d5cf7 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -222,5 +222,12 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_java_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
-- 
2.43.0


From 4633dc26d7adec6c030d10dfae16c8151cc214a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:58 +0000
Subject: [PATCH 83/93] fix: python from_json of invalid text leaves no
 half-freed object

---
 python/py_base_stacktrace.c | 58 +++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index b499af0..9638b66 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -430,7 +430,7 @@ sr_py_multi_stacktrace_get_crash(PyObject *self, void *unused)
 PyObject *
 sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
@@ -439,24 +439,36 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
     PyObject *result = PyObject_CallObject(class, noargs);
     Py_DECREF(noargs);
 
-    /* Free the C structure and thread list */
+    if (!result)
+        return NULL;
+
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
     enum sr_report_type type = this->thread->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    sr_thread_set_frames(this->thread, NULL);
-    sr_thread_free(this->thread);
 
     /* Parse json */
-    this->thread = (struct sr_thread*)
+    struct sr_thread *parsed = (struct sr_thread*)
         sr_stacktrace_from_json_text(type, json_str, &error_message);
-
-    if (!this->thread)
+    if (!parsed)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
+
+    /* Replace the C structure and frames list */
+    /* the list will decref all of its elements */
+    Py_DECREF(this->frames);
+    sr_thread_set_frames(this->thread, NULL);
+    sr_thread_free(this->thread);
+
+    this->thread = parsed;
     this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
+    if (!this->frames)
+    {
+        Py_DECREF(result);
+        return NULL;
+    }
 
     return result;
 }
@@ -464,7 +476,7 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 PyObject *
 sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
@@ -473,22 +485,36 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
     PyObject *result = PyObject_CallObject(class, noargs);
     Py_DECREF(noargs);
 
-    /* Free the C structure and thread list */
+    if (!result)
+        return NULL;
+
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
     enum sr_report_type type = this->stacktrace->type;
+
+    /* Parse json */
+    struct sr_stacktrace *parsed =
+        sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!parsed)
+    {
+        PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    /* Replace the C structure and threads list */
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     sr_stacktrace_set_threads(this->stacktrace, NULL);
     sr_stacktrace_free(this->stacktrace);
 
-    /* Parse json */
-    this->stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
-    if (!this->stacktrace)
+    this->stacktrace = parsed;
+    this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
+    if (!this->threads)
     {
-        PyErr_SetString(PyExc_ValueError, error_message);
+        Py_DECREF(result);
         return NULL;
     }
-    this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
 
     return result;
 }
-- 
2.43.0


From b232bad53793153e4f94eb21b870d13171aa8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 84/93] fix: python constructors do not leak the object when
 they fail

---
 python/py_gdb_frame.c        | 4 ++++
 python/py_gdb_stacktrace.c   | 4 ++++
 python/py_gdb_thread.c       | 4 ++++
 python/py_java_frame.c       | 4 ++++
 python/py_java_thread.c      | 4 ++++
 python/py_js_frame.c         | 4 ++++
 python/py_koops_frame.c      | 3 +++
 python/py_operating_system.c | 3 +++
 python/py_python_frame.c     | 4 ++++
 python/py_rpm_package.c      | 3 +++
 python/py_ruby_frame.c       | 4 ++++
 11 files changed, 41 insertions(+)

diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..04e8e81 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -184,7 +184,10 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -195,6 +198,7 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 44418b0..475aefa 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -309,7 +309,10 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(bo);
         return NULL;
+    }
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
@@ -324,6 +327,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
         if (!bo->stacktrace)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(bo);
             return NULL;
         }
         bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index ff1579d..6dc7d9b 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -121,7 +121,10 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     const char *str = NULL;
     int only_funs = 0;
     if (!PyArg_ParseTuple(args, "|si", &str, &only_funs))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -133,6 +136,7 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
             if (!to->thread)
             {
                 PyErr_SetString(PyExc_ValueError, location.message);
+                PyObject_Del(to);
                 return NULL;
             }
         }
diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index 271d937..a9a82ed 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -133,7 +133,10 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -144,6 +147,7 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 31d5cf7..4807f92 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -120,7 +120,10 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -130,6 +133,7 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!to->thread)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(to);
             return NULL;
         }
         to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index bb1534b..1bb5e7a 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -126,7 +126,10 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -137,6 +140,7 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index de1d53d..6dcbd6b 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -145,7 +145,10 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
diff --git a/python/py_operating_system.c b/python/py_operating_system.c
index 9a9981c..ba1985e 100644
--- a/python/py_operating_system.c
+++ b/python/py_operating_system.c
@@ -111,7 +111,10 @@ sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *name = NULL, *version = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
+    {
+        Py_DECREF(os);
         return NULL;
+    }
 
     if (name)
         os->operating_system->name = g_strdup(name);
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 15a3353..b86197d 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -130,7 +130,10 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,7 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 87a6791..c788279 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -125,7 +125,10 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
+    {
+        Py_DECREF(rpm);
         return NULL;
+    }
 
     if (name)
         rpm->rpm_package->name = g_strdup(name);
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d1a5ca2..b23b613 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -130,7 +130,10 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,7 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
-- 
2.43.0


From 19a6a9e6da1d0c435e00cd50c74b109f84c9ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 85/93] fix: python report is made of the current frames of its
 stacktrace

---
 python/py_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index e17f157..98f94c4 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -230,11 +230,17 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
+        if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
     }
     else
     {
+        if (frames_prepare_linked_list((struct sr_py_base_thread *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
     }
-- 
2.43.0


From 9317ef28b89f668f0dffac043f64bbb5a4100b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 86/93] fix: python report keeps JavaScript stacktraces

---
 python/py_report.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 98f94c4..6890a95 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -29,6 +29,7 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
+#include "py_js_stacktrace.h"
 
 #include "report.h"
 #include "operating_system.h"
@@ -302,6 +303,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -369,6 +374,10 @@ report_to_python_obj(struct sr_report *report)
             ro->stacktrace = ruby_stacktrace_to_python_obj(
                     (struct sr_ruby_stacktrace *)report->stacktrace);
             break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)report->stacktrace);
+            break;
         default:
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
-- 
2.43.0


From fc488179c7fe11008abe42692603e9583dc5b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 87/93] fix: python reporter name and version can be set

---
 python/py_report.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 6890a95..844688f 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -326,6 +326,10 @@ report_to_python_obj(struct sr_report *report)
 
     ro->report = report;
 
+    /* the names may be literals, the attributes own their strings */
+    report->reporter_name = g_strdup(report->reporter_name);
+    report->reporter_version = g_strdup(report->reporter_version);
+
     /* wrap operating system in a python object */
     if (report->operating_system)
     {
@@ -444,6 +448,10 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    /* these are not freed with the report */
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
+
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From edb97c4cf459c8673935fa12116aea097884c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 88/93] fix: python merge level position past the last merge

---
 python/py_cluster.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 8fb8cdb..8e31e56 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -159,7 +159,8 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    /* N objects are merged N - 1 times */
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
-- 
2.43.0


From dd53af50550c5df9b042615540882cb166de0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:56 +0000
Subject: [PATCH 89/93] fix: python errors while comparing threads and
 converting bools are raised

---
 python/py_base_thread.c | 8 ++++++--
 python/py_common.c      | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 8c9aa7b..a65a856 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -224,8 +224,12 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
-    if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
+    int cmp = sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
+                                    (struct sr_py_base_thread *)other);
+    if (PyErr_Occurred())
+        return NULL;
+
+    if (cmp == 0)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
diff --git a/python/py_common.c b/python/py_common.c
index 1db6104..5ff1b7c 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -149,7 +149,10 @@ sr_py_setter_bool(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    bool newvalue = PyObject_IsTrue(rhs);
+    int newvalue = PyObject_IsTrue(rhs);
+    if (newvalue < 0)
+        return -1;
+
     MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue;
 
     return 0;
-- 
2.43.0


From 94f6a98cf16c17850e3453acb5e0656e7e5180a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:07 +0000
Subject: [PATCH 90/93] fix: compare threads of single threaded stacktraces

---
 lib/generic_thread.c    | 21 +++++++++++++++++++++
 lib/generic_thread.h    |  3 +++
 lib/js_stacktrace.c     |  2 +-
 lib/koops_stacktrace.c  |  2 +-
 lib/python_stacktrace.c |  2 +-
 lib/ruby_stacktrace.c   |  2 +-
 6 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..11cb12a 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -46,6 +46,27 @@ thread_frame_count(struct sr_thread *thread)
     return count;
 }
 
+int
+thread_cmp(struct sr_thread *t1, struct sr_thread *t2)
+{
+    struct sr_frame *f1 = sr_thread_frames(t1), *f2 = sr_thread_frames(t2);
+
+    while (f1 && f2)
+    {
+        int frame_cmp = sr_frame_cmp(f1, f2);
+        if (frame_cmp != 0)
+            return frame_cmp;
+
+        f1 = sr_frame_next(f1);
+        f2 = sr_frame_next(f2);
+    }
+
+    if (f1)
+        return 1;
+
+    return f2 ? -1 : 0;
+}
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..42a74b9 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -77,6 +77,9 @@ extern struct thread_methods core_thread_methods, python_thread_methods,
 int
 thread_frame_count(struct sr_thread *thread);
 
+int
+thread_cmp(struct sr_thread *t1, struct sr_thread *t2);
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 208d11a..f6d7ff3 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -46,7 +46,7 @@ struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 0f87f75..0c0ade9 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -70,7 +70,7 @@ struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 1230030..9a2370b 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -45,7 +45,7 @@ struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 844656c..01659eb 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -44,7 +44,7 @@ struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From bd216ca304f7469a045c83711f4f4b2e8e7cf9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:47 +0000
Subject: [PATCH 91/93] fix: python str of objects without their list

---
 python/py_core_stacktrace.c   | 2 +-
 python/py_core_thread.c       | 2 +-
 python/py_gdb_stacktrace.c    | 2 +-
 python/py_gdb_thread.c        | 2 +-
 python/py_java_stacktrace.c   | 2 +-
 python/py_java_thread.c       | 2 +-
 python/py_js_stacktrace.c     | 2 +-
 python/py_koops_stacktrace.c  | 2 +-
 python/py_python_stacktrace.c | 2 +-
 python/py_ruby_stacktrace.c   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 4eada74..165e143 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -180,7 +180,7 @@ sr_py_core_stacktrace_str(PyObject *self)
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Core stacktrace with %zd threads",
-                           (ssize_t)(PyList_Size(this->threads)));
+                           (ssize_t)(this->threads && PyList_Check(this->threads) ? PyList_Size(this->threads) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_core_thread.c b/python/py_core_thread.c
index 1a73677..1442c4b 100644
--- a/python/py_core_thread.c
+++ b/python/py_core_thread.c
@@ -125,7 +125,7 @@ sr_py_core_thread_str(PyObject *self)
 {
     struct sr_py_core_thread *this = (struct sr_py_core_thread *)self;
     GString *buf = g_string_new(NULL);
-    g_string_append_printf(buf, "Thread with %zd frames", (ssize_t)(PyList_Size(this->frames)));
+    g_string_append_printf(buf, "Thread with %zd frames", (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
 
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 475aefa..4f7dfcb 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -369,7 +369,7 @@ sr_py_gdb_stacktrace_str(PyObject *self)
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Stacktrace with %zd threads",
-                           (ssize_t)(PyList_Size(this->threads)));
+                           (ssize_t)(this->threads && PyList_Check(this->threads) ? PyList_Size(this->threads) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6dc7d9b..f46778f 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -177,7 +177,7 @@ sr_py_gdb_thread_str(PyObject *self)
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Thread #%u with %zd frames",
                            this->thread->number,
-                           (ssize_t)(PyList_Size(this->frames)));
+                           (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_java_stacktrace.c b/python/py_java_stacktrace.c
index eb5db5d..ae4f48a 100644
--- a/python/py_java_stacktrace.c
+++ b/python/py_java_stacktrace.c
@@ -142,7 +142,7 @@ sr_py_java_stacktrace_str(PyObject *self)
     struct sr_py_java_stacktrace *this = (struct sr_py_java_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Java stacktrace with %zd threads",
-                           (ssize_t)(PyList_Size(this->threads)));
+                           (ssize_t)(this->threads && PyList_Check(this->threads) ? PyList_Size(this->threads) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 4807f92..1f24855 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -170,7 +170,7 @@ sr_py_java_thread_str(PyObject *self)
     if (this->thread->name)
         g_string_append_printf(buf, " %s", this->thread->name);
 
-    g_string_append_printf(buf, " with %zd frames", (ssize_t)(PyList_Size(this->frames)));
+    g_string_append_printf(buf, " with %zd frames", (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_js_stacktrace.c b/python/py_js_stacktrace.c
index 15f9ece..4a23462 100644
--- a/python/py_js_stacktrace.c
+++ b/python/py_js_stacktrace.c
@@ -177,7 +177,7 @@ sr_py_js_stacktrace_str(PyObject *self)
     struct sr_py_js_stacktrace *this = (struct sr_py_js_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "JavaScript stacktrace with %zd frames",
-                         (ssize_t)(PyList_Size(this->frames)));
+                         (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 5b1306e..e470d6e 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -221,7 +221,7 @@ sr_py_koops_stacktrace_str(PyObject *self)
     struct sr_py_koops_stacktrace *this = (struct sr_py_koops_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Kerneloops with %zd frames",
-                           (ssize_t)(PyList_Size(this->frames)));
+                           (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_python_stacktrace.c b/python/py_python_stacktrace.c
index fdad844..b748b7e 100644
--- a/python/py_python_stacktrace.c
+++ b/python/py_python_stacktrace.c
@@ -162,7 +162,7 @@ sr_py_python_stacktrace_str(PyObject *self)
     struct sr_py_python_stacktrace *this = (struct sr_py_python_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Python stacktrace with %zd frames",
-                           (ssize_t)(PyList_Size(this->frames)));
+                           (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
diff --git a/python/py_ruby_stacktrace.c b/python/py_ruby_stacktrace.c
index 56ee05f..4cf35d9 100644
--- a/python/py_ruby_stacktrace.c
+++ b/python/py_ruby_stacktrace.c
@@ -157,7 +157,7 @@ sr_py_ruby_stacktrace_str(PyObject *self)
     struct sr_py_ruby_stacktrace *this = (struct sr_py_ruby_stacktrace *)self;
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Ruby stacktrace with %zd frames",
-                         (ssize_t)(PyList_Size(this->frames)));
+                         (ssize_t)(this->frames && PyList_Check(this->frames) ? PyList_Size(this->frames) : 0));
     char *str = g_string_free(buf, FALSE);
     PyObject *result = Py_BuildValue("s", str);
     g_free(str);
-- 
2.43.0


From 4cc8cdc3a25c710ce9088c756de4f16feb7694fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:36 +0000
Subject: [PATCH 92/93] fix: python to_short_text without a crash thread raises
 an exception

---
 python/py_base_stacktrace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 9638b66..951f3a4 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -285,7 +285,10 @@ sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->thread, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -308,7 +311,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
-- 
2.43.0


From ea8b84a59134572703b4318a3588ad0f58fd630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:52 +0000
Subject: [PATCH 93/93] fix: python frame depth that is not positive raises an
 exception

---
 python/py_gdb_stacktrace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 4f7dfcb..f6d2bbb 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -471,6 +471,12 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Frame depth must be positive.");
+        return NULL;
+    }
+
     /* frees frames, which belong to their python objects - work on a copy */
     struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
     sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
-- 
2.43.0

