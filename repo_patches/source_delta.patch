From 7cb68b9a13ce210de53475aeb3283d0faffa4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 01/39] fix: deliver the unread tail of the randomness buffer,
 not its start, when a read crosses a refill

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 60bbddc46ecc3550c56fced2578af1e943461ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 02/39] fix: abort on a short read when refilling the
 randomness buffer in release builds too

---
 src/random/random.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..a4a5b5d 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,18 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
-    // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    // make sure we've read enough, also in release builds: continuing would
+    // reuse old (or uninitialised) data as if it was random.
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 98101c135fdcb17a25ed90c8360a86e04afaf8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 03/39] fix: reject chacha20 randomness descriptions whose
 fields do not fit instead of overflowing the stack

---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index a4a5b5d..e96116a 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -112,6 +112,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -144,6 +147,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From 4a6e8ce0f7a8d94df45634c140523be0adc7e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 04/39] fix: do not mistake non-ASCII codepoints for pattern
 syntax

---
 src/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..02ff7a6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From da1200d8af11b65320d581061d26d24274372141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 05/39] fix: count a segment that replaces a zero-multiplier
 segment in the group total

---
 src/parser/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 02ff7a6..51c987b 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -273,6 +273,8 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum +=
+                        state->data.group.segment->multiplier;
                 }
                 return 0;
             case ')':
-- 
2.43.0


From 96df5db26021c2c27987344bc2e07fdb66f16fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 06/39] fix: keep the group total right when a segment
 multiplier is given twice

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 51c987b..458913c 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -310,8 +310,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 24384bbc84fd98d61d70b678076f99052011cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 07/39] fix: treat escapes the same at the end of a set range
 as elsewhere in a set, accept documented \]

---
 src/parser/parser.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 458913c..6c6ddb6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -353,6 +353,24 @@ int passgen_parse_group(
     return 0;
 }
 
+// turn an escaped codepoint inside of a set into the codepoint it stands for.
+static int parse_set_escaped(uint32_t *codepoint) {
+    if(*codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        // no reason to expect an escaped token here unless it's a dash or a
+        // closing bracket.
+        switch(*codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
+            case '-':
+            case ']':
+                *codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+                break;
+            default:
+                return -1;
+        }
+    }
+
+    return 0;
+}
+
 int passgen_parse_set(
     passgen_parser *parser,
     passgen_token *token,
@@ -381,15 +399,8 @@ int passgen_parse_set(
     }
 
     uint32_t codepoint = token->codepoint;
-    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
-        switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
-            case '-':
-                codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-                break;
-            default:
-                return -1;
-        }
+    if(parse_set_escaped(&codepoint) != 0) {
+        return -1;
     }
 
     passgen_pattern_range *range = passgen_pattern_set_range_append(set);
@@ -411,11 +422,16 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(parse_set_escaped(&codepoint) != 0) {
+        return -1;
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From 37581a687f71259e44ce3d5c01b5a8cb448ad349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 08/39] fix: reject repeat ranges whose end is below their
 start and counts that overflow

---
 src/parser/parser.c | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 6c6ddb6..bb5081d 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -437,6 +437,18 @@ int passgen_parse_set_range(
     return 0;
 }
 
+// append a decimal digit to value, making sure that it stays within bounds.
+static int parse_digit(size_t *value, uint8_t digit) {
+    if(*value > (UINT32_MAX - digit) / 10) {
+        return -1;
+    }
+
+    *value *= 10;
+    *value += digit;
+
+    return 0;
+}
+
 int passgen_parse_multiplier(
     passgen_parser *parser,
     passgen_token *token,
@@ -448,12 +460,9 @@ int passgen_parse_multiplier(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return parse_digit(
+            state->data.multiplier.value,
+            token->codepoint - '0');
     }
 
     return -1;
@@ -477,12 +486,9 @@ int passgen_parse_repeat(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return parse_digit(
+            &state->data.repeat.repeat->min,
+            token->codepoint - '0');
     }
 
     return -1;
@@ -493,17 +499,19 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // error: empty range
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return parse_digit(
+            &state->data.repeat.repeat->max,
+            token->codepoint - '0');
     }
 
     return -1;
-- 
2.43.0


From f6bab75cd841dd1f51d80c1923644c30f5cec202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 09/39] fix: account for the choice made by ? in the entropy

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..606d2e3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From 3a87a37e2dc45bc385d2335d3a8f1e5348964c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 10/39] fix: do not overflow the stack when a markov chain
 generates a long word

---
 src/generate.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 606d2e3..f434d15 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -370,26 +370,31 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
-    double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+
+    // sliding window of the last codepoints. the markov chain level is limited
+    // to what fits into an uint8_t.
+    uint32_t window[UINT8_MAX];
+    size_t level = markov->level;
+    passgen_assert(level <= UINT8_MAX);
+    memset(window, 0, sizeof(window));
+
+    while(true) {
+        uint32_t codepoint = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            window,
             context->env->random,
-            entropy);
-        pos++;
-    } while(word[pos - 1]);
+            context->entropy);
 
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
-    }
+        // end of word
+        if(!codepoint) {
+            return 0;
+        }
 
-    return 0;
+        try(emit(context, codepoint));
+
+        memmove(window, &window[1], (level - 1) * sizeof(window[0]));
+        window[level - 1] = codepoint;
+    }
 }
 
 static int passgen_generate_special_wordlist(
-- 
2.43.0


From 9ee162470311e852a33dad313723d070dc1d5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 11/39] fix: reject markov chain lengths that do not fit
 instead of truncating them

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..6c9ae93 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -341,7 +341,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From 9a2d20c7230b70ff2a80ba7aed5df07f25f752ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 12/39] fix: escape all control characters in JSON output

---
 src/generate.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index f434d15..54c4a34 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -17,6 +17,7 @@
 #include "passgen/wordlist.h"
 #include "try.h"
 
+#include <stdio.h>
 #include <string.h>
 
 typedef struct {
@@ -156,7 +157,7 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
+    unsigned char buffer[8] = {'\\', 0};
     size_t bytes = 2;
     switch(codepoint) {
         case '"':
@@ -181,9 +182,18 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+            if(codepoint < 0x20) {
+                // control characters without a short escape
+                bytes = snprintf(
+                    (char *) &buffer[0],
+                    sizeof(buffer),
+                    "\\u%04x",
+                    (unsigned int) codepoint);
+            } else {
+                bytes = passgen_utf8_encode_codepoint(
+                    (uint8_t *) &buffer[0],
+                    codepoint);
+            }
     }
 
     // check that no error happened.
-- 
2.43.0


From c5378e81a0c825ec426bac483ff422bc32fc50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 13/39] fix: never encode surrogates as UTF-8, reject names
 that cannot be encoded

---
 include/passgen/pattern/special.h | 2 +-
 src/parser/parser.c               | 2 +-
 src/pattern/special.c             | 9 +++++++--
 src/util/utf8.c                   | 5 +++++
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/passgen/pattern/special.h b/include/passgen/pattern/special.h
index 3141757..1887941 100644
--- a/include/passgen/pattern/special.h
+++ b/include/passgen/pattern/special.h
@@ -60,6 +60,6 @@ void passgen_pattern_special_free(passgen_pattern_special *special);
 /// @memberof passgen_pattern_special
 /// @param special Special pattern to add codepoint to
 /// @param codepoint Codepoint to add to the pattern
-void passgen_pattern_special_push(
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint);
diff --git a/src/parser/parser.c b/src/parser/parser.c
index bb5081d..a582fc0 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -540,7 +540,7 @@ int passgen_parse_special_name(
     if(token->codepoint == '}') {
         passgen_stack_pop(&parser->state, NULL);
     } else {
-        passgen_pattern_special_push(
+        return passgen_pattern_special_push(
             state->data.special.special,
             token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT);
     }
diff --git a/src/pattern/special.c b/src/pattern/special.c
index 644165f..fb8e315 100644
--- a/src/pattern/special.c
+++ b/src/pattern/special.c
@@ -37,7 +37,7 @@ void passgen_pattern_special_free(passgen_pattern_special *special) {
     PASSGEN_CLEAR(special);
 }
 
-void passgen_pattern_special_push(
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint) {
     if(special->parameters_cap == 0) {
@@ -57,11 +57,16 @@ void passgen_pattern_special_push(
         (uint8_t *) &special->parameters[special->parameters_len],
         codepoint);
 
-    passgen_assert(bytes > 0);
+    if(bytes < 0) {
+        return -1;
+    }
+
     special->parameters_len += bytes;
 
     assert(special->parameters_len < special->parameters_cap);
 
     // always NULL-terminate the string.
     special->parameters[special->parameters_len] = 0;
+
+    return 0;
 }
diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..d6999dd 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -108,6 +108,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(utf >= 0xD800 && utf <= 0xDFFF) {
+        // surrogates cannot be encoded
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From 6f892490636c7f52570a05ac7369ea91aadfd42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 14/39] fix: reject incomplete UTF-8 sequences at the end of
 input, report where decoding stopped

---
 src/util/utf8.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index d6999dd..40f53fc 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -55,6 +55,8 @@ int passgen_utf8_decode(
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
         if(status == UTF8_REJECT) {
+            *output += output_offset;
+            *input += input_offset - codepoint_width;
             return PASSGEN_UTF8_INVALID_CHAR;
         }
 
@@ -76,7 +78,12 @@ int passgen_utf8_decode(
     }
 
     *output += output_offset;
-    *input += input_offset;
+    *input += input_offset - codepoint_width;
+
+    // incomplete sequence at the end of the input
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
 
     if(input_offset != input_len) {
         return PASSGEN_UTF8_OUTPUT_SIZE;
-- 
2.43.0


From 466089ebd680398914535508d397d4388d27c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 15/39] fix: do not write past the end of UTF-8 encode buffers
 smaller than four bytes

---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 40f53fc..4a055ec 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -148,7 +148,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && ((*out_pos + 4) < out_len)) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From 9be954f18ced0a212098cad1aa500f1d1c94cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 16/39] fix: replace existing hashmap entries in their second
 position instead of duplicating them

---
 src/container/hashmap.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..bad89f2 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -127,6 +127,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
     size_t hash;
 
+    // replace existing entry, which may be in either of its two positions.
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     hash = passgen_hashmap_position(map, key, true);
     if(!map->data[hash].key) {
         map->data[hash].key = key;
@@ -134,12 +143,7 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
     } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
+        if(passgen_hashmap_move(map, hash)) {
             map->data[hash].key = key;
             map->data[hash].value = value;
             map->len += 1;
@@ -154,12 +158,7 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
     } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
+        if(passgen_hashmap_move(map, hash)) {
             map->data[hash].key = key;
             map->data[hash].value = value;
             map->len += 1;
-- 
2.43.0


From 8d158a55c384bda1cdab6a93c6723a3d929608bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 17/39] fix: do not divide by zero when removing from an empty
 hashmap

---
 src/container/hashmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index bad89f2..da0edf0 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -172,6 +172,10 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From 5b603d45de5bf2d6d97cb08ccb034aacaf2767a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 18/39] fix: report tokenizer errors when parsing decoded
 patterns

---
 src/parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a582fc0..32f855b 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -577,6 +577,10 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        if(ret < PASSGEN_TOKEN_INIT) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
-- 
2.43.0


From 8ed7585201c385722af4c3a99ed7dd4d4106e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 19/39] fix: reject unicode literals beyond the last codepoint

---
 src/parser/token.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..676f064 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -114,6 +114,13 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
+        // not a valid codepoint
+        if(parser->data.unicode_payload.codepoint > 0x10FFFF) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD;
+
+            return;
+        }
+
         token->codepoint = parser->data.unicode_payload.codepoint;
         parser->state = PASSGEN_TOKEN_INIT;
 
-- 
2.43.0


From aad5498293a54223522e2b20195d93e2fa4ae70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 20/39] fix: fail generation instead of crashing on unnamed,
 unreadable or empty wordlists

---
 src/generate.c | 16 ++++++++++++++--
 src/wordlist.c | 16 ++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 54c4a34..ecbce3d 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -367,6 +367,9 @@ static int passgen_generate_literal(
 static int passgen_generate_special_markov(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    if(!special->parameters) {
+        return -1;
+    }
     passgen_hashmap_entry *entry =
         passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
     if(!entry) {
@@ -374,7 +377,10 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
+    }
+    if(!passgen_wordlist_count(wordlist)) {
+        return -1;
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
@@ -410,6 +416,9 @@ static int passgen_generate_special_markov(
 static int passgen_generate_special_wordlist(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    if(!special->parameters) {
+        return -1;
+    }
     passgen_hashmap_entry *entry =
         passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
     if(!entry) {
@@ -417,7 +426,10 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
+    }
+    if(!passgen_wordlist_count(wordlist)) {
+        return -1;
     }
 
     // pick word at random
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..c26a85d 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -13,6 +13,7 @@ void passgen_wordlist_init(
     passgen_wordlist *wordlist,
     FILE *file,
     size_t markov_length) {
+    memset(wordlist, 0, sizeof(*wordlist));
     wordlist->parsed = false;
     wordlist->parsed_markov = false;
     wordlist->file = file;
@@ -71,13 +72,20 @@ void passgen_wordlist_load(
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
-    fseek(file, 0, SEEK_SET);
+    if(0 != fseek(file, 0, SEEK_END)) {
+        return 1;
+    }
+    long size = ftell(file);
+    if(size < 0 || 0 != fseek(file, 0, SEEK_SET)) {
+        return 1;
+    }
+    wordlist->size = size;
 
     // allocate buffer to hold entire file and read in (plus zero termination)
     wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
+    if(!wordlist->data) {
+        return 1;
+    }
 
     // read in entire wordlist
     size_t read = fread(wordlist->data, 1, wordlist->size, file);
-- 
2.43.0


From 122f02b5fd6cd793642884461b502ca24ccc7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 21/39] fix: generate words from wordlists that are longer than
 128 codepoints

---
 src/generate.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index ecbce3d..39736c8 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -433,18 +433,28 @@ static int passgen_generate_special_wordlist(
     }
 
     // pick word at random
-    const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
+    const uint8_t *word = (const uint8_t *)
+        passgen_wordlist_random(wordlist, context->env->random);
 
-    // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
+    // UTF8-decode word and write codepoints, in chunks
+    const uint8_t *word_end = word + strlen((const char *) word);
     uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
-    }
+    int ret;
+    do {
+        uint32_t *codepoints_pos = &codepoints[0];
+        ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word,
+            word_end - word);
+        if(ret < PASSGEN_UTF8_SUCCESS) {
+            return ret;
+        }
+        for(size_t i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
+    } while(ret != PASSGEN_UTF8_SUCCESS);
 
     if(context->entropy) {
         *context->entropy *= passgen_wordlist_count(wordlist);
-- 
2.43.0


From 684e8496ee81202becc98511ac1cf8e33af03247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:55 +0000
Subject: [PATCH 22/39] fix: fail generation instead of crashing when a markov
 chain is built from invalid or long words

---
 include/passgen/wordlist.h |  2 +-
 src/generate.c             |  2 +-
 src/wordlist.c             | 27 +++++++++++++++++++++------
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..263b036 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -54,7 +54,7 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist);
 /// Generate markov chain from wordlist.
 ///
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
diff --git a/src/generate.c b/src/generate.c
index 39736c8..57eaf13 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -383,7 +383,7 @@ static int passgen_generate_special_markov(
         return -1;
     }
     if(!wordlist->parsed_markov) {
-        passgen_wordlist_parse_markov(wordlist);
+        try(passgen_wordlist_parse_markov(wordlist));
     }
     passgen_markov *markov = &wordlist->markov;
 
diff --git a/src/wordlist.c b/src/wordlist.c
index c26a85d..568f27d 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -30,12 +30,17 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
-    wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
+    // no word can have more codepoints than the wordlist has bytes
+    size_t unicode_buffer_len = wordlist->size;
+    uint32_t *unicode_buffer =
+        malloc((unicode_buffer_len + 1) * sizeof(uint32_t));
+    if(!unicode_buffer) {
+        return 1;
+    }
+
     for(size_t i = 0; i < wordlist->count; i++) {
         uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
@@ -49,8 +54,14 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             &word,
             word_length);
 
-        // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        // make sure the conversion worked, start over if it did not
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            uint8_t level = wordlist->markov.level;
+            passgen_markov_free(&wordlist->markov);
+            passgen_markov_init(&wordlist->markov, level);
+            free(unicode_buffer);
+            return 1;
+        }
 
         // add word to markov chain
         passgen_markov_add(
@@ -59,6 +70,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer_pos - &unicode_buffer[0],
             1);
     }
+
+    wordlist->parsed_markov = true;
+    free(unicode_buffer);
+    return 0;
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From 45ca6a76712c8a2b09c7389c6d8853eda06594c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 23/39] fix: leave room for the terminator when reading a
 configuration file

---
 src/cli/passgen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 6c9ae93..68e6eb0 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -522,7 +522,10 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
+    char *config = malloc(10240 + 1);
+    if(!config) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
     size_t read = fread(config, 1, 10240, file);
     config[read] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
-- 
2.43.0


From 6363e91d4d6b9edf572ff48e8da15d20e9258f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 24/39] fix: parse the configuration file line by line, with
 the documented syntax and within bounds

---
 src/cli/passgen.c | 80 ++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 68e6eb0..c4f848a 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -533,48 +533,50 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     return ret;
 }
 
+/// If the line starts with the keyword, return the value following it.
+static char *passgen_cli_config_value(const char *keyword, char *line) {
+    size_t length = strlen(keyword);
+    line += strspn(line, " \t");
+    if(0 != strncmp(keyword, line, length)) {
+        return NULL;
+    }
+    line += length;
+    size_t space = strspn(line, " \t");
+    return space ? line + space : NULL;
+}
+
+/// The name of a wordlist or preset is separated from what it stands for with
+/// whitespace or with a colon. Turn the former into the latter.
+static void passgen_cli_config_name(char *value) {
+    char *end = strpbrk(value, ": \t");
+    if(end && *end != ':') {
+        size_t space = strspn(end, " \t");
+        *end = ':';
+        memmove(end + 1, end + space, strlen(end + space) + 1);
+    }
+}
+
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
-    // TODO: this code is a mess.
-    for(size_t pos = 0; data[pos]; pos++) {
-        if(data[pos] == '#') {
-            // skip this line, it's a comment
-            while(data[pos] && data[pos] != '\n') pos++;
-            continue;
+    // handle the configuration line by line
+    for(char *line = data; line;) {
+        char *next = strchr(line, '\n');
+        if(next) {
+            *next = 0;
+            next += 1;
         }
-        if(data[pos] == '\n') {
-            // skip this newline
-            continue;
-        }
-        if(0 == strprefix("random", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_random(opts, &data[pos]);
-            pos += length;
-            continue;
-        }
-        if(0 == strprefix("wordlist", &data[pos])) {
-            pos += 8;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
-            pos += length;
-            continue;
-        }
-        if(0 == strprefix("preset", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
-            pos += length;
-            continue;
+
+        char *value;
+        if((value = passgen_cli_config_value("random", line))) {
+            passgen_cli_opts_random(opts, value);
+        } else if((value = passgen_cli_config_value("wordlist", line))) {
+            passgen_cli_config_name(value);
+            passgen_cli_opts_wordlist(opts, value);
+        } else if((value = passgen_cli_config_value("preset", line))) {
+            passgen_cli_config_name(value);
+            passgen_cli_opts_preset(opts, value);
         }
+
+        line = next;
     }
     return 0;
 }
-- 
2.43.0


From 50cebee7092827e177313c516fbdcc52d2e9fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 25/39] fix: do not overflow the stack when the home directory
 has a long path

---
 src/cli/passgen.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index c4f848a..0d5d047 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -599,17 +599,30 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
+    char config_path[4096];
+    int length;
     const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
     if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
+        length = snprintf(
+            config_path,
+            sizeof(config_path),
+            "%s/passgen.conf",
+            xdg_config_path);
     } else {
         const char *home = getenv("HOME");
         if(!home) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
+        length = snprintf(
+            config_path,
+            sizeof(config_path),
+            "%s/.config/passgen.conf",
+            home);
+    }
+    if(length < 0 || (size_t) length >= sizeof(config_path)) {
+        fprintf(stderr, "warning: path of configuration file too long\n");
+        return 0;
     }
     FILE *file = fopen(config_path, "r");
     if(file) {
-- 
2.43.0


From 4735600dae7e1ce66ef98adbe0e418a2fed2ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 26/39] fix: report when a sequence could not be generated
 instead of printing an empty one

---
 include/passgen/generate.h |  8 +++++---
 man/passgen.1.in           |  3 +++
 src/cli/passgen.c          | 17 +++++++++++++++--
 src/cli/passgen.h          |  1 +
 src/generate.c             | 12 ++++++++++++
 5 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/passgen/generate.h b/include/passgen/generate.h
index 831fefb..4b1bd39 100644
--- a/include/passgen/generate.h
+++ b/include/passgen/generate.h
@@ -27,7 +27,8 @@ typedef int passgen_generate_cb(void *data, uint32_t codepoint);
 
 /// Generate a password from a pattern, filling the unicode codepoints into the
 /// provided buffer. Will not NULL-terminate anything, returns number of
-/// codepoints written.
+/// codepoints written. When it fails, returns zero and sets @p entropy (if not
+/// NULL) to zero, which it otherwise never is.
 size_t passgen_generate_fill_unicode(
     const passgen_pattern *pattern,
     passgen_env *env,
@@ -37,7 +38,7 @@ size_t passgen_generate_fill_unicode(
 
 /// Generate a password from a patter, filling the result UTF-8 encoded into
 /// the provided buffer. Will not NULL-terminate the buffer, returns the number
-/// of bytes written.
+/// of bytes written, or zero on failure like @ref passgen_generate_fill_unicode.
 size_t passgen_generate_fill_utf8(
     const passgen_pattern *pattern,
     passgen_env *env,
@@ -47,7 +48,8 @@ size_t passgen_generate_fill_utf8(
 
 /// Generate a password from a patter, filling the result UTF-8 encoded and
 /// JSON-escaped into the provided buffer. Will not NULL-terminate the buffer,
-/// returns the number of bytes written.
+/// returns the number of bytes written, or zero on failure like @ref
+/// passgen_generate_fill_unicode.
 size_t passgen_generate_fill_json_utf8(
     const passgen_pattern *pattern,
     passgen_env *env,
diff --git a/man/passgen.1.in b/man/passgen.1.in
index cfa48e2..b2c2bbd 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -251,6 +251,9 @@ Unrecognized argument flag. Make sure that you are not using an incorrect flag.
 Preset not found. Make sure that the preset you have specified exists. When it doubt, use the
 .Fl -list
 command to see the full list of all presets that the tool knows about.
+.It Ar 9
+The sequence could not be generated, for example because the pattern references
+a wordlist that has not been loaded or because the sequence is too long.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 0d5d047..2ed9e66 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -83,9 +83,13 @@ int passgen_cli_generate_normal(
         size_t written = passgen_generate_fill_utf8(
             pattern,
             &opts.env,
-            opts.entropy ? &entropy : NULL,
+            &entropy,
             pass,
             pass_len);
+        if(entropy < 1.0) {
+            free(pass);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
         pass[written] = '\0';
 
         if(opts.entropy) {
@@ -121,9 +125,13 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
         size_t written = passgen_generate_fill_json_utf8(
             pattern,
             &opts.env,
-            opts.entropy ? &entropy : NULL,
+            &entropy,
             pass,
             pass_len);
+        if(entropy < 1.0) {
+            free(pass);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
         pass[written] = '\0';
         printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
 
@@ -507,6 +515,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: sequence could not be generated\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..be0e67a 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -26,6 +26,7 @@ typedef enum {
     PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
+    PASSGEN_ERROR_GENERATE,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
diff --git a/src/generate.c b/src/generate.c
index 57eaf13..14997e5 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -232,6 +232,10 @@ size_t passgen_generate_fill_unicode(
         passgen_generate_write_buffer);
 
     if(ret != 0) {
+        // a sequence that was not generated has no entropy
+        if(entropy) {
+            *entropy = 0.0;
+        }
         return 0;
     }
 
@@ -258,6 +262,10 @@ size_t passgen_generate_fill_utf8(
         passgen_generate_write_buffer_utf8);
 
     if(ret != 0) {
+        // a sequence that was not generated has no entropy
+        if(entropy) {
+            *entropy = 0.0;
+        }
         return 0;
     }
 
@@ -284,6 +292,10 @@ size_t passgen_generate_fill_json_utf8(
         passgen_generate_write_buffer_json_utf8);
 
     if(ret != 0) {
+        // a sequence that was not generated has no entropy
+        if(entropy) {
+            *entropy = 0.0;
+        }
         return 0;
     }
 
-- 
2.43.0


From 1b753db7c683c70be10345d45f321ed672ad31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 27/39] fix: do not truncate printed sequences at NUL
 characters

---
 src/cli/passgen.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 2ed9e66..611f3be 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -90,17 +90,15 @@ int passgen_cli_generate_normal(
             free(pass);
             return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
         }
-        pass[written] = '\0';
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            putchar(sep);
         }
+        fwrite(pass, 1, written, stdout);
     }
 
     printf("\n");
-- 
2.43.0


From 1126ec8b9ee5811e88841a4798f7fca7ba1daf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 28/39] fix: make the --depth option limit the depth

---
 src/cli/passgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 611f3be..b60e8cb 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -330,6 +330,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'D':
                 opt = atoi(optarg);
                 opts->depth = opt;
+                opts->env.depth_limit = opt;
                 break;
             case 'z':
                 opts->null = true;
-- 
2.43.0


From 98a5c514da09a9d738f6ad388021bc4e8ff2532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 29/39] fix: apply modifiers to the empty group they follow
 instead of the item before it

---
 src/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 32f855b..285d83a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,11 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // remove the last item if it is an empty group, unless there is a modifier
+    // which applies to it.
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From ee1912ce1f2bce01fd55ec4ae202e160190ab938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 30/39] fix: clear the xorshift state when the source is closed

---
 src/random/xorshift.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..5c8980f 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From 59afcc5add4938eaa2165d3b8b7de49b4e365bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 31/39] fix: refuse xorshift seeds that are not numbers or do
 not fit instead of misreading them

---
 src/random/random.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index e96116a..1d59df9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -2,6 +2,7 @@
 #include "passgen/assert.h"
 #include "passgen/config.h"
 #include "passgen/util/endian.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -90,8 +91,11 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             return NULL;
         }
 
-        uint64_t seed = atoll(seed_str);
-        if(seed == 0) {
+        // the seed must be a nonzero number that fits, with nothing after it
+        char *seed_end = NULL;
+        errno = 0;
+        uint64_t seed = strtoull(seed_str, &seed_end, 10);
+        if(seed == 0 || errno != 0 || *seed_end != 0) {
             return NULL;
         }
 
-- 
2.43.0


From ddbefb2369039700a1b8c099d8418b4b9d943e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 32/39] fix: refuse chacha20 initialization vectors that do not
 fit instead of truncating them

---
 src/random/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 1d59df9..e9555bd 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -126,7 +126,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         if(*key_end == ':') {
             const char *iv_ptr = key_end + 1;
             size_t iv_len = strlen(iv_ptr);
-            iv_len = iv_len > 8 ? 8 : iv_len;
+            if(iv_len > 8) {
+                return NULL;
+            }
             memset(iv, 0, 8);
             memcpy(iv, iv_ptr, iv_len);
         }
-- 
2.43.0


From 4d1a475d23aecfc480a25d193f15f3d96fb92a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 33/39] fix: read empty fields of chacha20-argon2 descriptions
 as empty, refuse extra fields

---
 src/random/random.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index e9555bd..2ca740b 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -143,13 +143,11 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         char token[128] = {0};
 
         const char *start = &desc[16];
-        const char *end = &desc[16];
 
+// each field ends at the next colon, and may be empty
 #define PARSE_STRING(name) \
-        if(*end == ':') end++; \
-        if(*end) { \
-            start = end; \
-            end = strchr(start, ':'); \
+        { \
+            const char *end = strchr(start, ':'); \
             if(!end) { \
                 end = start + strlen(start); \
             } \
@@ -157,12 +155,18 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
                 return NULL; \
             } \
             memcpy(name, start, end - start); \
+            start = *end ? end + 1 : end; \
         }
 
         PARSE_STRING(master_pass)
         PARSE_STRING(domain)
         PARSE_STRING(token)
 
+        // nothing may follow the last field
+        if(*start) {
+            return NULL;
+        }
+
         return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
     }
 #endif
-- 
2.43.0


From c55b961ae65970ce20996ce28756130c1435454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 34/39] fix: read configuration files to their end instead of
 cutting them off at 10 KiB

---
 src/cli/passgen.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index b60e8cb..aa395d4 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -533,13 +533,28 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
-    // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240 + 1);
+    // read the whole file, growing the buffer as needed.
+    size_t capacity = 10240, length = 0;
+    char *config = malloc(capacity + 1);
+    while(config) {
+        size_t space = capacity - length;
+        size_t read = fread(config + length, 1, space, file);
+        length += read;
+        if(read < space) {
+            break;
+        }
+
+        capacity *= 2;
+        char *grown = realloc(config, capacity + 1);
+        if(!grown) {
+            free(config);
+        }
+        config = grown;
+    }
     if(!config) {
         return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
     }
-    size_t read = fread(config, 1, 10240, file);
-    config[read] = 0;
+    config[length] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
     return ret;
-- 
2.43.0


From 1e1335d69c4255d03c3f01ea8dd24e761ec379ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 35/39] fix: refuse amounts and markov lengths that are not
 numbers or do not fit

---
 src/cli/passgen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index aa395d4..b7fb9bb 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -1,7 +1,9 @@
 #include "passgen.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdio.h>
@@ -275,6 +277,18 @@ void passgen_cli_presets_list(const passgen_cli_opts *opts) {
         passgen_cli_preset_show);
 }
 
+/// Parse a number, which must be nothing but a number. Returns zero if it is not
+/// one, or if it does not fit.
+static int passgen_cli_number(const char *arg) {
+    char *end = NULL;
+    errno = 0;
+    long number = strtol(arg, &end, 10);
+    if(errno != 0 || *end != 0 || number < INT_MIN || number > INT_MAX) {
+        return 0;
+    }
+    return number;
+}
+
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
@@ -309,7 +323,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'h':
                 return PASSGEN_SHOW_HELP;
             case 'a':
-                opt = atoi(optarg);
+                opt = passgen_cli_number(optarg);
                 if(opt < 1) {
                     return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_AMOUNT, &opt);
                 }
@@ -347,7 +361,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
             case 'M':
-                opt = atoi(optarg);
+                opt = passgen_cli_number(optarg);
                 if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
-- 
2.43.0


From 49ec52b19aee7d148a4d6362ef0e53759c452e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 36/39] fix: refuse xorshift seeds with a sign or leading space
 instead of misreading them

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 2ca740b..fa0376c 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -87,7 +87,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
     // check if we should use the xorshift PRNG with the given seed
     if(_strprefix("xorshift:", desc)) {
         const char *seed_str = &desc[9];
-        if(*seed_str == 0) {
+        if(*seed_str < '0' || *seed_str > '9') {
             return NULL;
         }
 
-- 
2.43.0


From 93efe73e34b16fd0529f1ab6cd0d014fa7bc7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 37/39] fix: let stdio check for terminals under the system
 call filter

Output to a character device such as /dev/null and randomness or wordlists
read from one (file:/dev/urandom) made stdio issue the ioctl TCGETS, which
ended the program.
---
 src/cli/passgen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index b7fb9bb..127f866 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -787,6 +787,15 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // allow checking if a file is a terminal (stdio does this for character
+    // devices, such as /dev/null or /dev/urandom)
+    seccomp_rule_add(
+        ctx,
+        SCMP_ACT_ALLOW,
+        SCMP_SYS(ioctl),
+        1,
+        SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From 3b982fe695cea55cb5ec06d7cf78a14b6b05378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 38/39] fix: release a wordlist when another takes its name

The entry that passgen_hashmap_insert returned was dropped, and with it the
memory of the wordlist and its open file: an environment in which names are
defined over and over ran out of files.
---
 src/env.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 756ab4f..73ad5f4 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,7 +38,11 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
     passgen_wordlist_init(wordlist, file, markov_length);
 
     return 0;
-- 
2.43.0


From f6bcbf68c7719aad5ee8a16b9a1a343cd50e69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 39/39] fix: release deeply nested patterns without running out
 of stack

---
 src/pattern/group.c | 56 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/pattern/group.c b/src/pattern/group.c
index fb1df75..ba14a34 100644
--- a/src/pattern/group.c
+++ b/src/pattern/group.c
@@ -1,13 +1,24 @@
 #include "passgen/pattern/group.h"
 #include "passgen/config.h"
 #include "passgen/pattern/segment.h"
+#include "passgen/pattern/segment_item.h"
 
 void passgen_pattern_group_init(passgen_pattern_group *group) {
     passgen_stack_init(&group->segments, sizeof(passgen_pattern_segment));
     group->multiplier_sum = 0;
 }
 
-void passgen_pattern_group_free(passgen_pattern_group *group) {
+// A group of which everything nested in it up to the given position has already
+// been released.
+typedef struct {
+    passgen_pattern_group *group;
+    size_t segment;
+    size_t item;
+} passgen_pattern_group_pos;
+
+// Release the segments of a group. Groups that are nested in it must have been
+// released before, as this calls itself for these.
+static void passgen_pattern_group_release(passgen_pattern_group *group) {
     for(size_t i = 0; i < group->segments.len; i++) {
         passgen_pattern_segment *segment =
             passgen_stack_get(&group->segments, i);
@@ -16,6 +27,49 @@ void passgen_pattern_group_free(passgen_pattern_group *group) {
     }
 
     passgen_stack_free(&group->segments);
+}
+
+void passgen_pattern_group_free(passgen_pattern_group *group) {
+    // groups can be nested deeper than there is space on the call stack, so the
+    // ones which still need to be released are kept track of here.
+    passgen_stack open;
+    passgen_stack_init(&open, sizeof(passgen_pattern_group_pos));
+
+    if(group->segments.len) {
+        passgen_pattern_group_pos pos = {group, 0, 0};
+        passgen_stack_push(&open, &pos);
+    }
+
+    while(open.len) {
+        passgen_pattern_group_pos *top = passgen_stack_top(&open);
+        passgen_pattern_segment *segment =
+            passgen_stack_get(&top->group->segments, top->segment);
+
+        // everything nested in this group is released
+        if(!segment) {
+            passgen_pattern_group_release(top->group);
+            passgen_pattern_group_init(top->group);
+            passgen_stack_pop(&open, NULL);
+            continue;
+        }
+
+        passgen_pattern_item *item =
+            passgen_stack_get(&segment->items, top->item);
+        if(!item) {
+            top->segment += 1;
+            top->item = 0;
+            continue;
+        }
+
+        top->item += 1;
+        if(item->kind == PASSGEN_PATTERN_GROUP &&
+           item->data.group.segments.len) {
+            passgen_pattern_group_pos pos = {&item->data.group, 0, 0};
+            passgen_stack_push(&open, &pos);
+        }
+    }
+
+    passgen_stack_free(&open);
 
     PASSGEN_CLEAR(group);
 }
-- 
2.43.0

