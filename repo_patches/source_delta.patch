From 6388ce91f98d6886b452457f7601a95d99dedb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 01/32] fix: keep tab positions right when an indentation has
 several tabs (-t Nk)

---
 src/tools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..66d4d56 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -365,6 +365,7 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
     size_t i;
     uint32_t *result;
     size_t result_len;
+    size_t removed = 0;      /* no of spcs already replaced by preceding tabs */
 
     if (opt.tabexp != 'k') {
         return indentspc;
@@ -391,7 +392,8 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        set_char_at(result, tpos - removed, char_tab);
+        removed += nspc - 1;
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From 2536624f21f3d75206894f505af3692249b4e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 02/32] fix: mend the box with the detected design's own size,
 indentation mode and padding

When mending, the first design's minimum size (and -s, -i) was applied to the
design that was autodetected, which produced wrong or endless boxes. Also, the
padding that was reduced to fit a requested size while removing the box was
missing from the box drawn again.
---
 src/boxes.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..ca84657 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -308,6 +308,9 @@ static void adjust_size_and_padding()
             opt.design->padding[i] = opt.padding[i];
         }
     }
+    if (opt.r) {
+        return;    /* the input is a box, so it says nothing on the space required for text and padding */
+    }
 
     size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
     if (pad > 0) {
@@ -503,8 +506,10 @@ void enable_ansi_mode() {
 int main(int argc, char *argv[])
 {
     int rc;                           /* general return code */
-    int saved_designwidth;            /* opt.design->minwith backup, used for mending */
-    int saved_designheight;           /* opt.design->minheight backup, used for mending */
+    design_t *saved_design = NULL;    /* the design to which the backups below apply */
+    int saved_designwidth = 0;        /* opt.design->minwith backup, used for mending */
+    int saved_designheight = 0;       /* opt.design->minheight backup, used for mending */
+    int saved_padding[NUM_SIDES] = {0}; /* opt.design->padding backup, used for mending */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -533,20 +538,24 @@ int main(int argc, char *argv[])
         exit(rc);
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
-    saved_designwidth = opt.design->minwidth;
-    saved_designheight = opt.design->minheight;
-
     do {
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
         --opt.mend;           /* opt.mend == 1: add it back         */
+        if (opt.design != saved_design) {   /* first pass, or the first pass autodetected another design */
+            saved_design = opt.design;
+            apply_expected_size();
+            if (opt.indentmode) {
+                opt.design->indentmode = opt.indentmode;
+            }
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+            memcpy(saved_padding, opt.design->padding, sizeof(saved_padding));
+        }
         opt.design->minwidth = saved_designwidth;
         opt.design->minheight = saved_designheight;
+        memcpy(opt.design->padding, saved_padding, sizeof(saved_padding));
 
         handle_input();
 
-- 
2.43.0


From f584c976987f852866f1ec6d6b8efc170ccddb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 03/32] fix: exit with an error instead of crashing on control
 characters in the input

---
 src/input.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input.c b/src/input.c
index 1442d6e..88f7806 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -254,6 +257,11 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(mbtemp);
+                BFREE(result->lines);
+                return NULL;   /* illegal character, error was already printed */
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From baddcadb8d1b0c1256d0fc764a47723d6a482dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 04/32] fix: report read errors of the input file, not those of
 stdin

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 88f7806..ef1f932 100644
--- a/src/input.c
+++ b/src/input.c
@@ -271,7 +271,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From c1cb3b7bbdc11a392bf888fca893603cb6628571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 05/32] fix: exit with an error when the output could not be
 written

---
 src/boxes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index ca84657..898dc47 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -569,6 +569,10 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
+    if (fflush(opt.outfile) != 0 || ferror(opt.outfile)) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 1fad4e73367a5bbb43997636e1e2c1319bc09956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 06/32] fix: do not lose text when lines are indented by
 double-wide spaces

---
 src/bxstring.c | 25 +++++++++++++++++++++++++
 src/bxstring.h | 11 +++++++++++
 src/generate.c |  2 +-
 src/input.c    |  6 +-----
 src/remove.c   |  2 +-
 5 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..9dd5f3d 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -378,6 +378,31 @@ bxstr_t *bxs_cut_front(bxstr_t *pString, size_t n)
 
 
 
+bxstr_t *bxs_cut_indent(bxstr_t *pString, size_t columns)
+{
+    if (pString == NULL) {
+        return NULL;
+    }
+
+    size_t num_chars = 0;
+    size_t found = 0;     /* number of columns covered by the first `num_chars` characters */
+    while (found < columns && num_chars < pString->num_chars_visible) {
+        int cols = uc_width(pString->memory[pString->visible_char[num_chars]], encoding);
+        found += BMAX(0, cols);
+        ++num_chars;
+    }
+
+    bxstr_t *result = bxs_cut_front(pString, num_chars);
+    if (found > columns) {
+        bxstr_t *padded = bxs_prepend_spaces(result, found - columns);
+        bxs_free(result);
+        result = padded;
+    }
+    return result;
+}
+
+
+
 uint32_t *bxs_first_char_ptr(bxstr_t *pString, size_t n)
 {
     if (pString == NULL) {
diff --git a/src/bxstring.h b/src/bxstring.h
index c007926..466d1c8 100644
--- a/src/bxstring.h
+++ b/src/bxstring.h
@@ -165,6 +165,17 @@ uint32_t *bxs_strchr(bxstr_t *pString, ucs4_t c, int *cursor);
 bxstr_t *bxs_cut_front(bxstr_t *pString, size_t n);
 
 
+/**
+ * Remove the first `columns` columns of indentation from the given string. This is different from `bxs_cut_front()` in
+ * that the indentation may include double-wide spaces (U+3000). If a double-wide space must be cut in half, its other
+ * half is replaced by a normal space.
+ * @param pString the string to shorten, which should be indented by at least `columns` columns
+ * @param columns the number of columns to cut from the front of the string
+ * @return a new, shortened string, or NULL only if `pString` was NULL
+ */
+bxstr_t *bxs_cut_indent(bxstr_t *pString, size_t columns);
+
+
 /**
  * Return the first character of the visible character with index `n` in the given string's `memory`.
  * @param pString the string to use
diff --git a/src/generate.c b/src/generate.c
index ea937d7..cf21e3a 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -1050,7 +1050,7 @@ int output_box(const sentry_t *thebox)
             if (ti < (long) input.num_lines) {      /* box content (lines) */
                 int shift = justify_line(input.lines + ti, hpr - hpl);
                 restored_indent = tabbify_indent(ti, indentspc, indentspclen);
-                bxstr_t *text_shifted = bxs_cut_front(input.lines[ti].text, shift < 0 ? (size_t) (-shift) : 0);
+                bxstr_t *text_shifted = bxs_cut_indent(input.lines[ti].text, shift < 0 ? (size_t) (-shift) : 0);
                 uint32_t *spc1 = empty_string;
                 if (ti >= 0 && shift > 0) {
                     spc1 = u32_nspaces(shift);
diff --git a/src/input.c b/src/input.c
index ef1f932..e8ee4b4 100644
--- a/src/input.c
+++ b/src/input.c
@@ -318,11 +318,7 @@ int analyze_input(input_t *result)
     if (opt.design->indentmode != 't' && opt.r == 0) {
         for (size_t i = 0; i < result->num_lines; ++i) {
             if (result->lines[i].text->num_columns >= result->indent) {
-                /*
-                 * We should really remove *columns* rather than *characters*, but since the removed characters are
-                 * spaces (indentation), and there are no double-wide spaces in Unicode, both actions are equivalent.
-                 */
-                bxstr_t *unindented = bxs_cut_front(result->lines[i].text, result->indent);
+                bxstr_t *unindented = bxs_cut_indent(result->lines[i].text, result->indent);
                 bxs_free(result->lines[i].text);
                 result->lines[i].text = unindented;
             }
diff --git a/src/remove.c b/src/remove.c
index 3081894..a90c464 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1061,7 +1061,7 @@ static void remove_default_padding(remove_ctx_t *ctx, int num_blanks)
     if (num_blanks > 0) {
         for (size_t body_line_idx = 0; body_line_idx < ctx->body_num_lines; body_line_idx++) {
             size_t input_line_idx = ctx->top_start_idx + body_line_idx; /* top_start_idx, because top was removed! */
-            bxstr_t *temp = bxs_cut_front(input.lines[input_line_idx].text, (size_t) num_blanks);
+            bxstr_t *temp = bxs_cut_indent(input.lines[input_line_idx].text, (size_t) num_blanks);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
         }
-- 
2.43.0


From 1347604e38d6e4a129de319ee7bbc8410eafb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 07/32] fix: report an error instead of looping forever when
 opposite box sides cannot match

---
 src/generate.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index cf21e3a..a59a96e 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -34,6 +34,29 @@
 
 
 
+/**
+ * Determine if two opposite sides of a box can no longer become the same size. Each step advances the shorter of the two
+ * sides by one shape (repeating elastic shapes), so once the target size is reached, the situation is fully described
+ * by the difference in size and by which of the elastic shapes is next. When we have gone through more steps than
+ * there can be such situations, the sides will never be the same.
+ * @param steps number of steps performed so far
+ * @param target_size the size that must at least be reached
+ * @param shapes_size total size of all the shapes on both sides (excluding corners)
+ * @return `== 1`: the sides will never be the same size;
+ *         `== 0`: carry on
+ */
+static int sides_never_match(const size_t steps, const size_t target_size, const size_t shapes_size)
+{
+    if (steps > 2 * target_size + 8 * (shapes_size + 1)) {
+        bx_fprintf(stderr, "%s: opposite sides of box design '%s' cannot be made the same size\n", PROJECT,
+                opt.design->name);
+        return 1;
+    }
+    return 0;
+}
+
+
+
 static int horiz_precalc(const sentry_t *sarr,
                          size_t *topiltf, size_t *botiltf, size_t *hspace)
 /*
@@ -102,6 +125,11 @@ static int horiz_precalc(const sentry_t *sarr,
 
     twidth = 0;
     bwidth = 0;
+    size_t steps = 0;
+    size_t shapes_width = 0;
+    for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        shapes_width += sarr[north_side[i]].width + sarr[south_side[i]].width;
+    }
 
     btoggle = 1;                         /* can be 1 or 3 */
     ttoggle = 1;
@@ -216,6 +244,9 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+        if (sides_never_match(++steps, target_width, shapes_width)) {
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -286,6 +317,11 @@ static int vert_precalc(const sentry_t *sarr,
 
     lheight = 0;
     rheight = 0;
+    size_t steps = 0;
+    size_t shapes_height = 0;
+    for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        shapes_height += sarr[west_side[i]].height + sarr[east_side[i]].height;
+    }
 
     rtoggle = 1;                         /* can be 1 or 3 */
     ltoggle = 1;
@@ -400,6 +436,9 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+        if (sides_never_match(++steps, target_height, shapes_height)) {
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From 57e4561c937c77bff57602d4fb9c48581f812cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 08/32] fix: -c with multi-byte or illegal characters
 overflowed a buffer or crashed

---
 src/boxes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 898dc47..b18bbbd 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,9 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        return 1;   /* illegal character, error was already printed */
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
@@ -122,7 +125,7 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    strcpy(dp->shape[W].chars[0], cldW->ascii);
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 1bc3ae4a43c80bcef2abe82272dc4369245c29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 09/32] fix: take the size of a generated SW corner from the NW
 corner if needed

The search for the next shape did not wrap around to the NW corner but read
beyond the shape array, so designs without any other west shape were rejected.
---
 src/parsecode.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..958ca60 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -467,27 +467,32 @@ int action_finalize_shapes(pass_to_bison *bison_args)
     }
 
     for (sc = 0, side = fside; sc < NUM_SIDES; ++sc, side = (side + 1) % NUM_SIDES) {
-        shape_t nshape; /* next shape */
+        sentry_t *nshape = NULL; /* next shape */
         sentry_t *c;    /* corner to be processed */
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            for (i = 1; nshape == NULL && i < SHAPES_PER_SIDE; ++i) {
+                sentry_t *candidate = curdes.shape + sides[(side + 1) % NUM_SIDES][i];
+                if (!isempty(candidate)) {
+                    nshape = candidate;
+                }
+            }
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NULL) {
                     c->height = 1;
                 }
                 else {
-                    c->height = c[nshape].height;
+                    c->height = nshape->height;
                 }
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NULL) {
                     c->width = 1;
                 }
                 else {
-                    c->width = c[nshape].width;
+                    c->width = nshape->width;
                 }
                 c->height = curdes.shape[fshape].height;
             }
-- 
2.43.0


From 78e6f449baacadf22b394882a969b702dfbf9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 10/32] fix: removing a box with -t u or -t k cut off text
 behind double-wide or shorter indentation

---
 src/remove.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index a90c464..4ca6a63 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1204,20 +1204,22 @@ void output_input(const int trim_only)
             indentspc[ntabs + nspcs] = '\0';
         }
         else if (opt.tabexp == 'k') {
-            uint32_t *indent32 = tabbify_indent(j, NULL, input.indent);
+            indent = BMIN(input.indent, input.lines[j].text->indent);
+            uint32_t *indent32 = tabbify_indent(j, NULL, indent);
             indentspc = u32_strconv_to_output(indent32);
             BFREE(indent32);
-            indent = input.indent;
         }
         else {
             indentspc = (char *) strdup("");
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_cut_indent(input.lines[j].text, indent);
+        char *outtext = u32_strconv_to_output(unindented->memory);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
+        bxs_free(unindented);
         BFREE(indentspc);
     }
 }
-- 
2.43.0


From af7a4edff863322f7c9d7fee25e1b794fce28ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 11/32] fix: honor --no-color when removing a box

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 4ca6a63..5c351c7 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1215,7 +1215,7 @@ void output_input(const int trim_only)
         }
 
         bxstr_t *unindented = bxs_cut_indent(input.lines[j].text, indent);
-        char *outtext = u32_strconv_to_output(unindented->memory);
+        char *outtext = bxs_to_output(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From 47fbc0a454838cfc6cc28bb650ff502db792788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 12/32] fix: removing a box crashed if both sides matched the
 same characters of a line

---
 src/remove.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 5c351c7..eca01e6 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1018,6 +1018,9 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
         size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        if (e_idx < s_idx) {
+            e_idx = s_idx;   /* both sides matched the same characters, so no text is left */
+        }
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From f12f33087e8f2f4797296f0e721d55f9667d8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 13/32] fix: accept a design whose ELASTIC section precedes its
 SHAPES section

---
 src/parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.y b/src/parser.y
index 7c54018..0c11b58 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -361,6 +361,7 @@ slist_entry: SHAPE shape_def
                 shape_name[$1], (int) $2.width, (int) $2.height);
 
         if (isempty (curdes.shape + $1)) {
+            $2.elastic = curdes.shape[$1].elastic;   /* keep flag if ELASTIC precedes SHAPES */
             curdes.shape[$1] = $2;
             if (!isdeepempty(&($2))) {
                 ++(bison_args->num_shapespec);
-- 
2.43.0


From c5a070d74d6acd0fb33ea368de8ce2c07cb55af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 14/32] fix: a repeated section must not make up for a missing
 SAMPLE or ELASTIC

---
 src/parsecode.c | 6 +++---
 src/parsecode.h | 5 +++++
 src/parser.y    | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 958ca60..45dc4bc 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -542,7 +542,7 @@ int action_finalize_shapes(pass_to_bison *bison_args)
         return RC_ERROR;
     }
 
-    ++(bison_args->num_mandatory);
+    bison_args->num_mandatory |= MANDATORY_SHAPES;
     if (++(bison_args->time_for_se_check) > 1) {
         if (perform_se_check(bison_args) != 0) {
             return RC_ERROR;
@@ -700,7 +700,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->num_mandatory != (MANDATORY_SAMPLE | MANDATORY_SHAPES | MANDATORY_ELASTIC)) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
@@ -924,7 +924,7 @@ int action_sample_block(pass_to_bison *bison_args, bxstr_t *sample)
     }
 
     curdes.sample = line;
-    ++(bison_args->num_mandatory);
+    bison_args->num_mandatory |= MANDATORY_SAMPLE;
     return RC_SUCCESS;
 }
 
diff --git a/src/parsecode.h b/src/parsecode.h
index a1e72bc..13ccd38 100644
--- a/src/parsecode.h
+++ b/src/parsecode.h
@@ -29,6 +29,11 @@
 #define RC_ABORT 2
 #define RC_ACCEPT 3
 
+/* the sections which must be present in each design */
+#define MANDATORY_SAMPLE 1
+#define MANDATORY_SHAPES 2
+#define MANDATORY_ELASTIC 4
+
 /** the current design being parsed */
 #define curdes (bison_args->designs[bison_args->design_idx])
 
diff --git a/src/parser.y b/src/parser.y
index 0c11b58..1fe27cb 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -43,6 +43,7 @@ typedef struct {
     /** the path to the config file we are parsing */
     bxstr_t *config_file;
 
+    /** the mandatory sections seen so far in the current design (MANDATORY_xxx bits) */
     int num_mandatory;
 
     int time_for_se_check;
@@ -304,7 +305,7 @@ block: YSAMPLE STRING YENDSAMPLE
 
 | YELASTIC '(' elist ')'
     {
-        ++(bison_args->num_mandatory);
+        bison_args->num_mandatory |= MANDATORY_ELASTIC;
         if (++(bison_args->time_for_se_check) > 1) {
             if (perform_se_check(bison_args) != 0) {
                 YYERROR;
-- 
2.43.0


From 22d5bb3a2b4a4889753e7d42c288763807139da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 15/32] fix: report write errors also when listing designs or
 querying tags

---
 src/boxes.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index b18bbbd..8f6c3cd 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -500,6 +500,22 @@ void enable_ansi_mode() {
 
 
 
+/**
+ * Ensure that all output was actually written.
+ * @param rc the exit status of the program so far
+ * @return the exit status of the program
+ */
+static int finish_output(int rc)
+{
+    if (fflush(opt.outfile) != 0 || ferror(opt.outfile)) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
+    return rc;
+}
+
+
+
 /*       _\|/_
          (o o)
  +----oOO-{_}-OOo------------------------------------------------------------+
@@ -532,13 +548,13 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
-        exit(rc);
+        exit(finish_output(rc));
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
-        exit(rc);
+        exit(finish_output(rc));
     }
 
     do {
@@ -572,11 +588,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
-    if (fflush(opt.outfile) != 0 || ferror(opt.outfile)) {
-        perror(PROJECT);
-        return EXIT_FAILURE;
-    }
-    return EXIT_SUCCESS;
+    return finish_output(EXIT_SUCCESS);
 }
 
 /* vim: set sw=4: */
-- 
2.43.0


From 105c5e3376b2fb15e5f734afb698ea618eca4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 16/32] fix: use the autodetected design's own -k default and
 apply -i and -p to it when removing

---
 src/boxes.c  |  7 -------
 src/remove.c | 14 ++++++++++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 8f6c3cd..a6cf971 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -390,13 +390,6 @@ static void handle_remove_box()
 {
     log_debug(__FILE__, MAIN, "Removing Box ...\n");
 
-    if (opt.killblank == -1) {
-        if (empty_side(opt.design->shape, BTOP) && empty_side(opt.design->shape, BBOT)) {
-            opt.killblank = 0;
-        } else {
-            opt.killblank = 1;
-        }
-    }
     int rc = remove_box();
     if (rc) {
         exit(EXIT_FAILURE);
diff --git a/src/remove.c b/src/remove.c
index eca01e6..ed48bdb 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -872,6 +872,16 @@ static void detect_design_if_needed()
         if (tmp) {
             opt.design = tmp;
             log_debug(__FILE__, MAIN, "Design autodetection: Removing box of design \"%s\".\n", opt.design->name);
+
+            /* The options -i and -p apply to the detected design in the same way as to one specified with -d. */
+            if (opt.indentmode) {
+                opt.design->indentmode = opt.indentmode;
+            }
+            for (int i = 0; i < NUM_SIDES; ++i) {
+                if (opt.padding[i] > -1) {
+                    opt.design->padding[i] = opt.padding[i];
+                }
+            }
         }
         else {
             fprintf(stderr, "%s: Box design autodetection failed. Use -d option.\n", PROJECT);
@@ -1124,6 +1134,10 @@ int remove_box()
     log_debug(__FILE__, MAIN, "Empty sides? Top: %d, Right: %d, Bottom: %d, Left: %d\n",
             ctx->empty_side[BTOP], ctx->empty_side[BRIG], ctx->empty_side[BBOT], ctx->empty_side[BLEF]);
 
+    if (opt.killblank == -1) {
+        opt.killblank = ctx->empty_side[BTOP] && ctx->empty_side[BBOT] ? 0 : 1;
+    }
+
     ctx->design_is_mono = design_is_mono(opt.design);
     ctx->input_is_mono = input_is_mono();
 
-- 
2.43.0


From d60bee40f6f2e529ef31c8172bbea747dff3a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 17/32] fix: removing crashed if the same lines matched top and
 bottom of the box

---
 src/remove.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index ed48bdb..0a732c1 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1162,6 +1162,9 @@ int remove_box()
     else {
         ctx->bottom_start_idx = find_bottom_side(ctx);
     }
+    /* lines which are part of the top side cannot also be part of the bottom side */
+    ctx->bottom_start_idx = BMAX(ctx->bottom_start_idx, ctx->top_end_idx);
+    ctx->bottom_end_idx = BMAX(ctx->bottom_end_idx, ctx->bottom_start_idx);
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
-- 
2.43.0


From 7a0f073fe657257d9d9ddcd10c4510556a869b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 18/32] fix: indentation mode of a design must not depend on
 the letter case used in the config file

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 45dc4bc..e7d37ef 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -772,7 +773,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = (char) tolower((unsigned char) val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From 0cb58b64464240472c4c82f8eb46fa1a75b26879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 19/32] fix: elastic corners were accepted when generated and
 declared before the shapes

---
 src/parsecode.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index e7d37ef..ad6b949 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -497,7 +497,6 @@ int action_finalize_shapes(pass_to_bison *bison_args)
                 }
                 c->height = curdes.shape[fshape].height;
             }
-            c->elastic = 0;
             rc = genshape(c->width, c->height, &(c->chars), &(c->mbcs));
             if (rc) {
                 return RC_ABORT;
-- 
2.43.0


From 51c7a0cd986c5c7bd000f25d377a42e21fd0b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 20/32] fix: control characters in config file strings crashed
 the program

---
 src/lexer.l | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..907bede 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,6 +188,9 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                return YUNREC;           /* string contains illegal characters */
+            }
             return STRING;
         }
         --rest_len;
@@ -210,12 +213,15 @@ PFILENAME [^\r\n]+
 <PARENT>{PFILENAME} {
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     bxstr_t *bxstr = bxs_from_unicode(utf8);
-    yylval->s = bxs_trim(bxstr);
-
     BFREE(utf8);
-    bxs_free(bxstr);
 
     BEGIN(INITIAL);
+    if (bxstr == NULL) {
+        return YUNREC;                   /* file name contains illegal characters */
+    }
+    yylval->s = bxs_trim(bxstr);
+    bxs_free(bxstr);
+
     report_state("FILENAM", bxs_to_output(yylval->s), "INITIAL");
     return FILENAME;
 }
@@ -262,6 +268,12 @@ PFILENAME [^\r\n]+
         uint32_t *utf8 = u32_strconv_from_arg(sample, CONFIG_FILE_ENCODING);
         uint32_t *nl = u32_strconv_from_arg("\n", CONFIG_FILE_ENCODING);
         bxstr_t *bxstr = bxs_from_unicode(utf8);
+        if (bxstr == NULL) {
+            BFREE(nl);
+            BFREE(utf8);
+            BFREE(sample);
+            return YUNREC;               /* sample contains illegal characters */
+        }
         bxstr_t *bxstr2 = bxs_rtrim(bxstr);
         bxs_free(bxstr);
         bxstr = bxs_strcat(bxstr2, nl);
@@ -404,8 +416,8 @@ PFILENAME [^\r\n]+
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     yylval->s = bxs_from_unicode(utf8);
     if (yylval->s == NULL) {
-        perror (PROJECT);
-        exit (EXIT_FAILURE);
+        BFREE(utf8);
+        return YUNREC;                   /* word contains illegal characters */
     }
     if (is_debug_logging(LEXER)) {
         char *out_utf8 = u32_strconv_to_output(utf8);
-- 
2.43.0


From ee9c5e42724161913fc79e8a729a9ca88f12abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 21/32] fix: removing doubled the indentation of lines without
 a left side

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 0a732c1..a5943ee 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1036,7 +1036,7 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
                 (int) input.indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
-        if (opt.indentmode == 'b' || opt.indentmode == '\0') {
+        if (ctx->body[body_line_idx].west_quality > 0 && (opt.indentmode == 'b' || opt.indentmode == '\0')) {
             /* restore indentation */
             bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
             free_line_text(input.lines + input_line_idx);
-- 
2.43.0


From d74afc2c0c9c95a03d31b819551e780bd4776df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 22/32] fix: tabs in the indentation or in a design wrote
 beyond the end of a buffer

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 9dd5f3d..c39be75 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -90,7 +90,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
-    size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    size_t ascii_len = 2 * result->num_chars + 1;   /* no character is wider than 2 columns, and tabs count as 1 */
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From 18bac8faa2e9efbb85750fa19f13fd52ea3f3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 23/32] fix: an ESC character outside of an escape sequence
 shifted the positions of the text after it

---
 src/unicode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..595c292 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -195,6 +195,10 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
                 break;
             }
         } else {
+            if (ansipos == 1) {
+                /* The ESC was not the start of an escape sequence, so this char is not a part of it */
+                rest--;
+            }
             break;
         }
     }
-- 
2.43.0


From c3e30f2d70020b20f8026d6aea20c7de0eac2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 24/32] fix: a byte order mark directly in front of a word was
 taken as part of the word

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 907bede..5bd7af2 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -110,7 +110,7 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 PBOM      \xEF\xBB\xBF
 U2A       [\xC2-\xDF][\x80-\xBF]
 U2B       \xE0[\xA0-\xBF][\x80-\xBF]
-U3A       [\xE1-\xEC\xEE\xEF][\x80-\xBF]{2}
+U3A       [\xE1-\xEC\xEE][\x80-\xBF]{2}|\xEF[\x80-\xBA\xBC-\xBF][\x80-\xBF]|\xEF\xBB[\x80-\xBE]
 U3B       \xED[\x80-\x9F][\x80-\xBF]
 U4A       \xF0[\x90-\xBF][\x80-\xBF]{2}
 U4B       [\xF1-\xF3][\x80-\xBF]{3}
-- 
2.43.0


From 7961f9b6a4b33141867675d90ad909f4bda7952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:43 +0000
Subject: [PATCH 25/32] fix: detecting colored designs wrote beyond the end of
 a shape line

---
 src/detect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..599e1cf 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -166,8 +166,9 @@ uint32_t *prepare_comp_shape(
         result = u32_strdup(trim_left ? bxs_unindent_ptr(shape_line) : shape_line->memory);
 
         if (trim_right && shape_line->trailing > 0) {
-            size_t x = shape_line->num_chars_visible - (trim_left ? shape_line->indent : 0) - shape_line->trailing;
-            set_char_at(result, shape_line->first_char[x], char_nul);
+            size_t start = trim_left ? shape_line->first_char[shape_line->indent] : 0;
+            size_t end = shape_line->first_char[shape_line->num_chars_visible - shape_line->trailing];
+            set_char_at(result, BMAX(end, start) - start, char_nul);
         }
     }
     return result;
-- 
2.43.0


From 48d8b394a8d0105d9d305e19093c5e4c9a25e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 26/32] fix: all but the last of several escape sequences in
 front of a character were lost when cutting off text

---
 src/bxstring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index c39be75..ba0e9eb 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -121,8 +121,8 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
             if (is_csi_reset(rest)) {
                 first_candidate = -1;
             }
-            else {
-                first_candidate = idx;
+            else if (first_candidate < 0) {
+                first_candidate = idx;   /* first of all the escape sequences in front of the next character */
             }
         }
         else {
-- 
2.43.0


From 54533cb9655162f0439ff4f4735d5c92c91cf487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 27/32] fix: tabs were not expanded by display columns, and
 lines of more than 16370 characters were cut off

---
 src/tools.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 66d4d56..fe23f79 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -221,25 +221,27 @@ int empty_line(const line_t *line)
 size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_t **text, size_t **tabpos,
         size_t *tabpos_len)
 {
-    static uint32_t temp[LINE_MAX_BYTES + 100]; /* work string */
-    size_t io;                                  /* character position in work string */
+    size_t io;                                  /* character position in result string */
+    size_t col = 0;                             /* display column */
     size_t tabnum = 0;                          /* index of the current tab */
+    size_t num_tabs = 0;                        /* number of tabs in the input buffer */
 
     *text = NULL;
     *tabpos = NULL;
     *tabpos_len = 0;
 
+    ucs4_t puc;
+    const uint32_t *rest = input_buffer;
+    while ((rest = u32_next(&puc, rest))) {
+        if (puc == char_tab) {
+            num_tabs++;
+        }
+    }
     if (opt.tabexp == 'k') {
         /* We need to know the exact tab positions only if expansion type 'k' is requested (keep tabs as much as they
          * were as possible). Else we'll just convert spaces and tabs without having to know where exactly the tabs
          * were in the first place. */
-        ucs4_t puc;
-        const uint32_t *rest = input_buffer;
-        while ((rest = u32_next(&puc, rest))) {
-            if (puc == char_tab) {
-                (*tabpos_len)++;
-            }
-        }
+        *tabpos_len = num_tabs;
     }
 
     if (*tabpos_len > 0) {
@@ -249,29 +251,41 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
         }
     }
 
-    ucs4_t puc;
-    const uint32_t *rest = input_buffer;
+    uint32_t *temp = (uint32_t *) malloc((u32_strlen(input_buffer) + num_tabs * tabstop + 1) * sizeof(uint32_t));
+    if (temp == NULL) {
+        return 0;
+    }
+
+    size_t invis = 0;                           /* remaining characters of an escape sequence */
+    rest = input_buffer;
     io = 0;
-    while ((rest = u32_next(&puc, rest)) && io < (LINE_MAX_BYTES - 12)) {
+    while ((rest = u32_next(&puc, rest))) {
+        if (puc == char_esc && invis == 0) {
+            advance_next32(rest - 1, &invis);
+        }
         if (puc == char_tab) {
             if (*tabpos_len > 0) {
-                (*tabpos)[tabnum++] = io;
+                (*tabpos)[tabnum++] = col;
             }
-            size_t num_spc = tabstop - (io % tabstop);
+            size_t num_spc = tabstop - (col % tabstop);
             u32_set(temp + io, char_space, num_spc);
             io += num_spc;
+            col += num_spc;
         }
         else {
+            if (invis == 0) {
+                col += BMAX(0, uc_width(puc, encoding));
+            }
             set_char_at(temp, io, puc);
             ++io;
         }
+        if (invis > 0) {
+            --invis;
+        }
     }
-    temp[io] = 0;
+    set_char_at(temp, io, char_nul);
 
-    *text = u32_strdup(temp);
-    if (*text == NULL) {
-        return 0;
-    }
+    *text = temp;
     return io;
 }
 
-- 
2.43.0


From be5fb395b32b14c8469571014511ecf1ebf5e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 28/32] fix: lines of more than 16383 bytes were split into
 several lines

---
 src/input.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/input.c b/src/input.c
index e8ee4b4..8780b6a 100644
--- a/src/input.c
+++ b/src/input.c
@@ -216,15 +216,48 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 
 
 
+/**
+ * Read a line of any length.
+ * @param buf the line buffer, which is enlarged as needed
+ * @param buf_size the allocated size of `buf`
+ * @return 1 if a line was read, 0 on end of file or read error, -1 if out of memory
+ */
+static int read_line(char **buf, size_t *buf_size)
+{
+    size_t len = 0;
+    int found = 0;
+    do {
+        if (*buf_size - len < 2) {
+            size_t new_size = *buf_size + LINE_MAX_BYTES + 3;
+            char *tmp = (char *) realloc(*buf, new_size);
+            if (tmp == NULL) {
+                return -1;
+            }
+            *buf = tmp;
+            *buf_size = new_size;
+        }
+        if (fgets(*buf + len, *buf_size - len, opt.infile) == NULL) {
+            break;
+        }
+        found = 1;
+        len += strlen(*buf + len);
+    } while (len + 1 == *buf_size && (*buf)[len - 1] != '\n');
+    return found;
+}
+
+
+
 input_t *read_all_input()
 {
-    char buf[LINE_MAX_BYTES + 3];      /* static input buffer incl. newline + zero terminator */
+    char *buf = NULL;                  /* input buffer incl. newline + zero terminator */
+    size_t buf_size = 0;               /* number of bytes allocated */
+    int rc_read;
     size_t input_size = 0;             /* number of elements allocated */
 
     input_t *result = (input_t *) calloc(1, sizeof(input_t));
     result->indent = LINE_MAX_BYTES;
 
-    while (fgets(buf, LINE_MAX_BYTES + 2, opt.infile)) {
+    while ((rc_read = read_line(&buf, &buf_size)) > 0) {
         if (result->num_lines % 100 == 0) {
             input_size += 100;
             line_t *tmp = (line_t *) realloc(result->lines, input_size * sizeof(line_t));
@@ -271,7 +304,8 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(opt.infile)) {
+    BFREE(buf);
+    if (rc_read < 0 || ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From 60697319a1b358ed7427b395842cd8253440f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 29/32] fix: mending a box with blank lines in it made it wider
 every time

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index a5943ee..58232d9 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1202,7 +1202,9 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        /* blanks left over from a blank line of the box must not widen the box when it is drawn again */
+        bxstr_t *temp = trim_only && bxs_is_blank(input.lines[j].text) ? bxs_new_empty_string()
+                : bxs_rtrim(input.lines[j].text);
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From ec894ae6a17747b5c9c98320801c53574df12984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 30/32] fix: removing cut off text in front of blanks when the
 left side of the design has blanks

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 58232d9..de0f657 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -736,7 +736,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             shape_text = NULL;
 
             if ((p == NULL)
-                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent + (max_quality - quality)))
+                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent))
                     || (vside == BRIG && ((size_t) (p - input_line) < input_length - input_trailing - quality))) {
                 shape_text = shorten(*shape_line_ctx, &quality, vside == BLEF, 1, 1);
                 to_free = shape_text;
-- 
2.43.0


From d58a6e368c54b876423e6744e78028bc176c02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:51 +0000
Subject: [PATCH 31/32] fix: removing did not remove the left padding if the
 text had blank lines

---
 src/remove.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index de0f657..08cbf35 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1101,10 +1101,14 @@ static void apply_results_to_input(remove_ctx_t *ctx)
         if (input.lines[j].text->num_columns > input.maxline) {
             input.maxline = input.lines[j].text->num_columns;
         }
-        if (input.lines[j].text->indent < input.indent) {
+        /* blank lines have no indentation of their own */
+        if (!bxs_is_blank(input.lines[j].text) && input.lines[j].text->indent < input.indent) {
             input.indent = input.lines[j].text->indent;
         }
     }
+    if (input.indent == SIZE_MAX) {
+        input.indent = 0;
+    }
     if (ctx->empty_side[BLEF]) {
         /* If the side were not open, default padding would have been removed when the side was removed. */
         remove_default_padding(ctx, BMIN((int) input.indent, opt.design->padding[BLEF]));
-- 
2.43.0


From 145eac813dc4c3a50c9ead110a349af8dba1ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:09 +0000
Subject: [PATCH 32/32] fix: keep a right padding of one when text is right
 aligned

---
 src/generate.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index a59a96e..8eb1f62 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -995,33 +995,20 @@ int output_box(const sentry_t *thebox)
     set_char_at(hfill2, hfill, char_nul);
     hpl = 0;
     hpr = 0;
-    if (hfill == 1) {
-        if (opt.halign == 'r'
-                || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
-            hpl = 1;
-            hpr = 0;
-        }
-        else {
-            hpl = 0;
-            hpr = 1;
-        }
+    hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
+    if (opt.halign == 'c') {
+        hpl = hfill / 2 + opt.design->padding[BLEF];
+        hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
+    }
+    else if (opt.halign == 'r') {
+        hpl = hfill + opt.design->padding[BLEF];
+        hpr = opt.design->padding[BRIG];
     }
     else {
-        hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
-        if (opt.halign == 'c') {
-            hpl = hfill / 2 + opt.design->padding[BLEF];
-            hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
-        }
-        else if (opt.halign == 'r') {
-            hpl = hfill + opt.design->padding[BLEF];
-            hpr = opt.design->padding[BRIG];
-        }
-        else {
-            hpl = opt.design->padding[BLEF];
-            hpr = hfill + opt.design->padding[BRIG];
-        }
-        hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
+        hpl = opt.design->padding[BLEF];
+        hpr = hfill + opt.design->padding[BRIG];
     }
+    hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
     set_char_at(hfill1, hpl, char_nul);
     set_char_at(hfill2, hpr, char_nul);
 
-- 
2.43.0

