From a43ed50038e670cfc066b895749e3a871e0f047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 01/52] fix: allocate room for tabs in the ASCII equivalent of
 a string

---
 src/bxstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..6ea920b 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -91,6 +91,11 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    for (const uint32_t *p = pInput; *p != char_nul; p++) {
+        if (*p == char_tab) {
+            ascii_len++;  /* u32_strwidth() does not count tabs, but we represent each by a space */
+        }
+    }
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From 9a1f6784189d7b264df3b1380083efddb51ff9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 02/52] fix: exit with error instead of crashing on control
 characters in the input

---
 src/input.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input.c b/src/input.c
index 1442d6e..46b13b3 100644
--- a/src/input.c
+++ b/src/input.c
@@ -254,6 +254,12 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(mbtemp);
+                BFREE(result->lines);
+                BFREE(result);
+                return NULL;   /* illegal character, error message was already printed */
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From 5b5937546525401e8a8781b2e26ac995ad5c9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 03/52] fix: do not access memory before an empty input line
 when removing a box

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 46b13b3..ed02b06 100644
--- a/src/input.c
+++ b/src/input.c
@@ -196,11 +196,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From 8c7720bf80bb4daa0798496822aeff943a485e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 04/52] fix: report read errors on the actual input file

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index ed02b06..73a3427 100644
--- a/src/input.c
+++ b/src/input.c
@@ -269,7 +269,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From d6361c0d39937471f80723e0765d9033a65c5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 05/52] fix: memory errors when -c is given a non-ASCII or
 illegal string

---
 src/boxes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..1a96373 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,9 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
@@ -122,7 +125,8 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    BFREE(dp->shape[W].chars[0]);
+    dp->shape[W].chars[0] = strdup(cldW->ascii);
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 10c4a25cffbcea82b6d19a1e7c280bc47429278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 06/52] fix: do not require a config file when the design is
 given by -c

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 1a96373..912961a 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -210,11 +210,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From b40d69bef1fe9ae35bbec82c776f57cba6757c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 07/52] fix: exit with error when the output could not be
 written

---
 src/boxes.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 912961a..76e8fc0 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -498,6 +498,23 @@ void enable_ansi_mode() {
 
 
 
+/**
+ * Make sure that everything we wrote has actually reached the output file.
+ * @param rc the return code so far
+ * @return `rc`, or `EXIT_FAILURE` if there was a write error
+ */
+static int flush_output(int rc)
+{
+    int failed = ferror(opt.outfile);
+    if (fflush(opt.outfile) != 0 || failed) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
+    return rc;
+}
+
+
+
 /*       _\|/_
          (o o)
  +----oOO-{_}-OOo------------------------------------------------------------+
@@ -528,13 +545,13 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
-        exit(rc);
+        exit(flush_output(rc));
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
-        exit(rc);
+        exit(flush_output(rc));
     }
 
     apply_expected_size();
@@ -564,7 +581,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
-    return EXIT_SUCCESS;
+    return flush_output(EXIT_SUCCESS);
 }
 
 /* vim: set sw=4: */
-- 
2.43.0


From 4b621553e76f678c142b142a901c316ed01b9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 08/52] fix: keep all tabs of the indentation when more than
 one tab must be restored (-t Nk)

---
 src/tools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..0e01d2e 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -391,7 +391,8 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        /* earlier tabs have already shortened the string, so `tpos` must be shifted accordingly */
+        set_char_at(result, tpos - (indentspc_len - result_len), char_tab);
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From 59c498892539aff7db32f347d4e11d0c9bd8333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 09/52] fix: never print escape sequences upon box removal when
 --no-color is given

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 3081894..bd71ce6 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1214,7 +1214,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_cut_front(input.lines[j].text, indent);
+        char *outtext = bxs_to_output(unindented);
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From 3f6f110a90ced174ee6dcc330c04aa2bd4d8a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 10/52] fix: box was too wide when replacement rules shortened
 the longest line

---
 src/input.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/input.c b/src/input.c
index 73a3427..b82ea78 100644
--- a/src/input.c
+++ b/src/input.c
@@ -172,6 +172,16 @@ int apply_substitutions(input_t *result, const int mode)
         opt.design->current_rule = NULL;
     }
 
+    /*
+     *  The longest line may have become shorter.
+     */
+    if (num_rules > 0) {
+        result->maxline = 0;
+        for (k = 0; k < result->num_lines; ++k) {
+            analyze_line_ascii(result, result->lines + k);
+        }
+    }
+
     /*
      *  If text indentation was part of the lines processed, indentation
      *  may now be different -> recalculate result->indent.
-- 
2.43.0


From de9dd514874de4a91e9783574c797bb1cdc50457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 11/52] fix: respect right padding when the text block is
 right-aligned in a tight box

---
 src/generate.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..ee68933 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -956,33 +956,20 @@ int output_box(const sentry_t *thebox)
     set_char_at(hfill2, hfill, char_nul);
     hpl = 0;
     hpr = 0;
-    if (hfill == 1) {
-        if (opt.halign == 'r'
-                || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
-            hpl = 1;
-            hpr = 0;
-        }
-        else {
-            hpl = 0;
-            hpr = 1;
-        }
+    hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
+    if (opt.halign == 'c') {
+        hpl = hfill / 2 + opt.design->padding[BLEF];
+        hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
+    }
+    else if (opt.halign == 'r') {
+        hpl = hfill + opt.design->padding[BLEF];
+        hpr = opt.design->padding[BRIG];
     }
     else {
-        hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
-        if (opt.halign == 'c') {
-            hpl = hfill / 2 + opt.design->padding[BLEF];
-            hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
-        }
-        else if (opt.halign == 'r') {
-            hpl = hfill + opt.design->padding[BLEF];
-            hpr = opt.design->padding[BRIG];
-        }
-        else {
-            hpl = opt.design->padding[BLEF];
-            hpr = hfill + opt.design->padding[BRIG];
-        }
-        hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
+        hpl = opt.design->padding[BLEF];
+        hpr = hfill + opt.design->padding[BRIG];
     }
+    hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
     set_char_at(hfill1, hpl, char_nul);
     set_char_at(hfill2, hpr, char_nul);
 
-- 
2.43.0


From c87637acd2f399fbc975827aad0e04f5c2e89426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:31 +0000
Subject: [PATCH 12/52] fix: apply sizing to the autodetected design when
 mending a box

---
 src/boxes.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 76e8fc0..1f239bf 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -524,8 +524,8 @@ static int flush_output(int rc)
 int main(int argc, char *argv[])
 {
     int rc;                           /* general return code */
-    int saved_designwidth;            /* opt.design->minwith backup, used for mending */
-    int saved_designheight;           /* opt.design->minheight backup, used for mending */
+    int saved_designwidth = 0;        /* opt.design->minwith backup, used for mending */
+    int saved_designheight = 0;       /* opt.design->minheight backup, used for mending */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -554,14 +554,18 @@ int main(int argc, char *argv[])
         exit(flush_output(rc));
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
-    saved_designwidth = opt.design->minwidth;
-    saved_designheight = opt.design->minheight;
+    design_t *sized_design = NULL;    /* the design to which the saved values apply */
 
     do {
+        if (opt.design != sized_design) {  /* first iteration, or design was autodetected while mending */
+            sized_design = opt.design;
+            apply_expected_size();
+            if (opt.indentmode) {
+                opt.design->indentmode = opt.indentmode;
+            }
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+        }
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
-- 
2.43.0


From 7f7ae1a2e1aa1e141030b2cf276844e139a5019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 13/52] fix: reject padding specifications which lack a number
 or contain whitespace

---
 src/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..09eefc9 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -365,7 +365,7 @@ static int padding(opt_t *result, char *optarg)
 
     while (*p) {
         errfl = 0;
-        if (p[1] == '\0') {
+        if (p[1] < '0' || p[1] > '9') {   /* each letter must be followed by a number */
             errfl = 1;
             break;
         }
-- 
2.43.0


From 81ccc89b9e78f76000fd3c2be138c80b692fa35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 14/52] fix: reject box size specifications with trailing
 garbage

---
 src/cmdline.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index 09eefc9..185cccf 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -443,6 +443,15 @@ static int query(opt_t *result, char *optarg)
  */
 static int size_of_box(opt_t *result, char *optarg)
 {
+    size_t len = strspn(optarg, "0123456789");
+    if (optarg[len] == 'x' || optarg[len] == 'X') {
+        ++len;
+        len += strspn(optarg + len, "0123456789");
+    }
+    if (optarg[len] != '\0') {
+        bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
+        return 1;
+    }
     char *p = strchr(optarg, 'x');
     if (!p) {
         p = strchr(optarg, 'X');
-- 
2.43.0


From 10c5aee9b3308fa2e8c88d1a8401a768ed470f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 15/52] fix: endless loop when opposite sides of a box design
 can never be of the same size

---
 src/generate.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ee68933..9d53650 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -58,6 +58,7 @@ static int horiz_precalc(const sentry_t *sarr,
     int i;
     size_t target_width;      /* assumed text width for minimum box size */
     int btoggle, ttoggle;     /* for case 3 w/ 2 elastics */
+    size_t max_width;         /* give up beyond this size */
 
     /*
      *  Initialize future result values
@@ -103,6 +104,14 @@ static int horiz_precalc(const sentry_t *sarr,
     twidth = 0;
     bwidth = 0;
 
+    /* If both sides don't meet until here, they never will, because only the difference of their sizes matters. */
+    size_t widest_shape = 0;
+    for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        widest_shape = BMAX(widest_shape, sarr[north_side[i]].width);
+        widest_shape = BMAX(widest_shape, sarr[south_side[i]].width);
+    }
+    max_width = target_width + 16 * (widest_shape + 1) * (widest_shape + 1);
+
     btoggle = 1;                         /* can be 1 or 3 */
     ttoggle = 1;
 
@@ -216,6 +225,12 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (twidth > max_width && bwidth > max_width) {
+            bx_fprintf(stderr, "%s: top and bottom sides of this box design cannot be made the same size\n",
+                PROJECT);
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -249,6 +264,7 @@ static int vert_precalc(const sentry_t *sarr,
     int i;
     size_t target_height;     /* assumed text height for minimum box size */
     int rtoggle, ltoggle;     /* for case 3 w/ 2 elastics */
+    size_t max_height;        /* give up beyond this size */
 
     /*
      *  Initialize future result values
@@ -287,6 +303,14 @@ static int vert_precalc(const sentry_t *sarr,
     lheight = 0;
     rheight = 0;
 
+    /* If both sides don't meet until here, they never will, because only the difference of their sizes matters. */
+    size_t tallest_shape = 0;
+    for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        tallest_shape = BMAX(tallest_shape, sarr[west_side[i]].height);
+        tallest_shape = BMAX(tallest_shape, sarr[east_side[i]].height);
+    }
+    max_height = target_height + 16 * (tallest_shape + 1) * (tallest_shape + 1);
+
     rtoggle = 1;                         /* can be 1 or 3 */
     ltoggle = 1;
 
@@ -400,6 +424,12 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (lheight > max_height && rheight > max_height) {
+            bx_fprintf(stderr, "%s: left and right sides of this box design cannot be made the same size\n",
+                PROJECT);
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From 08e88fcd0edf5cd62f734a47d7c258e50dfe50a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 16/52] fix: memory errors when a line matches both the top and
 the bottom side of the box to be removed

---
 src/remove.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index bd71ce6..4be8328 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1145,6 +1145,11 @@ int remove_box()
     else {
         ctx->bottom_start_idx = find_bottom_side(ctx);
     }
+    if (ctx->bottom_start_idx < ctx->top_end_idx) {
+        /* top and bottom sides must not overlap, or the same lines would be removed twice */
+        ctx->bottom_start_idx = ctx->top_end_idx;
+        ctx->bottom_end_idx = BMAX(ctx->bottom_end_idx, ctx->bottom_start_idx);
+    }
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
-- 
2.43.0


From 11238cb739152ebdbdedcedb81f82ada6d15786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 17/52] fix: count two-byte escape sequences and character set
 designations correctly

ESC 7, ESC 8, ESC c and the like were consumed as two characters but counted as
one, so that the end of the text was lost. ESC ( 0 swallowed the visible char
after it, and a lone ESC swallowed any character which followed.
---
 src/unicode.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..b5b6ee3 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -176,15 +176,31 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
             /* Found an ESC char, count it as invisible and move 1 forward in the detection of CSI sequences */
             (*invis)++;
             ansipos++;
-        } else if (ansipos == 1 && (c == '[' || c == '(')) {
+        } else if (ansipos == 1 && c == '[') {
             /* Found '[' char after ESC. A CSI sequence has started. */
             (*invis)++;
             ansipos++;
-        } else if (ansipos == 1 && c >= 0x40 && c <= 0x5f) { /* between '@' and '_' (mostly uppercase letters) */
+        } else if (ansipos == 1 && c == '(') {
+            /* Found '(' char after ESC. The next char designates a character set. */
+            (*invis)++;
+            ansipos = 3;
+        } else if (ansipos == 1 && c >= 0x30 && c <= 0x7e) { /* digits, letters, and some punctuation */
             /* Found a byte designating the end of a two-byte escape sequence */
             (*invis)++;
             ansipos = 0;
             break;
+        } else if (ansipos > 0 && (ansipos == 1 || c == char_newline || c == char_cr)) {
+            /* Broken escape sequence. The current char is not part of it, so leave it to be processed next. */
+            --rest;
+            break;
+        } else if (ansipos == 3) {
+            /* Found the character set designation */
+            (*invis)++;
+
+            if (c >= 0x30 && c <= 0x7e) {
+                ansipos = 0;
+                break;
+            }
         } else if (ansipos == 2) {
             /* Inside CSI sequence - Keep counting chars as invisible */
             (*invis)++;
-- 
2.43.0


From f5df0c100ef5698b63447cbb85721942aa655940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 18/52] fix: do not count double-wide blanks as indentation

The indentation is a number of columns and a number of characters at the same
time, so an ideographic space at the start of a line made boxes drop text.
---
 src/bxstring.c | 3 +++
 src/input.c    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 6ea920b..246b194 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -148,6 +148,9 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
                 }
             }
             if (is_blank(c)) {
+                if (cols != 1) {
+                    indent_active = 0;   /* indent is used as number of columns *and* number of characters */
+                }
                 if (indent_active) {
                     result->indent += cols;
                 }
diff --git a/src/input.c b/src/input.c
index b82ea78..ce67cd4 100644
--- a/src/input.c
+++ b/src/input.c
@@ -328,7 +328,7 @@ int analyze_input(input_t *result)
             if (result->lines[i].text->num_columns >= result->indent) {
                 /*
                  * We should really remove *columns* rather than *characters*, but since the removed characters are
-                 * spaces (indentation), and there are no double-wide spaces in Unicode, both actions are equivalent.
+                 * single-width spaces (indentation never includes double-wide spaces), both actions are equivalent.
                  */
                 bxstr_t *unindented = bxs_cut_front(result->lines[i].text, result->indent);
                 bxs_free(result->lines[i].text);
-- 
2.43.0


From 44df1c3610062efd976e6720e2005ce66c57666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 19/52] fix: expand tabs based on columns, not characters

Tabs following double-wide, combining, or invisible characters (escape
sequences) were expanded to the wrong tab stop.
---
 src/tools.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 0e01d2e..4342808 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -223,6 +223,8 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
 {
     static uint32_t temp[LINE_MAX_BYTES + 100]; /* work string */
     size_t io;                                  /* character position in work string */
+    size_t col = 0;                             /* column on screen which corresponds to `io` */
+    size_t invisible = 0;                       /* number of chars left in current escape sequence */
     size_t tabnum = 0;                          /* index of the current tab */
 
     *text = NULL;
@@ -257,13 +259,24 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
             if (*tabpos_len > 0) {
                 (*tabpos)[tabnum++] = io;
             }
-            size_t num_spc = tabstop - (io % tabstop);
+            size_t num_spc = tabstop - (col % tabstop);
             u32_set(temp + io, char_space, num_spc);
             io += num_spc;
+            col += num_spc;
+            invisible = 0;
         }
         else {
             set_char_at(temp, io, puc);
             ++io;
+            if (puc == char_esc && invisible == 0) {
+                advance_next32(rest - 1, &invisible);
+            }
+            if (invisible > 0) {
+                --invisible;
+            }
+            else {
+                col += is_ascii_printable(puc) ? 1 : BMAX(0, uc_width(puc, encoding));
+            }
         }
     }
     temp[io] = 0;
-- 
2.43.0


From abe04cd27ef2bf67f6b0cae9f8d1b23f2cdd3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 20/52] fix: mending made the box wider when it contained blank
 lines

Blank lines retained their trailing blanks, so the box kept growing.
---
 src/remove.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 4be8328..983cdf9 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1187,7 +1187,14 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp = NULL;
+        if (trim_only && bxs_is_blank(input.lines[j].text)) {
+            /* bxs_rtrim() leaves blank lines as they are, but they must not affect the size of the new box */
+            temp = bxs_new_empty_string();
+        }
+        else {
+            temp = bxs_rtrim(input.lines[j].text);
+        }
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From f41e62aba7703563f1840912e16267f947a38adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 21/52] fix: lines on which west and east side overlap were
 lost upon box removal, or made boxes crash

---
 src/remove.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 983cdf9..e38106b 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1018,6 +1018,9 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
         size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        if (e_idx < s_idx) {
+            e_idx = s_idx;   /* West and east shapes were matched on the same characters, so no text is left. */
+        }
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From 4a22a5b78efe9ad68b408c8ca4a09f24008dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 22/52] fix: padding and blank line handling when removing or
 mending a box

The padding was reduced to fit the requested box size even while the old box
was being removed, -p was not applied to the autodetected design, and the
default for -k was taken from the default design instead of the detected one.
---
 src/boxes.c  | 25 ++++++++++++++++++++-----
 src/remove.c |  4 +---
 src/remove.h |  7 +++++++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 1f239bf..5b18871 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -302,16 +302,26 @@ static void handle_input()
 
 
 /**
- * Adjust box size to fit requested padding value.
- * Command line-specified box size takes precedence over padding.
+ * Apply the padding values specified on the command line to the design.
  */
-static void adjust_size_and_padding()
+static void apply_requested_padding()
 {
     for (int i = 0; i < NUM_SIDES; ++i) {
         if (opt.padding[i] > -1) {
             opt.design->padding[i] = opt.padding[i];
         }
     }
+}
+
+
+
+/**
+ * Adjust box size to fit requested padding value.
+ * Command line-specified box size takes precedence over padding.
+ */
+static void adjust_size_and_padding()
+{
+    apply_requested_padding();
 
     size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
     if (pad > 0) {
@@ -388,6 +398,9 @@ static void handle_remove_box()
 {
     log_debug(__FILE__, MAIN, "Removing Box ...\n");
 
+    detect_design_if_needed();
+    apply_requested_padding();
+
     if (opt.killblank == -1) {
         if (empty_side(opt.design->shape, BTOP) && empty_side(opt.design->shape, BBOT)) {
             opt.killblank = 0;
@@ -526,6 +539,7 @@ int main(int argc, char *argv[])
     int rc;                           /* general return code */
     int saved_designwidth = 0;        /* opt.design->minwith backup, used for mending */
     int saved_designheight = 0;       /* opt.design->minheight backup, used for mending */
+    int saved_padding[NUM_SIDES];     /* opt.design->padding backup, used for mending */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -565,6 +579,7 @@ int main(int argc, char *argv[])
             }
             saved_designwidth = opt.design->minwidth;
             saved_designheight = opt.design->minheight;
+            memcpy(saved_padding, opt.design->padding, sizeof(saved_padding));
         }
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
@@ -572,15 +587,15 @@ int main(int argc, char *argv[])
         --opt.mend;           /* opt.mend == 1: add it back         */
         opt.design->minwidth = saved_designwidth;
         opt.design->minheight = saved_designheight;
+        memcpy(opt.design->padding, saved_padding, sizeof(saved_padding));
 
         handle_input();
 
-        adjust_size_and_padding();
-
         if (opt.r) {
             handle_remove_box();
         }
         else {
+            adjust_size_and_padding();
             handle_generate_box();
         }
     } while (opt.mend > 0);
diff --git a/src/remove.c b/src/remove.c
index e38106b..283f843 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -865,7 +865,7 @@ static void find_vertical_shapes(remove_ctx_t *ctx)
  * If the user didn't specify a design to remove, autodetect it.
  * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
  */
-static void detect_design_if_needed()
+void detect_design_if_needed()
 {
     if (opt.design_choice_by_user == 0) {
         design_t *tmp = autodetect_design();
@@ -1114,8 +1114,6 @@ static void apply_results_to_input(remove_ctx_t *ctx)
 
 int remove_box()
 {
-    detect_design_if_needed();
-
     remove_ctx_t *ctx = (remove_ctx_t *) calloc(1, sizeof(remove_ctx_t));
     ctx->empty_side[BTOP] = empty_side(opt.design->shape, BTOP);
     ctx->empty_side[BRIG] = empty_side(opt.design->shape, BRIG);
diff --git a/src/remove.h b/src/remove.h
index c0126f4..1129c4e 100644
--- a/src/remove.h
+++ b/src/remove.h
@@ -52,6 +52,13 @@ typedef struct _shape_line_ctx_t {
 
 
 
+/**
+ * Unless the user has chosen a design, determine the design of the box to be removed and store it in `opt.design`.
+ * May exit the program.
+ */
+void detect_design_if_needed();
+
+
 /**
  * Remove box from input.
  * @return == 0: success;
-- 
2.43.0


From 10397bfb78415f3322a5465c774a0dd2b665eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 23/52] fix: requested box size was exceeded for designs with
 open sides

When the requested size did not exceed the design's minimum size, the size of the open sides was added to the minimum
size instead of the requested size.
---
 src/boxes.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 5b18871..40b028d 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -242,26 +242,28 @@ static void handle_config_parsing()
  */
 static void apply_expected_size()
 {
-    if (opt.reqheight > (long) opt.design->minheight) {
-        opt.design->minheight = opt.reqheight;
-    }
-    if (opt.reqwidth > (long) opt.design->minwidth) {
-        opt.design->minwidth = opt.reqwidth;
-    }
     if (opt.reqwidth) {
+        long width = opt.reqwidth;
         if (empty_side(opt.design->shape, BRIG)) {
-            opt.design->minwidth += opt.design->shape[SE].width;
+            width += opt.design->shape[SE].width;
         }
         if (empty_side(opt.design->shape, BLEF)) {
-            opt.design->minwidth += opt.design->shape[NW].width;
+            width += opt.design->shape[NW].width;
+        }
+        if (width > (long) opt.design->minwidth) {
+            opt.design->minwidth = width;
         }
     }
     if (opt.reqheight) {
+        long height = opt.reqheight;
         if (empty_side(opt.design->shape, BTOP)) {
-            opt.design->minheight += opt.design->shape[NW].height;
+            height += opt.design->shape[NW].height;
         }
         if (empty_side(opt.design->shape, BBOT)) {
-            opt.design->minheight += opt.design->shape[SE].height;
+            height += opt.design->shape[SE].height;
+        }
+        if (height > (long) opt.design->minheight) {
+            opt.design->minheight = height;
         }
     }
 }
-- 
2.43.0


From e33ee7e578ced3b9a78d4d59a496593b2981a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 24/52] fix: designs whose west side consists of the north west
 corner only were rejected

The size of the generated south west corner was looked up beyond the end of the shapes array.
---
 src/parsecode.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..e8815bf 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -467,27 +467,31 @@ int action_finalize_shapes(pass_to_bison *bison_args)
     }
 
     for (sc = 0, side = fside; sc < NUM_SIDES; ++sc, side = (side + 1) % NUM_SIDES) {
-        shape_t nshape; /* next shape */
+        sentry_t *nshape = NULL; /* next shape, i.e. one from the side which starts with this corner */
         sentry_t *c;    /* corner to be processed */
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            for (i = 1; i < SHAPES_PER_SIDE && nshape == NULL; ++i) {
+                if (!isempty(curdes.shape + sides[(side + 1) % NUM_SIDES][i])) {
+                    nshape = curdes.shape + sides[(side + 1) % NUM_SIDES][i];
+                }
+            }
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NULL) {
                     c->height = 1;
                 }
                 else {
-                    c->height = c[nshape].height;
+                    c->height = nshape->height;
                 }
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NULL) {
                     c->width = 1;
                 }
                 else {
-                    c->width = c[nshape].width;
+                    c->width = nshape->width;
                 }
                 c->height = curdes.shape[fshape].height;
             }
-- 
2.43.0


From 1fea00cbeef4e914a2d835493b6cb141ebc27216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 25/52] fix: escape sequences were lost when several of them
 preceded a character after the indentation

Of several consecutive escape sequences, only the last one was recorded as
belonging to the following character, so that cutting off the indentation when
drawing a box dropped the others.
---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 246b194..cfa8b48 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -126,7 +126,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
             if (is_csi_reset(rest)) {
                 first_candidate = -1;
             }
-            else {
+            else if (first_candidate < 0) {
                 first_candidate = idx;
             }
         }
-- 
2.43.0


From 9a3f5bac850068ab82bb251ed5895a14fda3477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 26/52] fix: boxes refused to work on terminals that are not in
 the terminfo database

setupterm() terminates the program if it fails and no error variable is given.
---
 src/boxes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 40b028d..7747471 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -437,7 +437,8 @@ static int terminal_has_colors()
         result = 1; /* On Windows, we always assume color capability. */
         UNUSED(termtype);
     #else
-        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, NULL) == OK && tigetnum("colors") >= 8) {
+        int errret = 0;   /* must be passed, as setupterm() would terminate the program on error otherwise */
+        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, &errret) == OK && tigetnum("colors") >= 8) {
             result = 1;
         }
     #endif
-- 
2.43.0


From 0faa1570626dd4d37db46c04d1a47eb07c8c8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 27/52] fix: lines were cut off at byte sequences beyond the
 Unicode range

---
 src/unicode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index b5b6ee3..36f4ecc 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -246,6 +246,14 @@ uint32_t *u32_strconv_from_arg(const char *src, const char *sourceEncoding)
     if (result == NULL) {
         fprintf(stderr, "%s: failed to convert from '%s' to UTF-32: %s\n", PROJECT, sourceEncoding, strerror(errno));
     }
+    else {
+        /* iconv may accept sequences beyond the Unicode range, where all our u32_* functions would stop */
+        for (uint32_t *p = result; *p != char_nul; p++) {
+            if (*p > 0x10ffff || (*p >= 0xd800 && *p < 0xe000)) {
+                *p = '?';
+            }
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From d211366c0b7e26f26757b7f29f70e665ba200be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 28/52] fix: indentation was doubled when removing a box
 without a left side

The indentation was restored although it was never removed.
---
 src/remove.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 283f843..9292364 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1027,8 +1027,8 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
         if (opt.indentmode == 'b' || opt.indentmode == '\0') {
-            /* restore indentation */
-            bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
+            /* restore indentation, unless it is still there because no west side was removed from this line */
+            bxstr_t *temp = bxs_prepend_spaces(temp2, s_idx > 0 ? input.indent : 0);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
             bxs_free(temp2);
-- 
2.43.0


From 8e56dc6fee8a08c945d745d79649932663108340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:38 +0000
Subject: [PATCH 29/52] fix: designs with only a top or only a bottom side
 could not be autodetected

The horizontal shapes of one side were ignored when the opposite side was open.
---
 src/detect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..bff03ff 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -354,7 +354,7 @@ static size_t find_east_corner(design_t *current_design, comparison_t comp_type,
 static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_type, int *empty, shape_t hshape)
 {
     size_t hits = 0;
-    if (empty[BTOP] || empty[BBOT]) {
+    if (empty[hshape >= SSE && hshape <= SSW ? BBOT : BTOP]) {
         /* horizontal box part is empty */
         log_debug(__FILE__, MAIN, "Checking %-3s shape produced %d hits.\n", shape_name[hshape], (int) hits);
         return hits;
-- 
2.43.0


From 47bd4818667ab9bcc77b17fe89494ea8965f65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 30/52] fix: blank lines prevented removal of padding for boxes
 without a left side

---
 src/remove.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 9292364..73f8fd1 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1091,10 +1091,13 @@ static void apply_results_to_input(remove_ctx_t *ctx)
         if (input.lines[j].text->num_columns > input.maxline) {
             input.maxline = input.lines[j].text->num_columns;
         }
-        if (input.lines[j].text->indent < input.indent) {
+        if (input.lines[j].text->indent < input.indent && !empty_line(input.lines + j)) {
             input.indent = input.lines[j].text->indent;
         }
     }
+    if (input.indent == SIZE_MAX) {
+        input.indent = 0;   /* only blank lines */
+    }
     if (ctx->empty_side[BLEF]) {
         /* If the side were not open, default padding would have been removed when the side was removed. */
         remove_default_padding(ctx, BMIN((int) input.indent, opt.design->padding[BLEF]));
-- 
2.43.0


From e9b6654dcce0867e900156caedc7fbc33dd466b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 31/52] fix: removed boxes were indented by the leading blanks
 of their left side

---
 src/remove.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 73f8fd1..5b3e79a 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1011,8 +1011,29 @@ static size_t calculate_end_idx(remove_ctx_t *ctx, size_t body_line_idx)
 
 
 
+/**
+ * Determine the indentation of the box to be removed. Leading blanks which are part of the west side shapes are not
+ * indentation.
+ */
+static size_t get_box_indent()
+{
+    size_t shape_indent = SIZE_MAX;
+    for (size_t i = 0; i < SHAPES_PER_SIDE; i++) {
+        sentry_t *shape = opt.design->shape + west_side[i];
+        for (size_t j = 0; j < shape->height; j++) {
+            if (!bxs_is_blank(shape->mbcs[j])) {
+                shape_indent = BMIN(shape_indent, shape->mbcs[j]->indent);
+            }
+        }
+    }
+    return shape_indent < input.indent ? input.indent - shape_indent : (shape_indent == SIZE_MAX ? input.indent : 0);
+}
+
+
+
 static void remove_vertical_from_input(remove_ctx_t *ctx)
 {
+    const size_t box_indent = get_box_indent();
     for (size_t body_line_idx = 0; body_line_idx < ctx->body_num_lines; body_line_idx++) {
         size_t input_line_idx = ctx->top_end_idx + body_line_idx;
         bxstr_t *org_line = input.lines[input_line_idx].text;
@@ -1028,7 +1049,7 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
         if (opt.indentmode == 'b' || opt.indentmode == '\0') {
             /* restore indentation, unless it is still there because no west side was removed from this line */
-            bxstr_t *temp = bxs_prepend_spaces(temp2, s_idx > 0 ? input.indent : 0);
+            bxstr_t *temp = bxs_prepend_spaces(temp2, s_idx > 0 ? box_indent : 0);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
             bxs_free(temp2);
-- 
2.43.0


From 8791ae2eb7f28d58a8b1eb89d478ad607058d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 32/52] fix: missing mandatory entries of a design went
 unnoticed if another one was repeated

---
 src/parsecode.c | 10 +++++-----
 src/parsecode.h |  6 ++++++
 src/parser.y    |  5 +++--
 src/parsing.c   |  2 +-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index e8815bf..517d2a2 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -255,7 +255,7 @@ static void init_design(pass_to_bison *bison_args, design_t *design)
  */
 void recover(pass_to_bison *bison_args)
 {
-    bison_args->num_mandatory = 0;
+    bison_args->mandatory = 0;
     bison_args->time_for_se_check = 0;
     bison_args->num_shapespec = 0;
 
@@ -541,7 +541,7 @@ int action_finalize_shapes(pass_to_bison *bison_args)
         return RC_ERROR;
     }
 
-    ++(bison_args->num_mandatory);
+    bison_args->mandatory |= MANDATORY_SHAPES;
     if (++(bison_args->time_for_se_check) > 1) {
         if (perform_se_check(bison_args) != 0) {
             return RC_ERROR;
@@ -699,7 +699,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->mandatory != MANDATORY_ALL) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
@@ -708,7 +708,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         return RC_ERROR;
     }
 
-    bison_args->num_mandatory = 0;
+    bison_args->mandatory = 0;
     bison_args->time_for_se_check = 0;
     bison_args->num_shapespec = 0;
 
@@ -923,7 +923,7 @@ int action_sample_block(pass_to_bison *bison_args, bxstr_t *sample)
     }
 
     curdes.sample = line;
-    ++(bison_args->num_mandatory);
+    bison_args->mandatory |= MANDATORY_SAMPLE;
     return RC_SUCCESS;
 }
 
diff --git a/src/parsecode.h b/src/parsecode.h
index a1e72bc..fdbe106 100644
--- a/src/parsecode.h
+++ b/src/parsecode.h
@@ -29,6 +29,12 @@
 #define RC_ABORT 2
 #define RC_ACCEPT 3
 
+/* entries which every design must have */
+#define MANDATORY_SAMPLE 1
+#define MANDATORY_SHAPES 2
+#define MANDATORY_ELASTIC 4
+#define MANDATORY_ALL (MANDATORY_SAMPLE | MANDATORY_SHAPES | MANDATORY_ELASTIC)
+
 /** the current design being parsed */
 #define curdes (bison_args->designs[bison_args->design_idx])
 
diff --git a/src/parser.y b/src/parser.y
index 7c54018..940bf92 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -43,7 +43,8 @@ typedef struct {
     /** the path to the config file we are parsing */
     bxstr_t *config_file;
 
-    int num_mandatory;
+    /** the mandatory entries found so far (combination of `MANDATORY_*` flags) */
+    int mandatory;
 
     int time_for_se_check;
 
@@ -304,7 +305,7 @@ block: YSAMPLE STRING YENDSAMPLE
 
 | YELASTIC '(' elist ')'
     {
-        ++(bison_args->num_mandatory);
+        bison_args->mandatory |= MANDATORY_ELASTIC;
         if (++(bison_args->time_for_se_check) > 1) {
             if (perform_se_check(bison_args) != 0) {
                 YYERROR;
diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..345eb4c 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -136,7 +136,7 @@ static pass_to_bison new_bison_args(bxstr_t *config_file)
     bison_args.num_designs = 0;
     bison_args.design_idx = 0;
     bison_args.config_file = config_file;
-    bison_args.num_mandatory = 0;
+    bison_args.mandatory = 0;
     bison_args.time_for_se_check = 0;
     bison_args.num_shapespec = 0;
     bison_args.skipping = 0;
-- 
2.43.0


From 261be010abdbfef6f695f1dfc7a494ada21eb0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 33/52] fix: crash on control characters in strings of the
 config file

---
 src/lexer.l | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..1d924ab 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,6 +188,10 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                yyerror(NULL, "illegal character in string");
+                return YUNREC;
+            }
             return STRING;
         }
         --rest_len;
@@ -210,12 +214,14 @@ PFILENAME [^\r\n]+
 <PARENT>{PFILENAME} {
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     bxstr_t *bxstr = bxs_from_unicode(utf8);
-    yylval->s = bxs_trim(bxstr);
-
     BFREE(utf8);
-    bxs_free(bxstr);
-
     BEGIN(INITIAL);
+    if (bxstr == NULL) {
+        yyerror(NULL, "illegal character in parent reference");
+        return YUNREC;
+    }
+    yylval->s = bxs_trim(bxstr);
+    bxs_free(bxstr);
     report_state("FILENAM", bxs_to_output(yylval->s), "INITIAL");
     return FILENAME;
 }
@@ -262,6 +268,13 @@ PFILENAME [^\r\n]+
         uint32_t *utf8 = u32_strconv_from_arg(sample, CONFIG_FILE_ENCODING);
         uint32_t *nl = u32_strconv_from_arg("\n", CONFIG_FILE_ENCODING);
         bxstr_t *bxstr = bxs_from_unicode(utf8);
+        if (bxstr == NULL) {
+            yyerror(NULL, "illegal character in SAMPLE block");
+            BFREE(utf8);
+            BFREE(nl);
+            BFREE(sample);
+            return YUNREC;
+        }
         bxstr_t *bxstr2 = bxs_rtrim(bxstr);
         bxs_free(bxstr);
         bxstr = bxs_strcat(bxstr2, nl);
@@ -404,8 +417,9 @@ PFILENAME [^\r\n]+
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     yylval->s = bxs_from_unicode(utf8);
     if (yylval->s == NULL) {
-        perror (PROJECT);
-        exit (EXIT_FAILURE);
+        yyerror(NULL, "illegal character in word");
+        BFREE(utf8);
+        return YUNREC;
     }
     if (is_debug_logging(LEXER)) {
         char *out_utf8 = u32_strconv_to_output(utf8);
-- 
2.43.0


From 33a6ed6ea9e752406265c925e5b00b434e85ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 34/52] fix: elastic shapes were forgotten if the ELASTIC block
 came before the SHAPES block

---
 src/parsecode.c | 1 -
 src/parser.y    | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 517d2a2..c78dae8 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -495,7 +495,6 @@ int action_finalize_shapes(pass_to_bison *bison_args)
                 }
                 c->height = curdes.shape[fshape].height;
             }
-            c->elastic = 0;
             rc = genshape(c->width, c->height, &(c->chars), &(c->mbcs));
             if (rc) {
                 return RC_ABORT;
diff --git a/src/parser.y b/src/parser.y
index 940bf92..5c12742 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -362,7 +362,9 @@ slist_entry: SHAPE shape_def
                 shape_name[$1], (int) $2.width, (int) $2.height);
 
         if (isempty (curdes.shape + $1)) {
+            int elastic = curdes.shape[$1].elastic;   /* the ELASTIC block may have come first */
             curdes.shape[$1] = $2;
+            curdes.shape[$1].elastic = elastic;
             if (!isdeepempty(&($2))) {
                 ++(bison_args->num_shapespec);
             }
-- 
2.43.0


From d0288bd33025b18e178ab2e2ce3268f9acee58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 35/52] fix: config file was read twice if it was its own
 ancestor

---
 src/parsing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing.c b/src/parsing.c
index 345eb4c..5d8b223 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -219,7 +219,8 @@ static int record_parent_config_files(pass_to_bison *bison_args)
     if (bison_args->num_parent_configs > 0) {
         for (int parent_idx = bison_args->num_parent_configs - 1; parent_idx >= 0; parent_idx--) {
             bxstr_t *parent_file = bison_args->parent_configs[parent_idx];
-            int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
+            int is_new = bxs_strcmp(first_config_file, parent_file) != 0
+                    && !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
             if (is_new) {
                 parent_configs = (bxstr_t **) realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *));
                 if (parent_configs == NULL) {
-- 
2.43.0


From 76d56d2438ff844e62bfea42f4cf64c1ee817e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:23 +0000
Subject: [PATCH 36/52] fix: program ended in the scanner if a parent config
 file was a directory

---
 src/parsecode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsecode.c b/src/parsecode.c
index c78dae8..cb1cbd4 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <strings.h>
 #include <unictype.h>
 #include <unistr.h>
@@ -655,7 +656,12 @@ int action_parent_config(pass_to_bison *bison_args, bxstr_t *filepath)
         return RC_ERROR;
     }
     else {
+        struct stat statbuf;
         FILE *f = bx_fopens(filepath, "r");
+        if (f != NULL && fstat(fileno(f), &statbuf) == 0 && S_ISDIR(statbuf.st_mode)) {
+            fclose(f);                /* directories can be opened, but not be read */
+            f = NULL;
+        }
         if (f == NULL) {
             bison_args->skipping = 1;
             yyerror(bison_args, "parent config file not found: %s", bxs_to_output(filepath));
-- 
2.43.0


From f0440b8a55f2721975dc7e6d10d3cb563dd87473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:19 +0000
Subject: [PATCH 37/52] fix: first word of a config file was not recognized
 after a byte order mark

---
 src/lexer.l | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index 1d924ab..8430de2 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -136,6 +136,15 @@ PFILENAME [^\r\n]+
 
 <INITIAL,BOX,DELIMSPEC,ELASTIC,SHAPES>{PWHITE}|{PBOM}  /* ignore whitespace and a byte order mark */
 
+<INITIAL>{PBOM}.* {
+    /*
+     * Byte order mark with something right behind it. Give back everything else, so that the byte order mark does not
+     * become part of the word that follows.
+     */
+    yyless(3);
+}
+
+
 <DELIMSPEC>[^ \t\r\n]+ {
     /*
      * String delimiter spec - like BXWORD, but allow any character
-- 
2.43.0


From 6a46a45140e810493772a24fb23d11ae7e7e6b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:48 +0000
Subject: [PATCH 38/52] fix: comment was not recognized in the last line of a
 config file which does not end with a newline

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 8430de2..1088679 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -453,7 +453,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<INITIAL,BOX,SHAPES,ELASTIC>#.*$ {
+<INITIAL,BOX,SHAPES,ELASTIC>#.* {
     /* ignore comments */
     log_debug(__FILE__, LEXER, "COMMENT: %s\n", yytext + 1);
 }
-- 
2.43.0


From a39d40c23d57d1ebc4a2b8a9a73ab11b8ea6fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:33 +0000
Subject: [PATCH 39/52] fix: designs were rejected if a line of their sample
 ended in "ends"

---
 src/lexer.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 1088679..e9e9d9a 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -97,6 +97,7 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 
 %x BOX
 %x SAMPLE
+%x SAMPLE_END
 %x SHAPES
 %x ELASTIC
 %x DELIMSPEC
@@ -270,6 +271,7 @@ PFILENAME [^\r\n]+
 
     len = p - yytext;                    /* yyless(n): push back all but the first n */
     yyless (len);                        /* allow the lexer to return YENDSAMPLE */
+    BEGIN(SAMPLE_END);
 
     sample[len] = '\n';                  /* replace 'e' with newline */
     btrim(sample, &len);
@@ -305,7 +307,7 @@ PFILENAME [^\r\n]+
 
 <SAMPLE>. yymore();
 
-<SAMPLE>ends[ \t\r]*$ {
+<SAMPLE_END>ends[ \t\r]*$ {
     /* reached because the other rule pushes it back so a proper end token can be returned */
     BEGIN(BOX);
     report_state("YENDSAM", yytext, "BOX");
-- 
2.43.0


From 17b6baa92309b7e0c34a7f6c70ff3f3f34970fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:07 +0000
Subject: [PATCH 40/52] fix: memory was overwritten when a line of the config
 file was longer than 16 kB

---
 src/lexer.l | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index e9e9d9a..b340afa 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -484,7 +484,15 @@ void inflate_inbuf(void *yyscanner, const bxstr_t *configfile)
     BFREE(utf8);
     struct yyguts_t *yyg = (struct yyguts_t *) yyscanner;
     yy_delete_buffer(YY_CURRENT_BUFFER, yyscanner);
-    yy_switch_to_buffer (yy_create_buffer(yyin, sinf.st_size+10, yyscanner), yyscanner);
+    const size_t bufsize = sinf.st_size > YY_BUF_SIZE ? sinf.st_size + 10 : YY_BUF_SIZE;
+    yy_switch_to_buffer (yy_create_buffer(yyin, bufsize, yyscanner), yyscanner);
+
+    /* The stack of states needed by REJECT must be able to hold the longest possible token, too. */
+    yyg->yy_state_buf = (yy_state_type *) yyalloc((bufsize + 2) * sizeof(yy_state_type), yyscanner);
+    if (yyg->yy_state_buf == NULL) {
+        perror (PROJECT);
+        exit (EXIT_FAILURE);
+    }
     BEGIN(INITIAL);
 }
 
-- 
2.43.0


From 4a4cacfdd3fc54fcacf4a036a97960d37ee5405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:12 +0000
Subject: [PATCH 41/52] fix: strings in the last line of a config file were not
 recognized without a newline at the end

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index b340afa..f08e25c 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -161,7 +161,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<BOX,SHAPES>{SDELIM}.*$ {
+<BOX,SHAPES>{SDELIM}.* {
     /*
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
-- 
2.43.0


From 8a339cd6dfa52ce7e5b2061ddd585e3da731aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 42/52] fix: huge numbers in -p and -t arguments were silently
 truncated to 32 bits

---
 src/cmdline.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 185cccf..d3dacc8 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <strings.h>
@@ -371,8 +372,9 @@ static int padding(opt_t *result, char *optarg)
         }
         char c = *p;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        const long num = strtol(p + 1, &p, 10);
+        const int size = (int) num;
+        if (errno || num < 0 || num > INT_MAX) {
             errfl = 1;
             break;
         }
@@ -533,12 +535,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    const long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From 9285021b2801be5b765b8a74ff53fabe0f0af1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 43/52] fix: -t with only a number did not reset the tab
 handling of an earlier -t option

---
 src/cmdline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index d3dacc8..c7404a5 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -541,6 +541,7 @@ static int tab_handling(opt_t *result, char *optarg)
         return 1;
     }
     result->tabstop = (int) width;
+    result->tabexp = 'e';        /* assumed if only a number is given, even when another -t came before */
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From c639f572c8c07054826aa733c87af0967ed39771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 44/52] fix: an invalid size was accepted when an earlier -s
 option was valid

---
 src/cmdline.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index c7404a5..059c11a 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -462,17 +462,23 @@ static int size_of_box(opt_t *result, char *optarg)
         *p = '\0';
     }
     errno = 0;
-    if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
-    }
+    const int has_width = optarg != p;
+    long width = has_width ? strtol(optarg, NULL, 10) : 0;
+    long height = 0;
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        height = strtol(p + 1, NULL, 10);
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || (width == 0 && height == 0) || width < 0 || height < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
+    if (has_width) {
+        result->reqwidth = width;
+    }
+    if (p) {
+        result->reqheight = height;
+    }
     return 0;
 }
 
-- 
2.43.0


From 6aa59da7df6a21c35ed80d7703c0be66d1ca51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 45/52] fix: command line design definition with line breaks
 was accepted and broke the box

---
 src/cmdline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index 059c11a..125053c 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -243,6 +243,10 @@ static int command_line_design(opt_t *result, char *optarg)
         bx_fprintf(stderr, "%s: empty command line design definition\n", PROJECT);
         return 2;
     }
+    if (strpbrk(optarg, "\r\n") != NULL) {
+        bx_fprintf(stderr, "%s: command line design definition must consist of exactly one line\n", PROJECT);
+        return 2;
+    }
     result->cld = (char *) strdup(optarg);
     if (result->cld == NULL) {
         perror(PROJECT);
-- 
2.43.0


From 19701807aa901ea7a4d28c44b7a59f538c93c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 46/52] fix: null bytes in strings and samples of a config file
 caused out-of-bounds memory access

---
 src/lexer.l | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index f08e25c..6d27b2d 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -166,7 +166,7 @@ PFILENAME [^\r\n]+
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
      */
-    int rest_len = yyleng - 1;           /* length of string pointed to by p */
+    int rest_len;                        /* length of string pointed to by p */
     int qcnt = 0;                        /* esc char count in current string */
 
     if (yytext[0] != yyextra->sdel) {
@@ -179,6 +179,7 @@ PFILENAME [^\r\n]+
         exit (EXIT_FAILURE);
     }
     char *p = str;
+    rest_len = strlen(str);              /* less than yyleng - 1 if there are null bytes */
 
     while (*p) {
         if (*p == yyextra->sesc) {
@@ -273,6 +274,11 @@ PFILENAME [^\r\n]+
     yyless (len);                        /* allow the lexer to return YENDSAMPLE */
     BEGIN(SAMPLE_END);
 
+    if (strlen(sample) <= len) {         /* cut short by a null byte */
+        yyerror(NULL, "illegal character in SAMPLE block");
+        BFREE(sample);
+        return YUNREC;
+    }
     sample[len] = '\n';                  /* replace 'e' with newline */
     btrim(sample, &len);
     if (len > 0) {
-- 
2.43.0


From f540fba0bee912a98d516c9e091c40cc05ea4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 47/52] fix: crash when input could not be converted from its
 character encoding

---
 src/input.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input.c b/src/input.c
index ce67cd4..4ac5518 100644
--- a/src/input.c
+++ b/src/input.c
@@ -246,6 +246,11 @@ input_t *read_all_input()
         memset(result->lines + result->num_lines, 0, sizeof(line_t));
 
         uint32_t *mbtemp = u32_strconv_from_input(buf);
+        if (mbtemp == NULL) {
+            BFREE(result->lines);
+            BFREE(result);
+            return NULL;   /* conversion failed, error message was already printed */
+        }
         size_t len_chars = u32_strlen(mbtemp);
         result->final_newline = has_linebreak(mbtemp, len_chars);
         trim_trailing_ws_carefully(mbtemp, &len_chars);
-- 
2.43.0


From 15cba0bf0846856acc327915933ba5e2a3c8941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 48/52] fix: crash when a replacement rule produced an illegal
 character

---
 src/input.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input.c b/src/input.c
index 4ac5518..12f94d4 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;   /* illegal character, error message was already printed */
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
-- 
2.43.0


From aa825f7a13a9ce6275b049100a5ca8f2a39ab58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 49/52] fix: case conversion in replacement rules read out of
 bounds for non-Latin characters

---
 src/regulex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regulex.c b/src/regulex.c
index e4b204d..1b1bb2d 100644
--- a/src/regulex.c
+++ b/src/regulex.c
@@ -54,7 +54,7 @@ pcre2_code *u32_compile_pattern(uint32_t *pattern)
     pcre2_code *re = pcre2_compile(
             (PCRE2_SPTR) pattern,    /* the pattern */
             PCRE2_ZERO_TERMINATED,   /* indicates pattern is zero-terminated */
-            0,                       /* default options */
+            PCRE2_UTF,               /* patterns and subjects are UTF-32 strings */
             &errornumber,
             &erroroffset,
             NULL);                   /* use default compile context */
-- 
2.43.0


From fbee7481c59ec3313fd1edf33393eb865ae47d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 50/52] fix: invalid escapes in conditional replacements caused
 out-of-bounds memory access

---
 src/regulex.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/regulex.c b/src/regulex.c
index 1b1bb2d..1fa14b9 100644
--- a/src/regulex.c
+++ b/src/regulex.c
@@ -114,6 +114,9 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
     PCRE2_SIZE bufsize = (input_len < 8) ? 16 : outlen;
     uint32_t *output = (uint32_t *) malloc(sizeof(uint32_t) * bufsize); /* output buffer */
     int pcre2_rc;
+    if (output != NULL) {
+        memset(output, 0xff, sizeof(uint32_t) * bufsize);
+    }
 
     int done = 0;
     while (!done) {
@@ -121,7 +124,7 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
             fprintf(stderr, "out of memory");
             return NULL;
         }
-        PCRE2_SIZE outlen = bufsize;
+        outlen = bufsize;
 
         pcre2_rc = pcre2_substitute(search,
                 (PCRE2_SPTR) input, PCRE2_ZERO_TERMINATED,
@@ -142,7 +145,13 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
         }
     }
 
-    if (pcre2_rc < 0) {
+    /*
+     * PCRE2 does not set the output, but returns a positive error code, when there is an invalid escape sequence
+     * inside of a conditional replacement such as ${1:+...}.
+     */
+    int no_output = pcre2_rc >= 0 && (outlen >= bufsize || output[outlen] != char_nul);
+
+    if (pcre2_rc < 0 || no_output) {
         PCRE2_UCHAR buffer[256];
         pcre2_get_error_message(pcre2_rc, buffer, sizeof(buffer));
         /* buffer will normally contain "invalid replacement string" */
-- 
2.43.0


From ec464fa671d9edb76f2d5e7bae5068e725d61c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 51/52] fix: detect box designs whose shapes have blanks next
 to the blank part of a box side

---
 src/detect.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index bff03ff..5af1c92 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -269,6 +269,8 @@ static size_t find_west_corner(design_t *current_design, comparison_t comp_type,
 
         uint32_t *shape_relevant = prepare_comp_shape(current_design, corner, j, comp_type, 1, 0);
         size_t length_relevant = u32_strlen(shape_relevant);
+        /* trailing blanks of the shape are missing in the input if the rest of the line is blank */
+        uint32_t *shape_trimmed = prepare_comp_shape(current_design, corner, j, comp_type, 1, 1);
 
         for (size_t k = 0; k < current_design->shape[corner].height; ++k) {
             size_t a = k;
@@ -280,11 +282,13 @@ static size_t find_west_corner(design_t *current_design, comparison_t comp_type,
             }
 
             uint32_t *input_relevant = prepare_comp_input(a, 1, comp_type, 0, NULL, NULL);
-            if (u32_strncmp(input_relevant, shape_relevant, length_relevant) == 0) {
+            if (u32_strncmp(input_relevant, shape_relevant, length_relevant) == 0
+                    || u32_strcmp(input_relevant, shape_trimmed) == 0) {
                 ++hits; /* CHECK more hit points for longer matches, or simple boxes might match too easily */
             }
         }
         BFREE(shape_relevant);
+        BFREE(shape_trimmed);
     }
 
     log_debug(__FILE__, MAIN, "Checking %s corner produced %d hits.\n", shape_name[corner], (int) hits);
@@ -369,6 +373,15 @@ static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_
         uint32_t *shape_relevant = prepare_comp_shape(current_design, hshape, j, comp_type,
                 is_blankward(current_design, hshape, j, 1),
                 is_blankward(current_design, hshape, j, 0));
+        uint32_t *shape_next = NULL;  /* the second one of two elastic shapes in a row */
+        if (current_design->shape[hshape].elastic) {
+            /* blanks between the two are present even if nothing but blanks precedes or follows them */
+            BFREE(shape_relevant);
+            shape_relevant = prepare_comp_shape(current_design, hshape, j, comp_type,
+                    is_blankward(current_design, hshape, j, 1), 0);
+            shape_next = prepare_comp_shape(current_design, hshape, j, comp_type,
+                    0, is_blankward(current_design, hshape, j, 0));
+        }
         size_t length_relevant = u32_strlen(shape_relevant);
 
         for (size_t k = 0; k < current_design->shape[hshape].height; ++k) {
@@ -388,7 +401,7 @@ static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_
                     if (p - input_relevant >= (long) u32_strlen(input_relevant)) {
                         continue;
                     }
-                    if (u32_strncmp(p, shape_relevant, length_relevant) == 0) {
+                    if (u32_strncmp(p, shape_next, u32_strlen(shape_next)) == 0) {
                         ++hits;
                     }
                 }
@@ -398,6 +411,7 @@ static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_
             }
         }
         BFREE(shape_relevant);
+        BFREE(shape_next);
     }
 
     log_debug(__FILE__, MAIN, "Checking %-3s shape produced %d hits.\n", shape_name[hshape], (int) hits);
-- 
2.43.0


From e75fc0f1b1a0f1e725513962d7e8da0aa6979c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:42 +0000
Subject: [PATCH 52/52] fix: text was lost at the end of long lines, or when
 tabs made a line long

---
 src/input.c |  3 ++-
 src/tools.c | 35 ++++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/input.c b/src/input.c
index 12f94d4..68949ec 100644
--- a/src/input.c
+++ b/src/input.c
@@ -20,6 +20,7 @@
 #include "config.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistr.h>
 #include <unitypes.h>
@@ -61,7 +62,7 @@ static int has_linebreak(const uint32_t *s, const int len)
  */
 static int get_indent(const line_t *lines, const size_t lines_size)
 {
-    int res = LINE_MAX_BYTES; /* result */
+    int res = INT_MAX;        /* result */
     int nonblank = 0;         /* true if one non-blank line found */
 
     if (lines == NULL) {
diff --git a/src/tools.c b/src/tools.c
index 4342808..eb21187 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -221,27 +221,30 @@ int empty_line(const line_t *line)
 size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_t **text, size_t **tabpos,
         size_t *tabpos_len)
 {
-    static uint32_t temp[LINE_MAX_BYTES + 100]; /* work string */
+    uint32_t *temp;                             /* work string */
     size_t io;                                  /* character position in work string */
     size_t col = 0;                             /* column on screen which corresponds to `io` */
     size_t invisible = 0;                       /* number of chars left in current escape sequence */
     size_t tabnum = 0;                          /* index of the current tab */
+    size_t num_tabs = 0;                        /* total number of tabs in the input */
 
     *text = NULL;
     *tabpos = NULL;
     *tabpos_len = 0;
 
+    ucs4_t puc;
+    const uint32_t *rest = input_buffer;
+    while ((rest = u32_next(&puc, rest))) {
+        if (puc == char_tab) {
+            num_tabs++;
+        }
+    }
+
     if (opt.tabexp == 'k') {
         /* We need to know the exact tab positions only if expansion type 'k' is requested (keep tabs as much as they
          * were as possible). Else we'll just convert spaces and tabs without having to know where exactly the tabs
          * were in the first place. */
-        ucs4_t puc;
-        const uint32_t *rest = input_buffer;
-        while ((rest = u32_next(&puc, rest))) {
-            if (puc == char_tab) {
-                (*tabpos_len)++;
-            }
-        }
+        *tabpos_len = num_tabs;
     }
 
     if (*tabpos_len > 0) {
@@ -251,10 +254,15 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
         }
     }
 
-    ucs4_t puc;
-    const uint32_t *rest = input_buffer;
+    temp = (uint32_t *) calloc(u32_strlen(input_buffer) + num_tabs * tabstop + 1, sizeof(uint32_t));
+    if (temp == NULL) {
+        BFREE(*tabpos);
+        return 0; /* out of memory */
+    }
+
+    rest = input_buffer;
     io = 0;
-    while ((rest = u32_next(&puc, rest)) && io < (LINE_MAX_BYTES - 12)) {
+    while ((rest = u32_next(&puc, rest))) {
         if (puc == char_tab) {
             if (*tabpos_len > 0) {
                 (*tabpos)[tabnum++] = io;
@@ -281,10 +289,7 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
     }
     temp[io] = 0;
 
-    *text = u32_strdup(temp);
-    if (*text == NULL) {
-        return 0;
-    }
+    *text = temp;
     return io;
 }
 
-- 
2.43.0

