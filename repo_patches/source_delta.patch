From 642d509d6fa42f54c0075dac0bbe271bfcba39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 01/56] fix: report an unclosed ( comment at end of file
 instead of looping forever

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0042c2b..60b00d8 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed comment at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 336e7c6a074e0417dc8360aefa3ee9eec1440969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 02/56] fix: a zoi or la'o at the very end of the text is an
 unclosed construction, not silently dropped

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 60b00d8..70b16f1 100644
--- a/lex1.c
+++ b/lex1.c
@@ -458,7 +458,7 @@ parse_file(FILE *f)
 
 done:
 
-  if (zoi_data) {
+  if (zoi_data || zoi_delim_next) {
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
-- 
2.43.0


From 1076b03092bb214326d5c66001fa1b9eddaf1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 03/56] fix: zoi delimiter buffer must hold any word the lexer
 can produce

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 70b16f1..76b32e6 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,7 +20,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char zoi_delim[65536]; /* any word can be the delimiter */
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
-- 
2.43.0


From c176fa6783b14a0c9be3affaf0f3e4c89b2d6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 04/56] fix: overlong words must not overflow the lexer's word
 buffer

---
 lex1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lex1.c b/lex1.c
index 76b32e6..4893586 100644
--- a/lex1.c
+++ b/lex1.c
@@ -449,6 +449,12 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
+            if (p >= buffer + sizeof(buffer) - 1) {
+              fprintf(stderr, "Word too long at line %d column %d\n",
+                      start_line, start_column);
+              had_bad_tokens = 1;
+              p = buffer;
+            }
             *p++ = c;
             break;
         }
-- 
2.43.0


From 3acbde494934a2e7b7f03a659fd2cfb7408ff1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 05/56] fix: names with many embedded la/doi must not exhaust
 the stack

---
 lex1.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lex1.c b/lex1.c
index 4893586..b37facb 100644
--- a/lex1.c
+++ b/lex1.c
@@ -185,7 +185,8 @@ process_cmene(char *buf, int start_line, int start_column,
   TreeNode *tok;
 
   if (is_bad)  {
-    char prefix[65536], labuf[8];
+    char *prefix = new_array(char, strlen(buf) + 1);
+    char labuf[8];
     char *p, *q;
     int len1, len2;
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
@@ -196,6 +197,7 @@ process_cmene(char *buf, int start_line, int start_column,
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
     process_word(tail, start_line, start_column+len1+len2);
+    Free(prefix);
   } else {
     tok = new_node();
     tok->start_line = start_line;
@@ -241,9 +243,11 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
+  /* On the heap : this function is called recursively for bad cmene, once per
+     embedded la/lai/doi. */
+  char *buf2;
   TreeNode *tok;
-  char *word_starts[65536];
+  char **word_starts;
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -295,6 +299,8 @@ process_word(char *buf, int start_line, int start_column)
 
   /* Analyse word type */
   
+  buf2 = new_array(char, strlen(buf) + 1);
+  word_starts = new_array(char *, 2 * strlen(buf) + 1);
   pws = pwe = word_starts;
   /* FIXME: Need to get morf_xtra info back here, to help with splitting bad
    * cmene */
@@ -357,6 +363,8 @@ process_word(char *buf, int start_line, int start_column)
       assert(0);
       break;
   }
+  Free(word_starts);
+  Free(buf2);
   return 1;
 }
 
-- 
2.43.0


From 07d9a9e6082ab76c7249682601310417a61e5f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 06/56] fix: commas inside an embedded la/lai/doi of a name
 must not overflow its buffer

---
 lex1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index b37facb..618c191 100644
--- a/lex1.c
+++ b/lex1.c
@@ -186,7 +186,7 @@ process_cmene(char *buf, int start_line, int start_column,
 
   if (is_bad)  {
     char *prefix = new_array(char, strlen(buf) + 1);
-    char labuf[8];
+    char *labuf = new_array(char, strlen(buf) + 1);
     char *p, *q;
     int len1, len2;
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
@@ -197,6 +197,7 @@ process_cmene(char *buf, int start_line, int start_column,
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
     process_word(tail, start_line, start_column+len1+len2);
+    Free(labuf);
     Free(prefix);
   } else {
     tok = new_node();
-- 
2.43.0


From 0510f03a714f5d64d9caeb5f6f89b32a9bbc1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 07/56] fix: a bu with nothing before it is a user error, not
 an assertion failure

---
 lex2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex2.c b/lex2.c
index 133f5f4..b2162c6 100644
--- a/lex2.c
+++ b/lex2.c
@@ -585,6 +585,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From 0f8ac524afc209d42c3c568086be019cb75a01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 08/56] fix: an empty lo'u le'u quotation is not an assertion
 failure

---
 lex2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index b2162c6..7ae112b 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,8 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("") :
+                          build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From 7e09b1cf8d8757836bbf9807fa1ce5d2533500b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 09/56] fix: a lo'u quotation can be a zei component

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 7ae112b..c56e56c 100644
--- a/lex2.c
+++ b/lex2.c
@@ -232,9 +232,12 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         len += strlen(DEFECTIVE_ERASURE);
         break;
      
+      case N_LOhU:
+        len += 7 + strlen(y->data.lohu.text);
+        break;
+
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -285,9 +288,14 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, DEFECTIVE_ERASURE);
         break;
      
+      case N_LOhU:
+        strcat(result, "lo'u+\"");
+        strcat(result, y->data.lohu.text);
+        strcat(result, "\"");
+        break;
+
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From a40905c53c98ee823a3a422a53a314cfdb877059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 10/56] fix: an incomplete tense at the end of the text must
 not crash

---
 categ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/categ.c b/categ.c
index 4377bd1..4bb2ebe 100644
--- a/categ.c
+++ b/categ.c
@@ -377,7 +377,10 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
         goto next_outer_loop;
       }
     }
-    if (y == head) {
+    if (y == head && !last_ok_token) {
+      /* Run to end of text without completing a tense */
+      next_tok = x->next;
+    } else if (y == head) {
       /* Run to end of text */
       insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
       insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-- 
2.43.0


From 06180f6a42a9c59ef04937a33c1ddb78a65e0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 11/56] fix: deeply nested texts must not overflow the
 reduction trace

---
 tracebk.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index 3a8a022..6528f18 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,8 +17,9 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
+static Reduction *reductions=NULL;
 static int n_reductions=0;
+static int max_reductions=0;
 
 /* command line options in main.c */
 extern int show_backtrace;
@@ -52,6 +53,15 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
+  if (n_reductions >= max_reductions) {
+    if (reductions) {
+      max_reductions *= 2;
+      reductions = (Reduction *) Realloc(reductions, max_reductions * sizeof(Reduction));
+    } else {
+      max_reductions = 1024;
+      reductions = new_array(Reduction, max_reductions);
+    }
+  }
   reductions[n_reductions].rule = ruleno;
   reductions[n_reductions].state = stateno;
   n_reductions++;
-- 
2.43.0


From 5c0d020c8dd712f54870e2b587eed00734d571f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:36 +0000
Subject: [PATCH 12/56] fix: sentences with many terms or conversions must not
 overflow the place tables

---
 terms.c | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/terms.c b/terms.c
index af6a9cf..b624ae6 100644
--- a/terms.c
+++ b/terms.c
@@ -19,8 +19,6 @@
 #include "cmavotab.h"
 /*}}}*/
 
-#define MAX_TERMS_IN_VECTOR 20
-
 /* Maximum argument position.  Even the most horrific abstraction or
    lujvo would be pushed to get this many args!!! */
 
@@ -48,7 +46,7 @@ typedef struct TermVectorEntry{
 
 typedef struct TermVector{
   int n_nodes;
-  TermVectorEntry nodes[MAX_TERMS_IN_VECTOR];
+  TermVectorEntry *nodes;
 } TermVector;
 
 /*+ Enumeration tags for the LinkConvEntry type. +*/
@@ -81,7 +79,7 @@ typedef struct {
   selbri3 KE'E BE links' constructions, which could recurse a lot. +*/
 typedef struct {
   int n;
-  LinkConvEntry e[MAX_TERMS_IN_VECTOR];
+  LinkConvEntry *e;
 } LinkConv;
 /*}}}*/
 /* Forward prototypes *//*{{{*/
@@ -93,6 +91,7 @@ static void process_selbri_3_args(TreeNode *s3, TermVector *pre, TermVector *pos
 static void tv_init(TermVector *tv)/*{{{*/
 {
   tv->n_nodes = 0;
+  tv->nodes = NULL;
 }
 /*}}}*/
 static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
@@ -101,15 +100,11 @@ static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
   int i, n1, n2;
   tn = s1->n_nodes + s2->n_nodes;
 
-  /* If this is exceeded, we'll need to reassess the design.  Really
-     ought to make the arrays dynamic but that incurs hassle of
-     releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
-
   n1 = s1->n_nodes;
   n2 = s2->n_nodes;
 
   r->n_nodes = tn;
+  r->nodes = new_array(TermVectorEntry, tn);
 
   for (i=0; i<n1; i++) {
     r->nodes[i] = s1->nodes[i];
@@ -128,6 +123,7 @@ static void tv_reverse(TermVector *dest, TermVector *src)/*{{{*/
   assert(dest != src); /* Not designed to cope with this case */
 
   n = dest->n_nodes = src->n_nodes;
+  dest->nodes = new_array(TermVectorEntry, n);
 
   for (i=0; i<n; i++) {
     dest->nodes[i] = src->nodes[n-1-i];
@@ -137,12 +133,19 @@ static void lc_init(LinkConv *lc)/*{{{*/
 {
   /* Initialise a linkconv list to empty */
   lc->n = 0;
+  lc->e = NULL;
+}
+/*}}}*/
+static void lc_make_room(LinkConv *lc)/*{{{*/
+{
+  /* Make sure one more entry can be appended */
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
 }
 /*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_make_room(lc);
 
   lc->e[lc->n].data.se.conv = conv;
   lc->e[lc->n].data.se.senode = senode;
@@ -152,7 +155,7 @@ static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_make_room(lc);
 
   lc->e[lc->n].data.jai_tag.tag = tag;
   lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
@@ -163,7 +166,7 @@ static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_make_room(lc);
 
   lc->e[lc->n].type = LC_JAI;
   ++(lc->n);
@@ -174,7 +177,7 @@ static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
      made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_make_room(lc);
   lc->e[lc->n].data.links = new(TermVector);
 
   /* Deep structure copy */
@@ -191,7 +194,13 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   produce a local copy onto which extra terms can be appended, rather than to
   make a completely general copy.  */
   
-  *dest = *src;
+  int i;
+
+  dest->n = src->n;
+  dest->e = new_array(LinkConvEntry, src->n);
+  for (i=0; i<src->n; i++) {
+    dest->e[i] = src->e[i];
+  }
 }
 /*}}}*/
 static int recover_se_conv(TreeNode *x)/*{{{*/
@@ -325,6 +334,8 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
     /* Now, what sort of term is it? Have to drill down one layer further */
     tc = t->data.nonterm.children[0];
 
+    vv.nodes = grow_array(TermVectorEntry, vv.n_nodes + 1, vv.nodes);
+
     switch (tc->data.nonterm.type) {
       case TERM_PLAIN_SUMTI:
         vv.nodes[vv.n_nodes].type = TRM_POS;
@@ -531,8 +542,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while (base < MAX_POS && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -664,7 +675,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -683,7 +694,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -1595,6 +1606,8 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
       /* Now, what sort of term is it? Have to drill down one layer further */
       tc = child_ref(tm, 0);
 
+      tv.nodes = grow_array(TermVectorEntry, tv.n_nodes + 1, tv.nodes);
+
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
           tv.nodes[tv.n_nodes].type = TRM_POS;
-- 
2.43.0


From e9900d18de8a41f6d4821babb1fa1fb116144462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:36 +0000
Subject: [PATCH 13/56] fix: a GIhA KE tail without tail terms used an
 uninitialised term vector

---
 terms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index b624ae6..1afd0c2 100644
--- a/terms.c
+++ b/terms.c
@@ -1354,11 +1354,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
-- 
2.43.0


From 2f848e8397df10ce438eeee8c6b66324ec0a028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 14/56] fix: glossing an intensified attitudinal must not crash
 when the dictionary lacks the modifier

---
 output.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/output.c b/output.c
index dad7fd5..f0872df 100644
--- a/output.c
+++ b/output.c
@@ -369,35 +369,38 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
 
   xci = prop_cai_indicator(x, NO);
   if (xci) {
+    trans = NULL;
     switch (xci->code) {
       case CC_CAI:
-        strcpy(buffer, translate("cai"));
+        trans = translate("cai");
         break;
       case CC_SAI:
-        strcpy(buffer, translate("sai"));
+        trans = translate("sai");
         break;
       case CC_RUhE:
-        strcpy(buffer, translate("ru'e"));
+        trans = translate("ru'e");
         break;
       case CC_CUhI:
-        strcpy(buffer, translate("cu'i"));
+        trans = translate("cu'i");
         break;
       case CC_RUhENAI:
-        strcpy(buffer, translate("ru'enai"));
+        trans = translate("ru'enai");
         break;
       case CC_SAINAI:
-        strcpy(buffer, translate("sainai"));
+        trans = translate("sainai");
         break;
       case CC_CAINAI:
-        strcpy(buffer, translate("cainai"));
+        trans = translate("cainai");
         break;
       case CC_PEI:
-        strcpy(buffer, translate("pei"));
+        trans = translate("pei");
         break;
       case CC_PEINAI:
-        strcpy(buffer, translate("peinai"));
+        trans = translate("peinai");
         break;
     }
+    /* There may be no dictionary entry (or no dictionary at all) */
+    strcpy(buffer, trans ? trans : "");
     strcat(buffer, " ");
   } else {
     buffer[0] = 0;
-- 
2.43.0


From dd23e8f7a7256b3373d551a9973db39c92ffcda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 15/56] fix: the nai of a 'cu'i nai' modifier was lost from the
 output

---
 lex2.c   | 5 +++--
 nodes.h  | 3 ++-
 output.c | 4 ++++
 tree.c   | 6 ++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lex2.c b/lex2.c
index c56e56c..70224c4 100644
--- a/lex2.c
+++ b/lex2.c
@@ -810,8 +810,9 @@ pair_off_indicator_suffixes(void)
               xci->code = CC_RUhENAI;
               break;
             case CC_CUhI:
-              /* Nothing to do, this is the neutral case so you
-                 can't invert it */
+              /* This is the neutral case so you can't invert it, but the
+                 word still has to be shown. */
+              xci->code = CC_CUhINAI;
               break;
             case CC_PEI:
               xci->code = CC_PEINAI;
diff --git a/nodes.h b/nodes.h
index 0ae7430..186d59f 100644
--- a/nodes.h
+++ b/nodes.h
@@ -286,7 +286,8 @@ typedef struct x_caiindicator {
     CC_SAINAI,
     CC_CAINAI,
     CC_PEI,
-    CC_PEINAI
+    CC_PEINAI,
+    CC_CUhINAI
   } code;
 } XCaiIndicator;
 
diff --git a/output.c b/output.c
index f0872df..48a8154 100644
--- a/output.c
+++ b/output.c
@@ -381,6 +381,7 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
         trans = translate("ru'e");
         break;
       case CC_CUhI:
+      case CC_CUhINAI:
         trans = translate("cu'i");
         break;
       case CC_RUhENAI:
@@ -446,6 +447,9 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
       case CC_PEI:
         strcat(loj, " pei");
         break;
+      case CC_CUhINAI:
+        strcat(loj, " cu'inai");
+        break;
       case CC_PEINAI:
         strcat(loj, " peinai");
         break;
diff --git a/tree.c b/tree.c
index 661d06a..56dbcf5 100644
--- a/tree.c
+++ b/tree.c
@@ -169,6 +169,11 @@ print_tree(TreeNode *x, int indent)
                   printf("CMAVO : pei [CAI]\n");
                   show_indent(indent);
                   printf("CMAVO : nai [NAI]\n"); break;
+                case CC_CUhINAI:
+                  show_indent(indent);
+                  printf("CMAVO : cu'i [CAI]\n");
+                  show_indent(indent);
+                  printf("CMAVO : nai [NAI]\n"); break;
               }
             }
           } else if (cmavo_table[code].selmao == CAI) {
@@ -384,6 +389,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_SAINAI: printf(" sai nai"); break;
                 case CC_RUhENAI: printf(" ru'e nai"); break;
                 case CC_PEINAI: printf(" pei"); break;
+                case CC_CUhINAI: printf(" cu'i nai"); break;
               }
             }
           } else if (cmavo_table[code].selmao == CAI) {
-- 
2.43.0


From ff8b4d5189d31499a2ba820c19a797ad25fed5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 16/56] fix: nai and cai modifiers of indicators other than UI
 were lost from the output

---
 output.c | 11 +++++++++++
 tree.c   | 23 +++++++++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/output.c b/output.c
index 48a8154..c5e9635 100644
--- a/output.c
+++ b/output.c
@@ -765,6 +765,17 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
           translate_indicator(x, loj, eng);
           break;
 
+        case Y:
+        case DAhO:
+        case FUhE:
+        case FUhO:
+          if (prop_neg_indicator(x, NO) || prop_cai_indicator(x, NO)) {
+            translate_indicator(x, loj, eng);
+          } else {
+            translate_other_cmavo(x, eng);
+          }
+          break;
+
         case JAI:
           translate_jai(x, eng);
           break;
diff --git a/tree.c b/tree.c
index 56dbcf5..45b1fa3 100644
--- a/tree.c
+++ b/tree.c
@@ -88,6 +88,17 @@ show_indent(int indent)
   }
 }
 
+/*++++++++++++++++++++++++++++++
+  Test for the selma'o that lex2.c pairs off with a following NAI and/or CAI.
+  ++++++++++++++++++++++++++++++*/
+
+static int
+is_indicator_selmao(int selmao)
+{
+  return (selmao == UI) || (selmao == CAI) || (selmao == Y) ||
+         (selmao == DAhO) || (selmao == FUhE) || (selmao == FUhO);
+}
+
 
 /*++++++++++++++++++++++++++++++
   
@@ -125,7 +136,7 @@ print_tree(TreeNode *x, int indent)
         } else {
           printf("CMAVO : %s [%s]\n", cmavo_table[code].cmavo,
                                       selmao_names[cmavo_table[code].ssm_code]);
-          if (cmavo_table[code].selmao == UI) {
+          if (is_indicator_selmao(cmavo_table[code].selmao)) {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               show_indent(indent);
@@ -176,10 +187,6 @@ print_tree(TreeNode *x, int indent)
                   printf("CMAVO : nai [NAI]\n"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf("CMAVO : nai [NAI]\n");
-            }
           }
         }
       }
@@ -372,7 +379,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
         } else {
           int code = x->data.cmavo.code;
           printf("%s", cmavo_table[code].cmavo);
-          if (cmavo_table[code].selmao == UI) {
+          if (is_indicator_selmao(cmavo_table[code].selmao)) {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               printf(" nai");
@@ -392,10 +399,6 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_CUhINAI: printf(" cu'i nai"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf(" nai");
-            }
           }
         }
         if (do_glossing) {
-- 
2.43.0


From 6a9da758e124e280b7b140b67c410270cf8345cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 17/56] fix: a trailing -w option without its argument must not
 crash

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 0ab9ae2..23467ba 100644
--- a/main.c
+++ b/main.c
@@ -211,6 +211,10 @@ main (int argc, char **argv)
       } else {
         /* Get next argument */
         --argc, ++argv;
+        if (argc <= 0) {
+          fprintf(stderr, "The -w option requires a width\n");
+          exit(1);
+        }
         opt_output_width = atoi(*argv);
       }
     } else if (!strcmp(*argv, "--help")) {
-- 
2.43.0


From 4cae49592783f032069cb2e1f1513fe112b77e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 18/56] fix: words following a digit were reported at the
 digit's position

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 618c191..f8cb51e 100644
--- a/lex1.c
+++ b/lex1.c
@@ -433,11 +433,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From ccf13582cd38731810ed91153c89b33c855c3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 19/56] fix: a ba'e in front of a bu, nai or cai absorbed by
 its neighbour was lost

---
 lex2.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lex2.c b/lex2.c
index 70224c4..1581719 100644
--- a/lex2.c
+++ b/lex2.c
@@ -576,6 +576,27 @@ handle_bahe(void)
 
 }
 
+/*++++++++++++++++++++++++++++++
+  When two tokens are merged into the node 'x', combine the BAhE attached to
+  each of them so that none is lost.  A chain runs from the latest BAhE to the
+  earliest.
+  ++++++++++++++++++++++++++++++*/
+
+static void
+merge_bahe(TreeNode *x, TreeNode *earlier, TreeNode *later)
+{
+  TreeNode *tail;
+
+  if (!later) {
+    x->bahe = earlier;
+    return;
+  }
+
+  for (tail = later; tail->bahe; tail = tail->bahe) ;
+  tail->bahe = earlier;
+  x->bahe = later;
+}
+
 /*++++++++++++++++++++++++++++++
   
   ++++++++++++++++++++++++++++++*/
@@ -666,6 +687,8 @@ handle_bu(void)
           break;
       }
 
+      merge_bahe(x, y->bahe, x->bahe);
+
       /* Unlink y from the chain */
       y->prev->next = x;
       x->prev = y->prev;
@@ -755,6 +778,7 @@ pair_off_indicator_suffixes(void)
         /* Create the property, we aren't interested in its body so
            void it */
         (void) prop_neg_indicator(x, YES);
+        merge_bahe(x, x->bahe, y->bahe);
         /* Drop the y node out */
         x->next = z;
         z->prev = x;
@@ -790,6 +814,7 @@ pair_off_indicator_suffixes(void)
         }
         
         w = z->next;
+        merge_bahe(x, x->bahe, z->bahe);
         /* Drop z */
         x->next = w;
         w->prev = x;
@@ -821,6 +846,7 @@ pair_off_indicator_suffixes(void)
               break;
           }
           
+          merge_bahe(x, x->bahe, w->bahe);
           /* Drop w */
           v = w->next;
           x->next = v;
-- 
2.43.0


From f9ae4aad0f29bb135d4861ebb3e0eb7f61b96df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:22 +0000
Subject: [PATCH 20/56] fix: a name containing yy was looked up outside the
 bad-name tables

---
 bctables.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bctables.in b/bctables.in
index c090a8f..9e40820 100644
--- a/bctables.in
+++ b/bctables.in
@@ -49,6 +49,7 @@ Block MAIN
         = TAG_OK
 
     State y
+        Y -> y
         APOS -> a
         COMMA ; VOWEL|Y -> v
         CONS -> c
-- 
2.43.0


From 1e6aa36d8b2ae05b532993ba088902c0fb99e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:55 +0000
Subject: [PATCH 21/56] fix: bracketed output of texts nested over 120 levels
 must not exhaust the stack

print_bracketed kept a 64 kbyte buffer in every stack frame, so a text of 125
sentences (one level of tree each) crashed.
---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 45b1fa3..4e49ecd 100644
--- a/tree.c
+++ b/tree.c
@@ -322,7 +322,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
+  static char buffer[65536]; /* only used to build keys for translate() */
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
-- 
2.43.0


From cdac52acdf116bf9122022c202952251b5e1a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:55 +0000
Subject: [PATCH 22/56] fix: bracketed output showed la'o quotations as zoi
 quotations

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 4e49ecd..e63e649 100644
--- a/tree.c
+++ b/tree.c
@@ -443,7 +443,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From 22ebfe263196b4b01524d649baab7a84d2163ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:10 +0000
Subject: [PATCH 23/56] fix: glosses of words outside sumti and selbri depended
 on uninitialised memory

prop_glosstype left in_selbri unset for a word marked as tertau only, e.g. the
brivla of a vocative.
---
 properties.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties.c b/properties.c
index 72eb283..b0648b7 100644
--- a/properties.c
+++ b/properties.c
@@ -146,6 +146,7 @@ prop_glosstype(TreeNode *x, int create)
   if (!result && create) {
     result = (XGlosstype *) fetch_conversion(x, YES, EX_GLOSSTYPE);
     result->is_tertau = 0;
+    result->in_selbri = 0;
   }
 
   return result;
-- 
2.43.0


From ba71652df48af06a77dde48801fa9ecc5fbfa41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 24/56] fix: the -bt backtrace named the wrong rules and read
 past its tables

Current bisons number $accept as rule 0 in the .output file but as rule 1 in the
generated parser; the indent of each line also went to stdout instead of stderr.
---
 output2table.pl | 11 +++++++++--
 tracebk.c       |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/output2table.pl b/output2table.pl
index 8257259..0e27d74 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -13,6 +13,8 @@ while (<>) {
     last if (/^Grammar/);
 }
 
+$rule_offset = 0; # what to subtract from the parser's rule numbers
+
 @lhs = ();
 @rhs = ();
 @rhsperrule = ();
@@ -27,7 +29,10 @@ while (<>) {
     last if (/^Terminals, with rules/);
     next if (/^\s*$/);
     next if (/^\s*Number, Line, Rule/); # extra junk in recent bisons (1.31 onwards?)
-    next if (/^\s+0\s+/); # rule 0 in bison>=1.75 (confirmed in 1.875)?
+    if (/^\s+0\s+/) { # rule 0 in bison>=1.75 (confirmed in 1.875)?
+        $rule_offset = 1; # the generated parser then counts rules from 1
+        next;
+    }
 
     my $number = undef;
     my $lhs = undef;
@@ -149,6 +154,8 @@ while (<>) {
         
 }
 
+print "#define RULE_OFFSET $rule_offset\n";
+
 # Write token/nonterm table out
 
 print "static char *".$prefix."_toknames[] = {\n";
@@ -161,7 +168,7 @@ print "};\n";
 $n=0;
 $t = 0;
 print "static unsigned short ".$prefix."_ruleindex[] = {\n";
-for ($s=0;$s<=$#lhs;$s++) {
+for ($s=0;$s<=$#lhs+1;$s++) { # one more, for the end of the last rule
     print ", " unless ($n==0);
     printf "%d", $t;
     $n++;
diff --git a/tracebk.c b/tracebk.c
index 6528f18..75a8e7b 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -35,7 +35,7 @@ display_rule(int ruleno, int indent, int focus)
   unsigned short *rulerhs = require_elidables ? full_rulerhs : norm_rulerhs;
 
 
-  for (i=0; i<indent; i++) fputc(' ', stdout);
+  for (i=0; i<indent; i++) fputc(' ', stderr);
   fprintf(stderr, "Rule %d : %s <- ", ruleno, toknames[rulelhs[ruleno]]);
   for (i=0, j=ruleindex[ruleno]; j<ruleindex[ruleno+1]; i++, j++) {
     int rhs = rulerhs[j];
@@ -62,7 +62,7 @@ report_trace_reduce(int stateno, int ruleno)
       reductions = new_array(Reduction, max_reductions);
     }
   }
-  reductions[n_reductions].rule = ruleno;
+  reductions[n_reductions].rule = ruleno - RULE_OFFSET;
   reductions[n_reductions].state = stateno;
   n_reductions++;
 }
-- 
2.43.0


From 3d8edd7418751ae1c27e36f24c206f941d933fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 25/56] fix: an &, < or > in a gloss made HTML output overrun
 its buffer

make_htmlsafe did not step over the character it had escaped; and the text of
quotations was not escaped at all.
---
 htmlout.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..d200a8a 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -233,14 +233,17 @@ make_htmlsafe(char *s)
       case '&':
         strcpy(q, "&amp;");
         q += 5;
+        p++;
         break;
       case '<':
         strcpy(q, "&lt;");
         q += 4;
+        p++;
         break;
       case '>':
         strcpy(q, "&gt;");
         q += 4;
+        p++;
         break;
       default:
         *q++ = *p++;
@@ -273,7 +276,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>%s</B>", make_htmlsafe(text));
 
   state = ST_TEXT;
 }
-- 
2.43.0


From b930eed391cd6237a0c7b12739935b8e4bb44344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 26/56] fix: long words, quotations and numbers must not
 overflow the glosser's buffers

Words of 1000 characters and more overflowed 1 kbyte buffers on the stack, which
also made the glossing of moderately nested texts exhaust the stack.
---
 output.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/output.c b/output.c
index c5e9635..9b0202d 100644
--- a/output.c
+++ b/output.c
@@ -336,7 +336,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
 {
-  static char buffer[1024];
+  static char buffer[65536];
   buffer[0] = 0;
   get_cmavo_text_inside_node_internal(x, buffer);
   return buffer;
@@ -793,7 +793,7 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
       
     case N_ZO:
       {
-        char buffer[1024];
+        static char buffer[65536];
         sprintf(loj, "zo %s", x->data.zo.text);
         attempt_translation(x->data.zo.text, buffer);
         sprintf(eng, "\"%s\"", buffer);
@@ -1205,8 +1205,8 @@ static void output_fore_or_afterthought(TreeNode *x, WhatToShow what)/*{{{*/
 static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 {
   char *cluster, *trans;
-  char localtrans[65536];
-  char lojbuf[65536], lojbuf2[65536];
+  char localtrans[1024]; /* dictionary entries are at most 255 characters */
+  static char lojbuf[65536], lojbuf2[65536]; /* not needed across the recursion below */
   int i, n;
   TreeNode *c;
   struct nonterm *nt;
@@ -1295,7 +1295,8 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  /* Only used for terminals, i.e. not needed across the recursion */
+  static char loj[65536], eng[65536];
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1458,7 +1459,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
+    static char lojbuf[65536+2];
 
     lojbuf[0] = 0;
 
-- 
2.43.0


From a824ffbf01a41fc51bb76b2b40a13ddd2a16568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 27/56] fix: blocked text output must not overflow on long
 words, wide lines or many tags

A quotation over 512 characters, -w over 512 or a sumti with more than 32 place
tags overflowed the block buffers.
---
 textblk.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..a61da77 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,7 +19,7 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
+#define BUFFER_SIZE 131072
 
 typedef enum {
   ST_OPEN,
@@ -75,7 +75,7 @@ static void initialise(void)/*{{{*/
 
   clear_line_buffer();
 
-  max_width = opt_output_width;
+  max_width = (opt_output_width < BUFFER_SIZE / 2) ? opt_output_width : BUFFER_SIZE / 2;
 }
 /*}}}*/
 static void write_prologue(void)/*{{{*/
@@ -126,15 +126,15 @@ static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
   to a specific width */
 {
   int len, toadd, i;
-  char buffer[BUFFER_SIZE];
+  char *p;
   len = strlen(src);
   toadd = wid - len;
+  strcat(dbuf, src);
+  p = dbuf + strlen(dbuf);
   for (i=0; i<toadd; i++) {
-    buffer[i] = ' ';
+    *p++ = ' ';
   }
-  buffer[toadd] = '\0';
-  strcat(dbuf, src);
-  strcat(dbuf, buffer);
+  *p = '\0';
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -378,7 +378,7 @@ static void end_tags(void)/*{{{*/
 }/*}}}*/
 static void start_tag(void)/*{{{*/
 {
-  if (!first_tag) {
+  if (!first_tag && tags_used < MAX_TAGS - 1) { /* share the last line if too many */
     tags_used++;
   }
   first_tag = 0;
-- 
2.43.0


From 018abead35d10f1bce1ba2b583fa1177bb854bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:01 +0000
Subject: [PATCH 28/56] fix: glossing long lujvo and zei words must not
 overflow the component tables

A zei compound of words over 5 letters, more than 32 components, places beyond
x5, or a compound of conversions only, made translate.c use memory outside its
tables.
---
 translate.c | 57 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/translate.c b/translate.c
index 092811f..ed21ff0 100644
--- a/translate.c
+++ b/translate.c
@@ -30,13 +30,14 @@ static int bufptr=0;
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
+  char *text;
   int places[6];
 } Component;/*}}}*/
 
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static Component *split_into_comps(char *canon, int *ncomp);
+static int comp_place(Component *comp, int place);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -59,7 +60,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
   char *canon;
   char *result;
@@ -70,7 +71,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
     return NULL;
@@ -79,7 +80,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
-    xplace = comp[i].places[last ? place : 1];
+    xplace = comp_place(&comp[i], last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
     if (i > 0) { strcat(result, "-"); }
     if (trans) {
@@ -95,14 +96,15 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
-  Component comp[32];
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  if (!canon) return NULL;
+  comp = split_into_comps(canon, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -739,7 +741,12 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static int comp_place(Component *comp, int place)/*{{{*/
+/* Conversions only affect the first 5 places. */
+{
+  return (place >= 1 && place <= 5) ? comp->places[place] : place;
+}/*}}}*/
+static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
   Take a string a+b+c and split it into an array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
@@ -748,11 +755,17 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
 {
   int i;
   int nc = 0;
-  char buffer[65536];
+  char *buffer;
   char *p, *q;
   int place = 0;
+  int max = 1;
+  Component *comp;
 
-  strcpy(buffer, canon);
+  for (p = canon; *p; p++) {
+    if (*p == '+') max++;
+  }
+  comp = new_array(Component, max);
+  buffer = new_string(canon); /* holds the text of the components */
   p = buffer;
   while (*p) p++;
   while (p > buffer) {
@@ -763,7 +776,9 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    if (place > 0 && nc == 0) {
+      /* Conversion with nothing to convert */
+    } else if (place > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -777,12 +792,13 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = q;
     }
-    *p = 0;
+    if (p > buffer) *p = 0;
   }
 
   *ncomp = nc;
+  return comp;
 
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
@@ -803,14 +819,14 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     strcpy(generic, orig + cutg);
     strncpy(specific, orig, cuts);
     specific[cuts] = 0;
-    new_place = comp[ncomp-gather].places[place];
+    new_place = comp_place(&comp[ncomp-gather], place);
   } else {
     cutg = comp[gather].start + 1;
     cuts = cutg;
     strncpy(generic, orig, cutg);
     generic[cutg] = 0;
     strcpy(specific, orig + cuts);
-    new_place = comp[gather-1].places[place];
+    new_place = comp_place(&comp[gather-1], place);
   }
 
   sprintf(buffer, "*%1d%s%1d%s",
@@ -857,7 +873,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -869,7 +885,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
 
 #if 0
   {
@@ -883,10 +899,12 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   }
 #endif
 
+  if (ncomp == 0) return NULL; /* nothing but conversions */
+
   /* If there's only 1 component after conversions have been
      mapped onto it, do a place switch */
   if (ncomp == 1) {
-    int new_place = comp[0].places[place];
+    int new_place = comp_place(&comp[0], place);
     return adv_translate(comp[0].text, new_place, ctx);
 
   } else {
@@ -898,7 +916,8 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 
     for (prec = 5; prec >= 0; prec--) {
       for (suffix = 1; suffix >= 0; suffix--) {
-        for (gather = 1; gather <= 2; gather++) {
+        /* A prefix has to leave something to substitute */
+        for (gather = 1; gather <= (suffix ? 2 : ncomp-1) && gather <= 2; gather++) {
           trans = lookup_template_match(prec, suffix, gather, canon, comp, ncomp, place, ctx);
           if (trans) {
             if (strcmp(trans, "-")) {
-- 
2.43.0


From 9cc678bde58ede6d3df0c95d9ba0d1da9121215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 29/56] fix: -se suggested omitting terminators emphasised with
 ba'e

---
 elide.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..0290883 100644
--- a/elide.c
+++ b/elide.c
@@ -169,6 +169,7 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
+  if (tok->bahe) return 0; /* the emphasis would move to the next word */
   
   switch (cmavo_table[tok->data.cmavo.code].code) {
     case CM_BEhO:
-- 
2.43.0


From 05f69cdb3389073bfa53eca940927e55ed8536ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 30/56] fix: a defective erasure left its token uninitialised,
 -se followed it

---
 lex2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex2.c b/lex2.c
index 1581719..801a417 100644
--- a/lex2.c
+++ b/lex2.c
@@ -1083,6 +1083,7 @@ yylex1(TokenType *res)
       case N_GARBAGE:
       case N_BROKEN_ERASURE:
         /* Needs its own parser token value */
+        res->yylval = next_tok;
         res->value = GARBAGE;
         return;
         break;
-- 
2.43.0


From b4d90868922626ecebe91c8dd4e38db7006bc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:52 +0000
Subject: [PATCH 31/56] fix: with -se, syntax errors were reported at a later
 word

---
 elide.c | 10 ++++++++++
 elide.h |  5 +++++
 lex2.c  | 14 ++++++++++----
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/elide.c b/elide.c
index 0290883..7852d96 100644
--- a/elide.c
+++ b/elide.c
@@ -619,6 +619,16 @@ elide_trace_reduce(int yystate, int yyn)
 /*++++++++++++++++++++++++++++++++++++++
   ++++++++++++++++++++++++++++++++++++++*/
 
+/*++++++++++++++++++++++++++++++++++++++
+  Return the number of tokens read ahead of the parser
+  ++++++++++++++++++++++++++++++++++++++*/
+
+int
+elide_tokens_pending(void)
+{
+  return tokbuf.n - tokbuf.rp;
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Provide the yylex function
   ++++++++++++++++++++++++++++++++++++++*/
diff --git a/elide.h b/elide.h
index e19b6fc..4925fee 100644
--- a/elide.h
+++ b/elide.h
@@ -23,6 +23,11 @@ typedef struct {
 
 void yylex1(TokenType *res);
 
+/* API provided from the elider to lex2 : number of tokens read from lex2 that
+  have not been passed to the parser yet */
+
+int elide_tokens_pending(void);
+
 #endif /* ELIDE_H */
 
 
diff --git a/lex2.c b/lex2.c
index 801a417..943c258 100644
--- a/lex2.c
+++ b/lex2.c
@@ -1236,18 +1236,24 @@ print_token_details(TreeNode *x)
 void
 print_last_toks(void)
 {
-  TreeNode *x;
+  TreeNode *x, *last;
   int i;
 
+  /* With -se, some of the tokens read have not reached the parser yet */
+  last = next_tok;
+  for (i = elide_tokens_pending(); i > 0; i--) {
+    last = last->prev;
+  }
+
   fprintf(stderr, "Misparsed token :\n");
-  if (next_tok != &toks) {
-    print_token_details(next_tok);
+  if (last != &toks) {
+    print_token_details(last);
   } else {
     fprintf(stderr, "  <End of text>\n");
   }
 
   fprintf(stderr, "Latest successfully parsed tokens :\n");
-  for (x = next_tok->prev, i = 0;
+  for (x = last->prev, i = 0;
        i < 8 && x != &toks;
        i++, x = x->prev) {
 
-- 
2.43.0


From d93d1763419f504669e28a774e72640ed58218ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:23 +0000
Subject: [PATCH 32/56] fix: -ie did not show the ke'e elided at the end of a
 bridi tail group

---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..031c235 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From 7adfc020ca45bf22cb71ea16a6c443c9750aefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:44 +0000
Subject: [PATCH 33/56] fix: the missing-selbri report gave the position of the
 word before the connective

---
 categ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/categ.c b/categ.c
index 4bb2ebe..268d31e 100644
--- a/categ.c
+++ b/categ.c
@@ -100,8 +100,8 @@ static void categorize_gihek(TreeNode *head)/*{{{*/
       y = x->prev;
       if (cmtest(y, SE)) y = y->prev;
       if (cmtest(y, NA)) y = y->prev;
-      /* Need to insert new token after y */
-      insert_marker_after(y, PRIVATE_START_GIHEK, "PRIVATE_START_GIHEK");
+      /* Need to insert new token after y, at the position of the gihek */
+      insert_marker_before(y->next, PRIVATE_START_GIHEK, "PRIVATE_START_GIHEK");
     }
 
   }
-- 
2.43.0


From 042ae11518e2a9dd6f0604c64e2e55bdc0a58c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 34/56] fix: cmafihe crashed on a trailing -w option

---
 cm_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cm_main.c b/cm_main.c
index e929ab0..1e01754 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -40,6 +40,10 @@ main (int argc, char **argv)
 #endif 
     } else if (!strcmp(*argv, "-w")) {
       ++argv, --argc;
+      if (argc <= 0) {
+        fprintf(stderr, "The -w option requires a width\n");
+        exit(1);
+      }
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
       fprintf(stderr, "cmafihe version %s\n", version_string);
-- 
2.43.0


From 4427c61b3544a6ce037b9e220253756bc89cf880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 35/56] fix: jvocuhadju overflowed its buffers on components
 over five letters

---
 jvocuhadju.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..9fed19f 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,6 +717,11 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      /* Longer than any gismu or cmavo */
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-- 
2.43.0


From ec0b8d6824a0f4bce1338d7b4ad06a8909af287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:51 +0000
Subject: [PATCH 36/56] fix: cmafihe overflowed its buffers on long words, long
 lines and comments

---
 cm_gather.c    | 45 ++++++++++++++++++++++++++++++---------------
 cm_output.c    | 34 ++++++++++++++++++++++++++--------
 cm_translate.c | 10 ++++++++--
 3 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..383adaf 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -136,6 +136,10 @@ try_cmavo_fragment(node *p)
 static char *
 translate_selmao(char *x) {
   char buffer[64];
+  if (strlen(x) + 2 > sizeof(buffer)) {
+    /* Longer than any cmavo */
+    return NULL;
+  }
   strcpy(buffer, "+");
   strcat(buffer, x);
   return translate(buffer);
@@ -143,18 +147,30 @@ translate_selmao(char *x) {
 
 /* ================================================== */
 
+/* Append to a string that was obtained from malloc */
+static char *
+append_string(char *s, const char *x)
+{
+  size_t len = strlen(s);
+  s = (char *) realloc(s, len + strlen(x) + 1);
+  strcpy(s + len, x);
+  return s;
+}
+
+/* ================================================== */
+
 static void
 try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 {
-  char buf[65536], buf2[65536];
+  char *buf, *buf2;
   char *pbuf;
   char *t, *e;
-  char bufout[65536];
+  char *bufout;
   int len;
 
-  bufout[0] = 0;
-
-  strcpy(buf, lojban);
+  bufout = new_string("");
+  buf = new_string(lojban);
+  buf2 = new_string(lojban);
 
   pbuf = buf;
   if (*pbuf == '.') {
@@ -179,9 +195,9 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
         fprintf(stderr, "Got trans %s for %s\n", t, buf2);
 #endif
         if (bufout[0]) {
-          strcat(bufout, " ");
+          bufout = append_string(bufout, " ");
         }
-        strcat(bufout, t);
+        bufout = append_string(bufout, t);
         pbuf += len;
 #if DIAG
         fprintf(stderr, "Now looking at %s\n", pbuf);
@@ -193,13 +209,13 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiuo'", *e));
       }
     }
     if (bufout[0]) {
-      strcat(bufout, " ");
+      bufout = append_string(bufout, " ");
     }
-    strcat(bufout, "?");
+    bufout = append_string(bufout, "?");
     do {
       pbuf++;
     } while (*pbuf && strchr("aeiou'", *pbuf));
@@ -211,7 +227,9 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
     
   }
 
-  (*transbuf) = new_string(bufout);
+  (*transbuf) = bufout;
+  free(buf);
+  free(buf2);
 
 }
 
@@ -222,7 +240,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -233,9 +250,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
diff --git a/cm_output.c b/cm_output.c
index 5880bd5..c8cd0f9 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,13 +19,12 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+static char *lines[3];
+static int line_room;
 static int width_used;
 
 /* ================================================== */
@@ -33,18 +32,37 @@ static int width_used;
 static void
 block_newline(void)
 {
+  int i;
   if (width_used > 0) {
     printf("%s\n", lines[0]);
     printf("%s\n", lines[1]);
     printf("%s\n", lines[2]);
     printf("\n");
+    for (i=0; i<3; i++) {
+      lines[i][0] = 0;
+    }
   }
-  lines[0][0] = lines[1][0] = lines[2][0] = 0;
   width_used = 0;
 }
 
 /* ================================================== */
 
+/* Make sure there is room for len more characters in each line */
+static void
+reserve_room(int len)
+{
+  int i;
+  if (width_used + len + 1 > line_room) {
+    line_room = 2 * line_room + len + 1;
+    for (i=0; i<3; i++) {
+      lines[i] = (char *) realloc(lines[i], line_room);
+      lines[i][width_used] = 0;
+    }
+  }
+}
+
+/* ================================================== */
+
 static void
 append_content(char *buf, const char *x, int len, int mlen)
 {
@@ -78,9 +96,10 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
-  append_content(&lines[0][0], a1, l1, ml+1);
-  append_content(&lines[1][0], a2, l2, ml+1);
-  append_content(&lines[2][0], a3, l3, ml+1);
+  reserve_room(ml + 1);
+  append_content(lines[0], a1, l1, ml+1);
+  append_content(lines[1], a2, l2, ml+1);
+  append_content(lines[2], a3, l3, ml+1);
   
   width_used += (ml + 1);
   return;
@@ -108,7 +127,6 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
-      lines[0][0] = lines[1][0] = lines[2][0] = 0;
       width_used = 0;
       break;
 #ifdef PLIST
diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..7df4f43 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -109,7 +109,7 @@ translate_comp(char *w, int *conversion)
 static char *
 translate_lujvo(char *word)
 {
-  static char result[65536];
+  static char *result = NULL;
   char buf[64];
   char *w, *trans;
   int initial;
@@ -117,6 +117,10 @@ translate_lujvo(char *word)
   int ypos=0;
   int conversion=0;
 
+  /* A component has at least 3 letters, unless it is the last, and a
+     translation is at most 255 characters long */
+  free(result);
+  result = new_array(char, 128 * strlen(word) + 1024);
   w = word;
   result[0] = 0;
   initial = 1;
@@ -265,7 +269,7 @@ is_consonant_not_r(char c)
 char *
 translate_unknown(char *w)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   int len, i;
   int hyph;
   char *p, *q;
@@ -303,6 +307,8 @@ translate_unknown(char *w)
   }
 
   if (hyph) {
+    free(buf);
+    buf = new_array(char, 130 * strlen(w) + 1024);
     for (p=w, q=buf, i=0; i<hyph; p++, q++, i++) {
       *q = *p;
     }
-- 
2.43.0


From b514bd31cb18cf34fee8f3f86369e0e86c95710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 37/56] fix: smujajgau wrote a corrupt dictionary for
 definitions over 255 characters

---
 smujajgau.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..e918920 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -100,6 +100,20 @@ print_histogram(void)
 }
 
 
+/*++++++++++++++++++++++++++++++++++++++
+  Check whether a string is too long for the database, where the lengths are
+  single bytes.
+
+  char *s
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+too_long(char *s)
+{
+  return strlen(s) > 255;
+}
+
+
 /*++++++++++++++++++++++++++++++++++++++
   Add a definition of a word to the transaction list.
 
@@ -438,11 +452,15 @@ static void
 handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
-  int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
+  int defines_place = (len > 0) && isdigit(src[len-1]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
+  if (too_long(src) || too_long(dest)) {
+    fprintf(stderr, "Definition of [%s] is too long, ignored\n", src);
+    return;
+  }
+
   /* If we're about to add a case of something, check we get rid
      of any more specific entries first. */
   if (defines_place) {
@@ -490,9 +508,10 @@ handle_mapping(char *src, char *dest)
         strcpy(buffer2, canon);
         buffer2[lencanon++] = src[len-1];
         buffer2[lencanon] = 0;
-        preen(buffer2);
         strcpy(buffer3, "@");
         strcat(buffer3, src);
+        if (too_long(buffer2) || too_long(buffer3)) return;
+        preen(buffer2);
         add_defn(buffer2, buffer3);
 #if defined (DIAG)
         fprintf(stderr, "Adding defn 2 key=[%s] val=[%s]\n", buffer2, buffer3);
-- 
2.43.0


From 40dd8119f6326f314051988ed90fadce10442fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 38/56] fix: smujajgau lost the last character of a source file
 without a final newline

---
 smujajgau.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index e918920..fe6f30b 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -534,9 +534,11 @@ do_file(FILE *f)
   char src[65536];
   char dest[65536];
   char *p, *q, *r;
+  int len;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    len = strlen(line);
+    if ((len > 0) && (line[len-1] == '\n')) line[len-1] = 0;
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From 186326407e56ddb6cadab21b5bcde9643d278d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 39/56] fix: decomposing an extremely long lujvo overflowed its
 buffer

---
 canonluj.c | 3 +++
 morf.c     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/canonluj.c b/canonluj.c
index 83033db..62dcc0d 100644
--- a/canonluj.c
+++ b/canonluj.c
@@ -143,6 +143,9 @@ split_lujvo (char *x)
   
   result[0] = 0;
 
+  /* The result can be nearly twice as long as the word */
+  if (strlen(x) >= sizeof(result) / 2) return NULL;
+
   while (1) {
     /* Advance x to look at the tail of the string. */
     int len = strlen(x);
diff --git a/morf.c b/morf.c
index 7e2ecb9..53e0c12 100644
--- a/morf.c
+++ b/morf.c
@@ -664,7 +664,7 @@ MorfType morf_scan(char *s, char ***buf_end, struct morf_xtra *arg_xtra)/*{{{*/
         if (expand_lujvo) {
           char *canon;
           canon = canon_lujvo(pstart[-1]);
-          printf(" [%s]", canon);
+          printf(" [%s]", canon ? canon : "?");
         }
         break;
 
-- 
2.43.0


From 795bf49f6e9e1122a941c3c2ae3fe789e622463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:59 +0000
Subject: [PATCH 40/56] fix: redefining a place left its adjectival (q) form
 behind

---
 smujajgau.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index fe6f30b..e922675 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -418,7 +418,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvaqt].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -426,9 +426,9 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "a", "q", "t"};
   int i;
-  for (i=0; i<4; i++) {
+  for (i=0; i<5; i++) {
     strcpy(buffer, s);
     strcat(buffer, suffixes[i]);
     add_deletion(buffer);
-- 
2.43.0


From 7d4f5eadd3c1a7b78cb5bc14d3b06a1c425153e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:18 +0000
Subject: [PATCH 41/56] fix: smujajgau crashed or hung on an existing database
 that is not one

---
 smujajgau.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index e922675..0d423ce 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -384,6 +384,15 @@ write_database(FILE *out)
   ++++++++++++++++++++++++++++++++++++++*/
 
 
+static void
+check_database(int ok)
+{
+  if (!ok) {
+    fprintf(stderr, "The existing database is damaged or not a database\n");
+    exit(1);
+  }
+}
+
 static void
 read_database(FILE *in)
 {
@@ -397,7 +406,15 @@ read_database(FILE *in)
   int i, len;
   char key[65536], val[65536];
 
+  long size;
+
+  /* An entry takes at least 4 bytes */
+  fseek(in, 0, SEEK_END);
+  size = ftell(in);
+  rewind(in);
+  if (size == 0) return; /* Empty file */
   n_entries = get_long(in);
+  check_database(!feof(in) && (n_entries >= 0) && (n_entries <= (size - 4) / 4));
   entries = new_array(Entry, n_entries);
   for (i=0; i<n_entries; i++) {
     len = getc(in);
@@ -406,8 +423,10 @@ read_database(FILE *in)
     entries[i].vlen = len;
   }
   for (i=0; i<n_entries; i++) {
-    fread(key, sizeof(char), entries[i].klen + 1, in); /* Read null termination */
-    fread(val, sizeof(char), entries[i].vlen + 1, in); /* Read null termination .. */
+    size_t nk, nv;
+    nk = fread(key, sizeof(char), entries[i].klen + 1, in); /* Read null termination */
+    nv = fread(val, sizeof(char), entries[i].vlen + 1, in); /* Read null termination .. */
+    check_database((nk == entries[i].klen + 1) && (nv == entries[i].vlen + 1));
     key[entries[i].klen] = 0; /* ... but set it anyway for safety */
     val[entries[i].vlen] = 0;
     add_defn(key, val);
-- 
2.43.0


From 5f92a18cf94a33107d0c79ef2eee38efb7da07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 42/56] fix: gloss words with an indicator or emphasis attached
 like the plain words

Conversions and roles were noted on the node that groups a word with its
indicators, not on the word, and so had no effect on its gloss.
---
 conversion.c | 10 +++++-----
 terms.c      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/conversion.c b/conversion.c
index 4fdac50..805f01b 100644
--- a/conversion.c
+++ b/conversion.c
@@ -71,7 +71,7 @@ conv_tag_se_bai(TreeNode *x)
       case SE_BAI:
         c1 = strip_attitudinal(nt->children[0]);
         assert(c1->data.cmavo.selmao == SE);
-        c2 = nt->children[1];
+        c2 = maybe_strip_attitudinal(nt->children[1]);
         conv = lookup_converted_place(c1);
         ext = prop_bai_conversion(c2, YES);
         ext->conv = conv;
@@ -82,7 +82,7 @@ conv_tag_se_bai(TreeNode *x)
         break;
 
       case BAI1:
-        c1 = nt->children[0];
+        c1 = maybe_strip_attitudinal(nt->children[0]);
         ext = prop_bai_conversion(c1, YES);
         ext->conv = 1;
         break;
@@ -296,7 +296,7 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
       case JAI_TU2:
         {
           TreeNode *cjai;
-          cjai = child_ref(x, 0);
+          cjai = maybe_strip_attitudinal(child_ref(x, 0));
           if (g != GS_NONE) {
             gt = prop_glosstype(cjai, YES);
             if (g == GS_MAIN_SELBRI || g == GS_JAI) {
@@ -485,7 +485,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                   {
                     TreeNode *cc;
                     cc = strip_attitudinal(c);
-                    if (cc->type == N_BRIVLA) {
+                    if (cc->type == N_BRIVLA || cc->type == N_ZEI) {
                       XGlosstype *gt;
                       gt = prop_glosstype(cc, YES);
                       gt->is_tertau = 1;
@@ -506,7 +506,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                     TreeNode *cc, *cjai;
                     XGlosstype *gt;
 
-                    cjai = child_ref(c, 0);
+                    cjai = maybe_strip_attitudinal(child_ref(c, 0));
                     gt = prop_glosstype(cjai, YES);
                     gt->is_tertau = 1;
 
diff --git a/terms.c b/terms.c
index 1afd0c2..613a90a 100644
--- a/terms.c
+++ b/terms.c
@@ -598,7 +598,7 @@ static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
           temp = place[1];
           place[1] = place[j->conv];
           place[j->conv] = temp;
-          dg = prop_dont_gloss(j->senode, YES); /* prevent the node being glossed */
+          dg = prop_dont_gloss(strip_attitudinal(j->senode), YES); /* prevent the node being glossed */
         }        
         break;
 
-- 
2.43.0


From 3c44d7efdeea173e9e2bb1c036c9c8f29a0eb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 43/56] fix: escape the <tag> of a jai place tag in HTML output

---
 htmlout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmlout.c b/htmlout.c
index d200a8a..b9a2f45 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -390,7 +390,7 @@ write_tag_text(char *brivla, char *place, char *trans, int brac)
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  printf("%s", make_htmlsafe(t));
 }
 /*}}}*/
 
-- 
2.43.0


From 3c3d804360f38efd3857052969ca0d41a715c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 44/56] fix: number the possessor a ke'a refers to

In 'le mi poi ke'a broda gerku' ke'a was glossed as #0, as its antecedent
got no bracket.
---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index 9b0202d..e507801 100644
--- a/output.c
+++ b/output.c
@@ -59,6 +59,7 @@ static void add_bracketing_internal(TreeNode *x, int *seq)/*{{{*/
 
       case SUMTI_5A:
       case SUMTI_5B:
+      case SUMTI_6:
       case NAME_SUMTI_6:
         if (prop_require_brac(x, NO)) {
           y->number = ++*seq;
-- 
2.43.0


From df67123bf52347cdd1bc2db22aa218e580c78865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 45/56] fix: LaTeX block output dropped words after the last
 bracket

---
 latexblk.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/latexblk.c b/latexblk.c
index 89aa936..fea8383 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -140,6 +140,19 @@ flush_block(void)
 
 }
 
+/*++++++++++++++++++++++++++++++
+  Do final acts of writing to output file.
+  ++++++++++++++++++++++++++++++*/
+
+static void
+write_epilog(void)
+{
+  if (loj_text[0] || eng_text[0]) {
+    flush_block();
+  }
+  latex_write_epilog();
+}
+
 /*++++++++++++++++++++++++++++++
   
   ++++++++++++++++++++++++++++++*/
@@ -440,7 +453,7 @@ DriverVector latex_block_driver =/*{{{*/
 {
   initialise,
   write_prologue,
-  latex_write_epilog,
+  write_epilog,
   write_open_bracket,
   write_close_bracket,
   set_eols,
-- 
2.43.0


From 51a4462ce9d037888aa2a1460eba08caf5122945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 46/56] fix: escape TeX's special characters in Lojban words
 and place tags

---
 latex.c    |  9 +++++----
 latexblk.c | 22 +++++++++-------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/latex.c b/latex.c
index 815e344..84b0649 100644
--- a/latex.c
+++ b/latex.c
@@ -317,7 +317,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe(text));
 
   state = ST_TEXT;
 }
@@ -411,16 +411,17 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
+  printf("\\textsl{\\footnotesize{}%s%s", make_texsafe(brivla), place);
   if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
+    printf(" (%s)}\n", make_texsafe(trans));
   } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
+    printf(" %s}\n", make_texsafe(trans));
   }
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/latexblk.c b/latexblk.c
index fea8383..6a78e3d 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -327,7 +327,7 @@ write_lojban_text(char *text)
   clear_eols();
 
   strcat(loj_text, " ");
-  strcat(loj_text, text);
+  strcat(loj_text, make_texsafe(text));
 
 }
 
@@ -424,28 +424,24 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  char buffer[65536];
-
-  if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
-  } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
-  }
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe(brivla));
+  strcat(tag_text, place);
+  strcat(tag_text, brac ? " (" : " ");
+  strcat(tag_text, make_texsafe(trans));
+  if (brac) {
+    strcat(tag_text, ")");
+  }
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  char buffer[65536];
-
-  sprintf(buffer, "%s", t);
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe(t));
 }
 /*}}}*/
 
-- 
2.43.0


From 947c893d70d7cb8c5ead864308fb3b58e6a5b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 47/56] fix: LaTeX, HTML and block outputs overflowed their
 buffers on long texts

---
 functions.c |  24 +++++++++
 functions.h |   9 ++++
 htmlout.c   |   4 +-
 latex.c     |   4 +-
 latexblk.c  |  72 ++++++++++++-------------
 textblk.c   | 153 +++++++++++++++++++++++++---------------------------
 6 files changed, 147 insertions(+), 119 deletions(-)

diff --git a/functions.c b/functions.c
index e3c2bd0..c8d2c46 100644
--- a/functions.c
+++ b/functions.c
@@ -17,6 +17,30 @@
 /* command line option */
 extern int insert_elidables;
 
+/*++++++++++++++++++++++++++++++
+  Growing strings.
+  ++++++++++++++++++++++++++++++*/
+
+void
+clear_text(TextBuffer *b)
+{
+  b->len = 0;
+  append_text(b, "");
+}
+
+void
+append_text(TextBuffer *b, const char *text)
+{
+  int n = strlen(text);
+
+  if (b->len + n >= b->max) {
+    b->max = 2 * (b->len + n) + 256;
+    b->s = grow_array(char, b->max, b->s);
+  }
+  memcpy(b->s + b->len, text, n + 1);
+  b->len += n;
+}
+
 /*++++++++++++++++++++++++++++++
   Go through children in a node and chain them onto that parent.
   Also, set the start line/column of the nonterminal to that of the first child.
diff --git a/functions.h b/functions.h
index 2d39981..d91f246 100644
--- a/functions.h
+++ b/functions.h
@@ -21,7 +21,16 @@
 #define new_array(T, n) (T *) Malloc(sizeof(T) * (n))
 #define grow_array(T, n, oldX) (T *) ((oldX) ? Realloc(oldX, (sizeof(T) * (n))) : Malloc(sizeof(T) * (n)))
 
+/* A string that grows as text is appended to it */
+typedef struct {
+  char *s; /* NULL until cleared for the first time */
+  int len, max;
+} TextBuffer;
+
 /* In functions.c */
+void clear_text(TextBuffer *b);
+void append_text(TextBuffer *b, const char *text);
+
 TreeNode *new_node(void);
 TreeNode *new_elidable(int code, int selmao);
 
diff --git a/htmlout.c b/htmlout.c
index b9a2f45..26e91fe 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -224,8 +224,10 @@ write_close_bracket(BracketType type, int subscript)
 static char *
 make_htmlsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   char *p, *q;
+
+  buf = grow_array(char, 5 * strlen(s) + 1, buf);
   p = s;
   q = buf;
   while (*p) {
diff --git a/latex.c b/latex.c
index 84b0649..45292bb 100644
--- a/latex.c
+++ b/latex.c
@@ -260,8 +260,10 @@ latex_write_close_bracket(BracketType type, int subscript)
 char *
 make_texsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   char *p, *q;
+
+  buf = grow_array(char, 3 * strlen(s) + 1, buf);
   p = s;
   q = buf;
   while (*p) {
diff --git a/latexblk.c b/latexblk.c
index 6a78e3d..b54cb08 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -25,9 +25,9 @@ typedef enum {
 
 static States state;
 
-static char tag_text[65536];
-static char loj_text[65536];
-static char eng_text[65536];
+static TextBuffer tag_text;
+static TextBuffer loj_text;
+static TextBuffer eng_text;
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -37,9 +37,9 @@ static void
 initialise(void)
 {
   state = ST_START;
-  tag_text[0] = 0;
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_text(&tag_text);
+  clear_text(&loj_text);
+  clear_text(&eng_text);
 
 }
 
@@ -123,9 +123,9 @@ flush_block(void)
 {
   char *p;
   printf("\\BT[t]{l}{\\bf %s}\\\\{\\it %s}\\\\[-3pt]",
-         loj_text, eng_text);
+         loj_text.s, eng_text.s);
   printf("{\\ISS{}");
-  for (p=tag_text; *p; p++) {
+  for (p=tag_text.s; *p; p++) {
     if (*p == '\n') {
       printf("}\\\\[-3pt]{\\ISS{}");
     } else {
@@ -134,9 +134,9 @@ flush_block(void)
   }
   printf("}\\ET\n");
 
-  tag_text[0] = 0;
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_text(&tag_text);
+  clear_text(&loj_text);
+  clear_text(&eng_text);
 
 }
 
@@ -147,7 +147,7 @@ flush_block(void)
 static void
 write_epilog(void)
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   latex_write_epilog();
@@ -178,7 +178,7 @@ write_open_bracket(BracketType type, int subscript)
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
@@ -252,7 +252,7 @@ write_close_bracket(BracketType type, int subscript)
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
@@ -321,13 +321,13 @@ static void
 write_lojban_text(char *text)
 {
 
-  if (eng_text[0]) {
+  if (eng_text.len) {
     flush_block();
   }
   clear_eols();
 
-  strcat(loj_text, " ");
-  strcat(loj_text, make_texsafe(text));
+  append_text(&loj_text, " ");
+  append_text(&loj_text, make_texsafe(text));
 
 }
 
@@ -342,11 +342,11 @@ static void
 write_special(char *text)
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "{\\reflectbox{\\zd\\char233}}");
+    append_text(&eng_text, "{\\reflectbox{\\zd\\char233}}");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "``");
+    append_text(&eng_text, "``");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"''");
+    append_text(&eng_text, "''");
   }
 }
 
@@ -362,8 +362,8 @@ write_translation(char *text)
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, " ");
-    strcat(eng_text, make_texsafe(text));
+    append_text(&eng_text, " ");
+    append_text(&eng_text, make_texsafe(text));
   }
 }
 
@@ -377,11 +377,11 @@ static int first_tag;
 static void
 start_tags(void)
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   clear_eols();
-  strcat(tag_text, "[");
+  append_text(&tag_text, "[");
   first_tag = 1;
 }
 
@@ -393,7 +393,7 @@ start_tags(void)
 static void
 end_tags(void)
 {
-  strcat(tag_text, ":]");
+  append_text(&tag_text, ":]");
 }
 
 
@@ -405,7 +405,7 @@ static void
 start_tag(void)
 {
   if (!first_tag) {
-    strcat(tag_text, ", ");
+    append_text(&tag_text, ", ");
   }
   first_tag = 0;
 }
@@ -424,24 +424,24 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
+  if (tag_text.len > 1) { /* '[' is pre-inserted by start_tags */
+    append_text(&tag_text, "\n");
   }
-  strcat(tag_text, make_texsafe(brivla));
-  strcat(tag_text, place);
-  strcat(tag_text, brac ? " (" : " ");
-  strcat(tag_text, make_texsafe(trans));
+  append_text(&tag_text, make_texsafe(brivla));
+  append_text(&tag_text, place);
+  append_text(&tag_text, brac ? " (" : " ");
+  append_text(&tag_text, make_texsafe(trans));
   if (brac) {
-    strcat(tag_text, ")");
+    append_text(&tag_text, ")");
   }
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
+  if (tag_text.len > 1) { /* '[' is pre-inserted by start_tags */
+    append_text(&tag_text, "\n");
   }
-  strcat(tag_text, make_texsafe(t));
+  append_text(&tag_text, make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/textblk.c b/textblk.c
index a61da77..7f6cea9 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,8 +19,6 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 131072
-
 typedef enum {
   ST_OPEN,
   ST_TEXT,
@@ -35,28 +33,28 @@ static States state;
 
 /* Variables to hold block being built */
 static int tags_used;
-static char tag_text[MAX_TAGS][BUFFER_SIZE];
-static char loj_text[BUFFER_SIZE];
-static char eng_text[BUFFER_SIZE];
+static TextBuffer tag_text[MAX_TAGS];
+static TextBuffer loj_text;
+static TextBuffer eng_text;
 
 /* Variables to hold line being constructed */
 static int current_width; /* The width of the line buffer currently occupied */
-static char tag_line[MAX_TAGS][BUFFER_SIZE];
+static TextBuffer tag_line[MAX_TAGS];
 static int line_tags_used;
-static char loj_line[BUFFER_SIZE];
-static char eng_line[BUFFER_SIZE];
+static TextBuffer loj_line;
+static TextBuffer eng_line;
 
 static void clear_line_buffer(void)/*{{{*/
 {
   int i;
 
   for (i=0; i<MAX_TAGS; i++) {
-    tag_line[i][0] = 0;
+    clear_text(&tag_line[i]);
   }
   line_tags_used = 0;
 
-  loj_line[0] = 0;
-  eng_line[0] = 0;
+  clear_text(&loj_line);
+  clear_text(&eng_line);
 
   current_width = 0;
 }
@@ -67,15 +65,15 @@ static void initialise(void)/*{{{*/
 
   state = ST_START;
   for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+    clear_text(&tag_text[i]);
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_text(&loj_text);
+  clear_text(&eng_text);
   tags_used = 0;
 
   clear_line_buffer();
 
-  max_width = (opt_output_width < BUFFER_SIZE / 2) ? opt_output_width : BUFFER_SIZE / 2;
+  max_width = opt_output_width;
 }
 /*}}}*/
 static void write_prologue(void)/*{{{*/
@@ -89,12 +87,12 @@ static void flush_line(void)/*{{{*/
   
   if (current_width == 0) return;
 
-  fputs(loj_line, stdout);
+  fputs(loj_line.s, stdout);
   fputs("\n", stdout);
-  fputs(eng_line, stdout);
+  fputs(eng_line.s, stdout);
   fputs("\n", stdout);
   for (i=0; i<line_tags_used; i++) {
-    fputs(tag_line[i], stdout);
+    fputs(tag_line[i].s, stdout);
     fputs("\n", stdout);
   }
   fputs("\n", stdout);
@@ -121,20 +119,15 @@ static void clear_eols(void)/*{{{*/
     pending_eols = 0;
   }
 }/*}}}*/
-static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
+static void append_to_width(char *src, TextBuffer *dbuf, int wid)/*{{{*/
 /* Append a string onto a buffer, and right pad with spaces to bring up
   to a specific width */
 {
-  int len, toadd, i;
-  char *p;
-  len = strlen(src);
-  toadd = wid - len;
-  strcat(dbuf, src);
-  p = dbuf + strlen(dbuf);
-  for (i=0; i<toadd; i++) {
-    *p++ = ' ';
+  int i;
+  append_text(dbuf, src);
+  for (i=strlen(src); i<wid; i++) {
+    append_text(dbuf, " ");
   }
-  *p = '\0';
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -142,16 +135,16 @@ static void flush_block(void)/*{{{*/
   int i;
   int max_len, len;
 
-  if (!loj_text[0] && !eng_text[0] && (tags_used == 0)) return; /* Nothing to flush */
+  if (!loj_text.len && !eng_text.len && (tags_used == 0)) return; /* Nothing to flush */
 
   /* Calculate width of block */
   max_len = 0;
-  len = strlen(loj_text);
+  len = loj_text.len;
   if (len > max_len) max_len = len;
-  len = strlen(eng_text);
+  len = eng_text.len;
   if (len > max_len) max_len = len;
   for (i=0; i<tags_used; i++) {
-    len = strlen(tag_text[i]);
+    len = tag_text[i].len;
     if (len > max_len) max_len = len;
   }
   
@@ -159,20 +152,20 @@ static void flush_block(void)/*{{{*/
     flush_line();
   }
 
-  append_to_width(loj_text, loj_line, max_len);
-  append_to_width(eng_text, eng_line, max_len);
+  append_to_width(loj_text.s, &loj_line, max_len);
+  append_to_width(eng_text.s, &eng_line, max_len);
 
   for (i=0; i<tags_used; i++) {
     if (i >= line_tags_used) {
-      append_to_width("", tag_line[i], current_width);
+      append_to_width("", &tag_line[i], current_width);
     }
-    append_to_width(tag_text[i], tag_line[i], max_len);
+    append_to_width(tag_text[i].s, &tag_line[i], max_len);
   }
 
   /* Space-pad the tag lines on words that don't generate enough
      tags. */
   for (i=tags_used; i<line_tags_used; i++) {
-    append_to_width("", tag_line[i], max_len);
+    append_to_width("", &tag_line[i], max_len);
   }
   
   current_width += max_len;
@@ -181,10 +174,10 @@ static void flush_block(void)/*{{{*/
 
   /* Clear the block buffers for the next lot */
   for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+    clear_text(&tag_text[i]);
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_text(&loj_text);
+  clear_text(&eng_text);
 
   tags_used = 0;
   
@@ -202,6 +195,23 @@ static void write_epilog(void)/*{{{*/
   flush_line();
   return;
 }/*}}}*/
+static void set_bracket_line(TextBuffer *b, char *text)/*{{{*/
+{
+  clear_text(b);
+  append_text(b, text);
+  append_text(b, " ");
+}/*}}}*/
+static void set_bracket_block(char *b1, char *b2, char *b3, int subscript)/*{{{*/
+{
+  char number[16];
+
+  sprintf(number, "%d", subscript);
+  set_bracket_line(&loj_text, b1);
+  set_bracket_line(&eng_text, b2);
+  set_bracket_line(&tag_text[0], b3);
+  set_bracket_line(&tag_text[1], number);
+  tags_used = 2;
+}/*}}}*/
 static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
@@ -209,7 +219,7 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0] || tags_used > 0) {
+  if (loj_text.len || eng_text.len || tags_used > 0) {
     flush_block();
   }
 
@@ -249,17 +259,9 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac1, brac2, brac3, subscript);
   }
 
   state = ST_OPEN;
@@ -273,7 +275,7 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
@@ -311,17 +313,9 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac1, brac2, brac3, subscript);
   }
 
   state = ST_CLOSE;
@@ -330,24 +324,24 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 static void write_lojban_text(char *text)/*{{{*/
 {
 
-  if (eng_text[0]) {
+  if (eng_text.len) {
     flush_block();
   }
 
   clear_eols();
 
-  strcat(loj_text, text);
-  strcat(loj_text, " ");
+  append_text(&loj_text, text);
+  append_text(&loj_text, " ");
 
 }/*}}}*/
 static void write_special(char *text)/*{{{*/
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "<-");
+    append_text(&eng_text, "<-");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "\"");
+    append_text(&eng_text, "\"");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"\"");
+    append_text(&eng_text, "\"");
   }
 }/*}}}*/
 static void write_translation(char *text)/*{{{*/
@@ -355,8 +349,8 @@ static void write_translation(char *text)/*{{{*/
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, text);
-    strcat(eng_text, " ");
+    append_text(&eng_text, text);
+    append_text(&eng_text, " ");
   }
 }
 /*}}}*/
@@ -366,7 +360,7 @@ static int first_tag;
 
 static void start_tags(void)/*{{{*/
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   clear_eols();
@@ -386,21 +380,18 @@ static void start_tag(void)/*{{{*/
 /*}}}*/
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  char buffer1[65536], buffer2[65536];
+  TextBuffer *tag = &tag_text[tags_used];
 
-  sprintf(buffer1, "%s%s ", brivla, place);
-  if (brac) {
-    sprintf(buffer2, "(%s) ", trans);
-  } else {
-    sprintf(buffer2, "%s ", trans);
-  }
-  strcat(tag_text[tags_used], buffer1);
-  strcat(tag_text[tags_used], buffer2);
+  append_text(tag, brivla);
+  append_text(tag, place);
+  append_text(tag, brac ? " (" : " ");
+  append_text(tag, trans);
+  append_text(tag, brac ? ") " : " ");
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  strcat(tag_text[tags_used], t);
+  append_text(&tag_text[tags_used], t);
 }
 /*}}}*/
 
-- 
2.43.0


From 17c992d12fc933bd6810b5f0171939b9600a76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 48/56] fix: -se could suggest omitting the boi between a
 letter or number and a number before moi, mai or roi

---
 elide.c | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/elide.c b/elide.c
index 7852d96..900ac4f 100644
--- a/elide.c
+++ b/elide.c
@@ -629,6 +629,32 @@ elide_tokens_pending(void)
   return tokbuf.n - tokbuf.rp;
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Record whether the token just handed to the parser is PA or a letter cmavo,
+  if it is the last one in the buffer
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+note_pa_etc(int value)
+{
+  if (tokbuf.rp < tokbuf.n) return;
+
+  /* Single token, or non-elidable at end of tokbuf */
+  switch (value) {
+    case PA:
+    case BU:
+    case BY:
+    case LAU:
+    case TEI:
+    case FOI:
+      cur_token_was_pa_etc = 1;
+      break;
+    default:
+      cur_token_was_pa_etc = 0;
+      break;
+  }
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Provide the yylex function
   ++++++++++++++++++++++++++++++++++++++*/
@@ -669,6 +695,7 @@ yylex(void)
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
+    note_pa_etc(result);
     return result;
     
   } else {
@@ -701,24 +728,7 @@ yylex(void)
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
 
-    if (tokbuf.rp == tokbuf.n) {
-      /* Single token, or non-elidable at end of tokbuf */
-      switch (result) {
-        case PA:
-        case BU:
-        case BY:
-        case LAU:
-        case TEI:
-        case FOI:
-          cur_token_was_pa_etc = 1;
-          break;
-        default:
-          cur_token_was_pa_etc = 0;
-          break;
-
-      }
-    }
-    
+    note_pa_etc(result);
     return result;
 
   } 
-- 
2.43.0


From e5de2114151f9ba7ce33b0732f5c3f0e6631ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 49/56] fix: glosses of compounds were overwritten while being
 put together

---
 translate.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/translate.c b/translate.c
index ed21ff0..29eb2c9 100644
--- a/translate.c
+++ b/translate.c
@@ -45,10 +45,9 @@ char * translate(char *word)/*{{{*/
   char *buf;
   char *res;
 
-  buf = GETBUF();
-  
   res = dict_lookup(word);
   if (res) {
+    buf = GETBUF();
     strcpy(buf, res);
     return buf;
   } else {
@@ -63,7 +62,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   Component *comp;
   int ncomp;
   char *canon;
-  char *result;
+  char result[65536]; /* the buffers from GETBUF are reused while translating the components */
   char *trans;
   int i;
   int xplace;
@@ -76,7 +75,6 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     /* Prevent infinite recursion */
     return NULL;
   }
-  result = GETBUF();
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
@@ -90,7 +88,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     }
   }
 
-  return result;
+  return strcpy(GETBUF(), result);
 
 }/*}}}*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
@@ -98,7 +96,7 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   Component *comp;
   int n_comps;
-  static char buffer[65536];
+  char buffer[65536];
   char *trans;
   int i;
 
@@ -117,7 +115,7 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
       strcat(buffer, "?");
     }
   }   
-  return buffer;
+  return strcpy(GETBUF(), buffer);
 }/*}}}*/
 char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
 /* ================================================== */
@@ -706,11 +704,12 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 }/*}}}*/
 static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
 {
-  char *result = GETBUF();
+  char result[65536], pattern[65536]; /* the buffers from GETBUF are reused while translating the base */
   char *p, *q, *r;
   char *localtrans;
+  strcpy(pattern, trans);
   q = result;
-  p = trans;
+  p = pattern;
   while (*p) {
     if (*p == '%') {
       int place = *++p - '0';
@@ -739,7 +738,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
     }
   }
   *q = 0;
-  return result;
+  return strcpy(GETBUF(), result);
 }/*}}}*/
 static int comp_place(Component *comp, int place)/*{{{*/
 /* Conversions only affect the first 5 places. */
-- 
2.43.0


From e8c7e28a1b37c8e209bba4a0958f533f0e47f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 50/56] fix: a dictionary entry with an unknown class letter
 crashed the full outputs

---
 translate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 29eb2c9..d1739ed 100644
--- a/translate.c
+++ b/translate.c
@@ -1006,7 +1006,9 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       w1n[0] = 0;
     }
 
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    trans = fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans);
+    if (!trans) return "??"; /* Bogus extended entry */
+    strcpy(result, trans);
 
     return result;
 
-- 
2.43.0


From 129febd9e0118a910412a4ddefe5e11475a5d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:14 +0000
Subject: [PATCH 51/56] fix: lujvo patterns tried after one that did not apply
 were matched against another word

---
 translate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translate.c b/translate.c
index d1739ed..210ed59 100644
--- a/translate.c
+++ b/translate.c
@@ -883,6 +883,9 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   /* If it's not got a '+' in it, give up too. */
   if (!strchr(canon, '+')) return NULL;
 
+  /* Translating the parts looks up other words */
+  canon = new_string(canon);
+
   /* Split components into array. Work from the right. */
   comp = split_into_comps(canon, &ncomp);
 
-- 
2.43.0


From 76371abc52d5ed1f71f8bdfc0358cc8bd260b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 52/56] fix: -se suggested omitting terminators that carry an
 utterance ordinal

---
 categ.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/categ.c b/categ.c
index 268d31e..fb70fd1 100644
--- a/categ.c
+++ b/categ.c
@@ -809,7 +809,6 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
           case SOI:
           case COI:
           case DOI:
-          case PRIVATE_NUMBER_MAI:
           case TO:
           case XI:
             x->data.cmavo.followed_by_free = 1;
@@ -818,6 +817,8 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
             x->data.cmavo.followed_by_free = 0;
             break;
         }
+      } else if (y->type == N_MARKER && y->data.marker.tok == PRIVATE_NUMBER_MAI) {
+        x->data.cmavo.followed_by_free = 1;
       } else {
         x->data.cmavo.followed_by_free = 0;
       }
-- 
2.43.0


From 7543f16184a23f64c8be9feb701f87c1efad7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 53/56] fix: cmafihe glosses the word after a pause inside a
 run of cmavo

After a word that was found, the pause before the next one stayed in place
and was looked up with it: mi.e was glossed [I, me ?].  A word with y that
is not in the dictionary counted as two unknown words.
---
 cm_gather.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index 383adaf..d9ba897 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -173,13 +173,13 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
   buf2 = new_string(lojban);
 
   pbuf = buf;
-  if (*pbuf == '.') {
-    pbuf++;
-  }
 #if DIAG
   fprintf(stderr, "Start with %s\n", pbuf);
 #endif
   while (*pbuf) {
+    if (*pbuf == '.') {
+      pbuf++;
+    }
     e = pbuf;
     while (*e) e++;
     while (e > pbuf) {
@@ -209,7 +209,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (e > pbuf && strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiouy'", *e));
       }
     }
     if (bufout[0]) {
@@ -218,9 +218,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
     bufout = append_string(bufout, "?");
     do {
       pbuf++;
-    } while (*pbuf && strchr("aeiou'", *pbuf));
-
-    if (*pbuf == '.') ++pbuf;
+    } while (*pbuf && strchr("aeiouy'", *pbuf));
 
   next_outer:
     ;
-- 
2.43.0


From 47517dd8b304404093002a4b680665cd35adb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 54/56] fix: cmafihe applies a conversion to one component only

When the dictionary has no entry for the converted place of a component,
the conversion stayed on for the next one as well.
---
 cm_translate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cm_translate.c b/cm_translate.c
index 7df4f43..ee9f6e7 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -93,6 +93,7 @@ translate_comp(char *w, int *conversion)
       } else {
         strcat (result, "??");
       }
+      *conversion = 0;
       return result;
     }
   } else {
-- 
2.43.0


From 3a62f1be633376bc6f3ac3d1157cc186bccc6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:01 +0000
Subject: [PATCH 55/56] fix: cmafihe puts no dash before the first component
 after a conversion

selbroda, with no entry for its second place, was glossed
[-2nd conv-predicate var 1].
---
 cm_translate.c | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index ee9f6e7..e2b742d 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -38,22 +38,13 @@ translate(char *word)
 /* ================================================== */
 
 static void
-append_trans(char *trans, char *result, int initial)
+append_trans(char *trans, char *result, int *first)
 {
-  if (trans) {
-    if (initial) {
-      strcpy(result, trans);
-    } else {
-      strcat(result, "-");
-      strcat(result, trans);
-    }
-  } else {
-    if (initial) {
-      strcpy(result, "?");
-    } else {
-      strcat(result, "-?");
-    }
+  if (!*first) {
+    strcat(result, "-");
   }
+  strcat(result, trans ? trans : "?");
+  *first = 0;
 }
 
 
@@ -113,7 +104,7 @@ translate_lujvo(char *word)
   static char *result = NULL;
   char buf[64];
   char *w, *trans;
-  int initial;
+  int initial, first;
   char *yy;
   int ypos=0;
   int conversion=0;
@@ -125,12 +116,13 @@ translate_lujvo(char *word)
   w = word;
   result[0] = 0;
   initial = 1;
+  first = 1;
 
   do {
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, initial);
+      append_trans(trans, result, &first);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -141,17 +133,7 @@ translate_lujvo(char *word)
         strcpy(buf,"%");
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
-        if (trans) {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, trans);
-        } else {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, "?");
-        }
+        append_trans(trans, result, &first);
         break;
       } else {
         /* Try to pull off leading rafsi component and process remainder */
@@ -174,7 +156,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, &first);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -183,7 +165,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, initial);
+          append_trans(trans, result, &first);
           w += 5; /* and go around again */
 
         } else {
@@ -197,7 +179,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, &first);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -222,7 +204,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, initial);
+              append_trans(trans, result, &first);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
-- 
2.43.0


From 8f8356015e88726a607bc354082ec015c51d007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:14 +0000
Subject: [PATCH 56/56] fix: cmafihe shows a converted component without its
 class letter

selklama was glossed [D;destination], with the letter that tells jbofihe how
to inflect the place.
---
 cm_translate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cm_translate.c b/cm_translate.c
index e2b742d..0d98af3 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -87,6 +87,10 @@ translate_comp(char *w, int *conversion)
       *conversion = 0;
       return result;
     }
+    if (isupper((unsigned char) trans[0]) && (trans[1] == ';')) {
+      /* The class of the place is of no interest here */
+      trans += 2;
+    }
   } else {
     trans = translate(w);
   }
-- 
2.43.0

