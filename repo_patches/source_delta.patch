From aa5a75818a9e86653bda9d645e826b878f83aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 01/17] fix: search the LocDelta list with its iterator

ohcount_loc_delta_list_add_loc_delta() compared every step with the head
entry, so a language that was not the first in the list was appended again
instead of being summed into its existing entry.
---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..0b47e5d 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From c4a32229dc33b88e9b9e65594e00e94652968228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 02/17] fix: do not skip blanks past the end of a reported line

parser_callback() skipped leading blanks without looking at the end of the
reported range; a range of blanks followed by more blanks gave a negative
length, which strncpy() takes as a huge one.
---
 src/sourcefile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..122474a 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -179,10 +179,10 @@ void parser_callback(const char *language, const char *entity, int start,
   }
 
   if (strcmp(entity, "lcode") == 0) {
-    while (*p == ' ' || *p == '\t') p++;
+    while (p < pe && (*p == ' ' || *p == '\t')) p++;
     ohcount_parsed_language_add_code(lang, p, pe - p);
   } else if (strcmp(entity, "lcomment") == 0) {
-    while (*p == ' ' || *p == '\t') p++;
+    while (p < pe && (*p == ' ' || *p == '\t')) p++;
     ohcount_parsed_language_add_comment(lang, p, pe - p);
   } else if (strcmp(entity, "lblank") == 0) {
     lang->blanks_count++;
-- 
2.43.0


From 48360107f7bfa4d2c686f55b50cfd08dfe342ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:54 +0000
Subject: [PATCH 03/17] fix: do not look before the start of a path for its
 extension

---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 122474a..9827d7b 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ? p :
+                    sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From 69bc64a9d9d4272ae142fd33a9d7b73d424d39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 04/17] fix: do not read a file whose size cannot be told

---
 src/sourcefile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 9827d7b..b93f70b 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -90,8 +90,8 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
       fseek(f, 0, SEEK_END);
       int size = ftell(f);
       rewind(f);
-      sourcefile->contents = malloc(size + 1);
-      if (fread(sourcefile->contents, size, 1, f) != 1) {
+      sourcefile->contents = (size > 0) ? malloc(size + 1) : NULL;
+      if (size <= 0 || fread(sourcefile->contents, size, 1, f) != 1) {
         free(sourcefile->contents);
         sourcefile->contents = NULL;
         sourcefile->size = 0;
-- 
2.43.0


From faa7c4eef40063284652dee72a601f3fb13fa6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 05/17] fix: register coffeescript and tex_dtx under their own
 names

---
 src/hash/languages.gperf | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..86bd34b 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -115,6 +115,7 @@ sql, LANG_SQL, "SQL", 0
 swift, LANG_SWIFT, "Swift", 0
 tcl, LANG_TCL, "TCL", 0
 tex, LANG_TEX, "TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 umple, LANG_UMPLE, "Umple", 0
 unrealscript, LANG_UNREALSCRIPT, "UnrealScript", 0
 typescript, LANG_TYPESCRIPT, "TypeScript", 0
-- 
2.43.0


From 185a3bd536924e1096dfc99890996aa1f07ce0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:22 +0000
Subject: [PATCH 06/17] fix: take a vertical tab as white space in every parser

---
 src/parsers/common.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..af07b58 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -5,7 +5,7 @@ machine common;
 
 # whitespace, non-printables
 ws = [\t ];
-spaces = [\t ]+;
+spaces = [\t\v ]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From 9a3f19a485b5c919bdc72cf0a54647b834fb7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 07/17] fix: report other limbo entities under limbo's own
 index

---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..227cb9c 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 4befd64c57cb8dd2af5ec061ba5edfe2873d98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 08/17] fix: start the line at the closing tag of embedded CSS,
 Javascript and C#

---
 src/parsers/clearsilverhtml.rl |  8 ++++----
 src/parsers/cs_aspx.rl         | 12 ++++++------
 src/parsers/html.rl            |  8 ++++----
 src/parsers/jsp.rl             |  8 ++++----
 src/parsers/phphtml.rl         |  8 ++++----
 src/parsers/rhtml.rl           |  8 ++++----
 src/parsers/vb_aspx.rl         | 12 ++++++------
 7 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..83d5afd 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -98,7 +98,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
   cshtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -110,7 +110,7 @@ enum {
   *|;
 
   cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -157,7 +157,7 @@ enum {
   }
 
   cshtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cshtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cshtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cshtml_css_entity := |*
     cshtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -168,7 +168,7 @@ enum {
   *|;
 
   cshtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cshtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cshtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cshtml_js_entity := |*
     cshtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..c77a3aa 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -96,7 +96,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
   cs_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -108,7 +108,7 @@ enum {
   *|;
 
   cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -120,7 +120,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' @ls /script/i ws_or_inl* '>' @check_blank_outry) @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
@@ -155,7 +155,7 @@ enum {
   }
 
   cs_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cs_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cs_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cs_aspx_css_entity := |*
     cs_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +166,7 @@ enum {
   *|;
 
   cs_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cs_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cs_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cs_aspx_js_entity := |*
     cs_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +177,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..8509f05 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -70,7 +70,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
 
   html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  html_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -82,7 +82,7 @@ enum {
   *|;
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  html_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -113,7 +113,7 @@ enum {
   }
 
   html_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  html_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  html_css_outry_entity = '</' /style/i (ws | newline)* '>';
   html_css_entity := |*
     html_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   html_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  html_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  html_js_outry_entity = '</' /script/i (ws | newline)* '>';
   html_js_entity := |*
     html_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..f2d860e 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -98,7 +98,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
   jsp_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -110,7 +110,7 @@ enum {
   *|;
 
   jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -156,7 +156,7 @@ enum {
   }
 
   jsp_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  jsp_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  jsp_css_outry_entity = '</' /style/i (ws | newline)* '>';
   jsp_css_entity := |*
     jsp_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   jsp_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  jsp_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  jsp_js_outry_entity = '</' /script/i (ws | newline)* '>';
   jsp_js_entity := |*
     jsp_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..7622960 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -98,7 +98,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
   phtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -110,7 +110,7 @@ enum {
   *|;
 
   phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -156,7 +156,7 @@ enum {
   }
 
   phtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  phtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  phtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   phtml_css_entity := |*
     phtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   phtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  phtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  phtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   phtml_js_entity := |*
     phtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..fe30fcb 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -98,7 +98,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
   rhtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -110,7 +110,7 @@ enum {
   *|;
 
   rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -156,7 +156,7 @@ enum {
   }
 
   rhtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  rhtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  rhtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   rhtml_css_entity := |*
     rhtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   rhtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  rhtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  rhtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   rhtml_js_entity := |*
     rhtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..2d4fb4d 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -96,7 +96,7 @@ enum {
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
   vb_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_css_outry = '</' @ls /style/i ws_or_inl* '>' @check_blank_outry @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -108,7 +108,7 @@ enum {
   *|;
 
   vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_js_outry = '</' @ls /script/i ws_or_inl* '>' @check_blank_outry @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -120,7 +120,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' @ls /script/i ws_or_inl* '>' @check_blank_outry) @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
@@ -155,7 +155,7 @@ enum {
   }
 
   vb_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  vb_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  vb_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   vb_aspx_css_entity := |*
     vb_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +166,7 @@ enum {
   *|;
 
   vb_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  vb_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  vb_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   vb_aspx_js_entity := |*
     vb_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +177,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
-- 
2.43.0


From f71c2e94afe58b962c00df47f1727743ed661dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 09/17] fix: start the line when PHP ends inside an HTML
 comment or string

---
 src/parsers/phphtml.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 7622960..ff2aa98 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -124,7 +124,11 @@ enum {
   phtml_php_entry = ('<?' 'php'?) @code;
   phtml_php_outry = '?>' @check_blank_outry @code;
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    phtml_php_outry ${
+      // a comment or string we return to is no scanner and cannot begin a line
+      if (!line_start && stack[top - 1] != phtml_en_phtml_line) line_start = ts;
+      p = ts; fret;
+    };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
-- 
2.43.0


From 305d15d6354ec0df0302b9b82ec158cebca7970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 10/17] fix: report a last line that is neither code nor
 comment but not blank

---
 src/parser_macros.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..cdbba9b 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -243,6 +243,21 @@ void free_queue() {
   seen = 0; \
 }
 
+/**
+ * Determines whether or not the rest of the buffer is blank.
+ * A carriage return at the very end is no line of its own.
+ * @param s The first character to look at.
+ * @param e The end of the buffer (exclusive).
+ * @return 1 if there is nothing but white space, 0 otherwise.
+ */
+int is_blank_rest(const char *s, const char *e) {
+  for (; s < e; s++) {
+    if (*s != ' ' && *s != '\t' && *s != '\v' && !(*s == '\r' && s + 1 == e))
+      return 0;
+  }
+  return 1;
+}
+
 /**
  * Processes the last line for buffers that don't have a newline at EOF.
  * This is typically used at the end of the parse_lang function after the Ragel
@@ -251,11 +266,13 @@ void free_queue() {
  * @note Applies only to line counting parsers.
  */
 #define process_last_line(lang) {\
-  if ((whole_line_comment || line_contains_code) && callback) { \
+  if (callback) { \
     if (line_contains_code) \
       callback(lang, "lcode", cint(line_start), cint(pe), userdata); \
     else if (whole_line_comment) \
       callback(lang, "lcomment", cint(line_start), cint(pe), userdata); \
+    else if (line_start && !is_blank_rest(line_start, pe)) \
+      callback(lang, "lblank", cint(line_start), cint(pe), userdata); \
   } \
 }
 
-- 
2.43.0


From 9596b1968a4cb28eba7fd6859b6e6843a9acedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 11/17] fix: give Octave its name

---
 src/hash/languages.gperf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 86bd34b..858e518 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -86,7 +86,7 @@ oberon, LANG_OBERON, "Oberon", 0
 objective_c, LANG_OBJECTIVE_C, "Objective-C", 0
 objective_j, LANG_OBJECTIVE_J, "Objective-J", 0
 ocaml, LANG_OCAML, "Objective Caml", 0
-octave, LANG_OCTAVE, "", 0
+octave, LANG_OCTAVE, "Octave", 0
 pascal, LANG_PASCAL, "Pascal", 0
 perl, LANG_PERL, "Perl", 0
 php, LANG_PHP, "PHP", 0
-- 
2.43.0


From 783779dd053d7fe0df09260e0ba1cb553fb6c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 12/17] fix: count the quote of an unclosed multi-line string
 as code, not as a newline

---
 src/parsers/cmake.rl   | 9 ++++++++-
 src/parsers/crystal.rl | 9 ++++++++-
 src/parsers/grace.rl   | 9 ++++++++-
 src/parsers/jam.rl     | 9 ++++++++-
 src/parsers/perl.rl    | 9 ++++++++-
 src/parsers/php.rl     | 9 ++++++++-
 src/parsers/ruby.rl    | 9 ++++++++-
 src/parsers/shell.rl   | 9 ++++++++-
 8 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/parsers/cmake.rl b/src/parsers/cmake.rl
index 00ea34f..3332383 100644
--- a/src/parsers/cmake.rl
+++ b/src/parsers/cmake.rl
@@ -49,6 +49,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action cmake_any {
+    entity = CMAKE_ANY;
+    code
+  }
+
   action es {
     printf("endstring\n");
   }
@@ -73,7 +80,7 @@ enum {
     cmake_comment;
     cmake_string;
     newline        ${ entity = NEWLINE;     } => cmake_ccallback;
-    ^space         ${ entity = CMAKE_ANY;   } => cmake_ccallback;
+    ^space         => cmake_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/crystal.rl b/src/parsers/crystal.rl
index 31b582f..0101963 100644
--- a/src/parsers/crystal.rl
+++ b/src/parsers/crystal.rl
@@ -44,6 +44,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action crystal_any {
+    entity = CRYSTAL_ANY;
+    code
+  }
+
   crystal_line_comment = '#' @comment nonnewline*;
   # TODO: detect =begin and =end at start of their lines
   # Can't do that now because using 'when starts_line' fails a Ragel assertion.
@@ -122,7 +129,7 @@ enum {
     crystal_comment;
     crystal_string;
     newline       ${ entity = NEWLINE;    } => crystal_ccallback;
-    ^space        ${ entity = CRYSTAL_ANY;   } => crystal_ccallback;
+    ^space        => crystal_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..92e0b3b 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -45,6 +45,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action grace_any {
+    entity = GRACE_ANY;
+    code
+  }
+
   grace_comment = '//' @comment nonnewline*;
 
   grace_string =
@@ -61,7 +68,7 @@ enum {
     grace_comment;
     grace_string;
     newline        ${ entity = NEWLINE;     } => grace_ccallback;
-    ^space         ${ entity = GRACE_ANY;   } => grace_ccallback;
+    ^space         => grace_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..55fbfde 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -44,6 +44,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action jam_any {
+    entity = JAM_ANY;
+    code
+  }
+
   jam_comment = '#' @comment nonnewline*;
 
   jam_sq_str =
@@ -74,7 +81,7 @@ enum {
     jam_comment;
     jam_string;
     newline        ${ entity = NEWLINE;     } => jam_ccallback;
-    ^space         ${ entity = JAM_ANY;   } => jam_ccallback;
+    ^space         => jam_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..b51a8d8 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -44,6 +44,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action perl_any {
+    entity = PERL_ANY;
+    code
+  }
+
   perl_line_comment = '#' @comment nonnewline*;
   perl_block_comment =
     '=' when starts_line @enqueue @comment nonnewline+ (
@@ -100,7 +107,7 @@ enum {
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
     '=' when !starts_line;
-    ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
+    ^(space | '=') => perl_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index e949794..0abb33c 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -48,6 +48,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action php_any {
+    entity = PHP_ANY;
+    code
+  }
+
   php_line_comment = ('//' | '#') @comment nonnewline*;
   php_block_comment =
     '/*' @comment (
@@ -87,7 +94,7 @@ enum {
     php_comment;
     php_string;
     newline      ${ entity = NEWLINE;   } => php_ccallback;
-    ^space       ${ entity = PHP_ANY;   } => php_ccallback;
+    ^space       => php_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/ruby.rl b/src/parsers/ruby.rl
index 8426900..4e02fc2 100644
--- a/src/parsers/ruby.rl
+++ b/src/parsers/ruby.rl
@@ -44,6 +44,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action ruby_any {
+    entity = RUBY_ANY;
+    code
+  }
+
   ruby_line_comment = '#' @comment nonnewline*;
   # TODO: detect =begin and =end at start of their lines
   # Can't do that now because using 'when starts_line' fails a Ragel assertion.
@@ -132,7 +139,7 @@ enum {
     ruby_comment;
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
-    ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
+    ^space        => ruby_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..c9ea543 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -44,6 +44,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action shell_any {
+    entity = SHELL_ANY;
+    code
+  }
+
   shell_comment = '#' @comment nonnewline*;
 
   shell_sq_str =
@@ -78,7 +85,7 @@ enum {
     shell_comment;
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
-    ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
+    ^space         => shell_any;
   *|;
 
   # Entity machine
-- 
2.43.0


From 22df3cc1a9e59354abb6a02e98be06389c852519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:26 +0000
Subject: [PATCH 13/17] fix: keep the lines of an unclosed perl pod block that
 ends in a bare CR or holds a VT

---
 src/parsers/perl.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b51a8d8..941403a 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -58,7 +58,7 @@ enum {
       |
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
       |
-      ws
+      ws | '\v' | '\r' when { p+1 == pe }
       |
       ^space @comment
     )* %/commit;
-- 
2.43.0


From 78dabad72dc738309aa094161b6a14d24180cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:43 +0000
Subject: [PATCH 14/17] fix: take a vertical tab as blank when looking for the
 end of an entry tag's line

---
 src/parser_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index cdbba9b..8e91eef 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -287,7 +287,7 @@ int is_blank_rest(const char *s, const char *e) {
 int is_blank_entry(char **p) {
   char *pos = *p+1;
   while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+    if (*pos != '\t' && *pos != '\v' && *pos != ' ') return 0;
     pos++;
   }
   if (*pos == '\r' && *(pos+1) == '\n') pos++;
-- 
2.43.0


From 9bc406268e830001be675425fc521fd862df2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 15/17] fix: count the quote of an unclosed string or comment
 as code in the remaining parsers

---
 src/parsers/clearsilverhtml.rl | 13 ++++++++++---
 src/parsers/coffeescript.rl    | 11 +++++++++--
 src/parsers/cs_aspx.rl         | 13 ++++++++++---
 src/parsers/css.rl             |  9 ++++++++-
 src/parsers/haml.rl            | 11 +++++++++--
 src/parsers/html.rl            | 13 ++++++++++---
 src/parsers/javascript.rl      |  9 ++++++++-
 src/parsers/jsp.rl             | 13 ++++++++++---
 src/parsers/lua.rl             |  9 ++++++++-
 src/parsers/nix.rl             | 13 ++++++++++---
 src/parsers/phphtml.rl         | 15 +++++++++++----
 src/parsers/powershell.rl      |  9 ++++++++-
 src/parsers/rhtml.rl           | 15 +++++++++++----
 src/parsers/vb_aspx.rl         | 13 ++++++++++---
 14 files changed, 132 insertions(+), 34 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 83d5afd..f29dcf4 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -56,6 +56,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action cshtml_any {
+    entity = CSHTML_ANY;
+    code
+  }
+
   cshtml_comment := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
@@ -106,7 +113,7 @@ enum {
     css_comment;
     css_string;
     newline      ${ entity = NEWLINE;   } => css_ccallback;
-    ^space       ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space       => css_any;
   *|;
 
   cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -118,7 +125,7 @@ enum {
     js_comment;
     js_string;
     newline     ${ entity = NEWLINE;  } => js_ccallback;
-    ^space      ${ entity = JS_ANY;   } => js_ccallback;
+    ^space      => js_any;
   *|;
 
   cshtml_cs_entry = '<?cs' @code;
@@ -146,7 +153,7 @@ enum {
     '\''         @code                       => { fgoto cshtml_sq_str;  };
     '"'          @code                       => { fgoto cshtml_dq_str;  };
     newline      ${ entity = NEWLINE;      } => cshtml_ccallback;
-    ^space       ${ entity = CSHTML_ANY;   } => cshtml_ccallback;
+    ^space       => cshtml_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..1e6754a 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -45,6 +45,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action coffeescript_any {
+    entity = COFFEESCRIPT_ANY;
+    code
+  }
+
   coffeescript_line_comment = ('#') @comment nonnewline*;
   coffeescript_block_comment =
     '###' @comment (
@@ -104,7 +111,7 @@ enum {
     js_comment;
     js_string;
     newline       ${ entity = NEWLINE;    } => js_ccallback;
-    ^space        ${ entity = JS_ANY;   } => js_ccallback;
+    ^space        => js_any;
   *|;
 
   coffeescript_line := |*
@@ -114,7 +121,7 @@ enum {
     coffeescript_comment;
     coffeescript_string;
     newline         ${ entity = NEWLINE;      } => coffeescript_ccallback;
-    ^space          ${ entity = COFFEESCRIPT_ANY;   } => coffeescript_ccallback;
+    ^space          => coffeescript_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index c77a3aa..17e1d7f 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -54,6 +54,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action cs_aspx_any {
+    entity = CS_ASPX_ANY;
+    code
+  }
+
   cs_aspx_comment := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
@@ -104,7 +111,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -116,7 +123,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
@@ -144,7 +151,7 @@ enum {
     '\''         @code                      => { fgoto cs_aspx_sq_str;  };
     '"'          @code                      => { fgoto cs_aspx_dq_str;  };
     newline      ${ entity = NEWLINE;     } => cs_aspx_ccallback;
-    ^space       ${ entity = CS_ASPX_ANY;   } => cs_aspx_ccallback;
+    ^space       => cs_aspx_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..e5dd827 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -46,6 +46,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action css_any {
+    entity = CSS_ANY;
+    code
+  }
+
   css_comment =
     '/*' @comment (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -82,7 +89,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..382e687 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -52,6 +52,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action haml_any {
+    entity = HAML_ANY;
+    code
+  }
+
 	action haml_indent_level_inc { current_indent_level++; }
 	action haml_indent_level_res { current_indent_level = 0; }
   action haml_indent_level_set { prior_indent_level = current_indent_level; }
@@ -136,7 +143,7 @@ enum {
     ruby_comment;
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
-    ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
+    ^space        => ruby_any;
   *|;
 
   haml_line := |*
@@ -145,7 +152,7 @@ enum {
     haml_comment;
     haml_string;
     newline         ${ entity = NEWLINE;    } => haml_ccallback;
-    ^space          ${ entity = HAML_ANY;   } => haml_ccallback;
+    ^space          => haml_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 8509f05..dc61462 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -54,6 +54,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action html_any {
+    entity = HTML_ANY;
+    code
+  }
+
   html_comment =
     '<!--' @comment (
       newline %{ entity = INTERNAL_NL; } %html_ccallback
@@ -78,7 +85,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -90,7 +97,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   html_line := |*
@@ -103,7 +110,7 @@ enum {
     html_comment;
     html_string;
     newline      ${ entity = NEWLINE;    } => html_ccallback;
-    ^space       ${ entity = HTML_ANY;   } => html_ccallback;
+    ^space       => html_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..ca888d6 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -46,6 +46,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action js_any {
+    entity = JS_ANY;
+    code
+  }
+
   js_line_comment = '//' @comment nonnewline*;
   js_block_comment =
     '/*' @comment (
@@ -87,7 +94,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f2d860e..1f68649 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -56,6 +56,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action jsp_any {
+    entity = JSP_ANY;
+    code
+  }
+
   jsp_comment := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
@@ -106,7 +113,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -118,7 +125,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   jsp_java_entry = '<%' @code;
@@ -146,7 +153,7 @@ enum {
     '\''         @code                    => { fgoto jsp_sq_str;  };
     '"'          @code                    => { fgoto jsp_dq_str;  };
     newline      ${ entity = NEWLINE;   } => jsp_ccallback;
-    ^space       ${ entity = JSP_ANY;   } => jsp_ccallback;
+    ^space       => jsp_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..d768fb5 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -46,6 +46,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action lua_any {
+    entity = LUA_ANY;
+    code
+  }
+
   action lua_long_ec_res { equal_count = 0; }
   action lua_long_ec_inc { equal_count++; }
   action lua_long_ec_dec { equal_count--; }
@@ -96,7 +103,7 @@ enum {
     lua_comment;
     lua_string;
     newline     ${ entity = NEWLINE;   } => lua_ccallback;
-    ^space      ${ entity = LUA_ANY;   } => lua_ccallback;
+    ^space      => lua_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index a95c071..9108349 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -48,6 +48,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action nix_any {
+    entity = NIX_ANY;
+    code
+  }
+
   nix_line_comment = '#' @comment nonnewline*;
 
   nix_block_comment =
@@ -71,7 +78,7 @@ enum {
     shell_comment;
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
-    ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
+    ^space         => shell_any;
   *|;
 
   nix_dsq_shell_entry = "''" @code;
@@ -84,7 +91,7 @@ enum {
     shell_comment;
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
-    ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
+    ^space         => shell_any;
   *|;
 
   nix_line := |*
@@ -96,7 +103,7 @@ enum {
     spaces    ${ entity = NIX_SPACE; } => nix_ccallback;
     nix_comment;
     newline   ${ entity = NEWLINE; } => nix_ccallback;
-    ^space    ${ entity = NIX_ANY;   } => nix_ccallback;
+    ^space    => nix_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index ff2aa98..fd36293 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -56,6 +56,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action phtml_any {
+    entity = PHTML_ANY;
+    code
+  }
+
   phtml_comment := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
@@ -106,7 +113,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -118,7 +125,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
@@ -134,7 +141,7 @@ enum {
     php_comment;
     php_string;
     newline      ${ entity = NEWLINE;   } => php_ccallback;
-    ^space       ${ entity = PHP_ANY;   } => php_ccallback;
+    ^space       => php_any;
   *|;
 
   phtml_line := |*
@@ -150,7 +157,7 @@ enum {
     '\''         @code                      => { fgoto phtml_sq_str;  };
     '"'          @code                      => { fgoto phtml_dq_str;  };
     newline      ${ entity = NEWLINE;     } => phtml_ccallback;
-    ^space       ${ entity = PHTML_ANY;   } => phtml_ccallback;
+    ^space       => phtml_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..095b793 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -42,6 +42,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action powershell_any {
+    entity = POWERSHELL_ANY;
+    code
+  }
+
   powershell_line_comment = '#' @comment nonnewline*;
   powershell_block_comment =
     '<#' @comment (
@@ -85,7 +92,7 @@ enum {
     powershell_comment;
     powershell_string;
     newline        ${ entity = NEWLINE;     } => powershell_ccallback;
-    ^space         ${ entity = POWERSHELL_ANY;   } => powershell_ccallback;
+    ^space         => powershell_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index fe30fcb..dabe099 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -56,6 +56,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action rhtml_any {
+    entity = RHTML_ANY;
+    code
+  }
+
   rhtml_comment := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
@@ -106,7 +113,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -118,7 +125,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   rhtml_ruby_entry = '<%' @code;
@@ -130,7 +137,7 @@ enum {
     ruby_comment;
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
-    ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
+    ^space        => ruby_any;
   *|;
 
   rhtml_line := |*
@@ -146,7 +153,7 @@ enum {
     '\''         @code                      => { fgoto rhtml_sq_str;  };
     '"'          @code                      => { fgoto rhtml_dq_str;  };
     newline      ${ entity = NEWLINE;     } => rhtml_ccallback;
-    ^space       ${ entity = RHTML_ANY;   } => rhtml_ccallback;
+    ^space       => rhtml_any;
   *|;
 
   # Entity machine
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 2d4fb4d..b43fe37 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -54,6 +54,13 @@ enum {
     }
   }
 
+  # Also taken when a string or comment turns out not to be closed, at which
+  # time entity is that of the last newline inside it.
+  action vb_aspx_any {
+    entity = VB_ASPX_ANY;
+    code
+  }
+
   vb_aspx_comment := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
@@ -104,7 +111,7 @@ enum {
     css_comment;
     css_string;
     newline     ${ entity = NEWLINE;   } => css_ccallback;
-    ^space      ${ entity = CSS_ANY;   } => css_ccallback;
+    ^space      => css_any;
   *|;
 
   vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
@@ -116,7 +123,7 @@ enum {
     js_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
-    ^space     ${ entity = JS_ANY;   } => js_ccallback;
+    ^space     => js_any;
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
@@ -144,7 +151,7 @@ enum {
     '\''         @code                      => { fgoto vb_aspx_sq_str;  };
     '"'          @code                      => { fgoto vb_aspx_dq_str;  };
     newline      ${ entity = NEWLINE;     } => vb_aspx_ccallback;
-    ^space       ${ entity = VB_ASPX_ANY;   } => vb_aspx_ccallback;
+    ^space       => vb_aspx_any;
   *|;
 
   # Entity machine
-- 
2.43.0


From a7e2130f08e40b77e6a8d1acfb3d11c6e7d6ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 16/17] fix: look for a blank entry line where embedded
 JavaScript starts in CoffeeScript

---
 src/parsers/coffeescript.rl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 1e6754a..f9c5782 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -42,6 +42,9 @@ enum {
       break;
     case NEWLINE:
       std_newline(COFFEESCRIPT_LANG)
+      break;
+    case CHECK_BLANK_ENTRY:
+      check_blank_entry(COFFEESCRIPT_LANG)
     }
   }
 
@@ -115,7 +118,7 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
+		coffeescript_js_entry @{ entity = CHECK_BLANK_ENTRY; } @coffeescript_ccallback
 			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
-- 
2.43.0


From f658e5dfdc6d91c8161d1d7fce188499f279c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 17/17] fix: drop the queued report when an empty Nix shell
 block ends

---
 src/parsers/nix.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index 9108349..0c67f20 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -71,7 +71,7 @@ enum {
   nix_dq_shell_entry = '"' @code;
   nix_dq_shell_outry = '"' @check_blank_outry @code;
   nix_dq_shell_line := |*
-    nix_dq_shell_outry @{ p = ts; fret; };
+    nix_dq_shell_outry @{ inqueue = 0; p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
@@ -84,7 +84,7 @@ enum {
   nix_dsq_shell_entry = "''" @code;
   nix_dsq_shell_outry = "''" @check_blank_outry @code;
   nix_dsq_shell_line := |*
-    nix_dsq_shell_outry @{ p = ts; fret; };
+    nix_dsq_shell_outry @{ inqueue = 0; p = ts; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-- 
2.43.0

