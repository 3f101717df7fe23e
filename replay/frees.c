/* Executable oracle of the *_free contracts: build random lists and files, free them, and compare the number of bytes still
   allocated; the sanitizer reports double frees and uses after free.  Only looks for a failing input after an obligation failed. */
#include "common.h"
#include <sanitizer/allocator_interface.h>
#include "loc.h"
#include "parsed_language.h"
#include "licenses.h"
#include "sourcefile.h"
#include "languages.h"

static const char *L[] = {LANG_C, LANG_CPP, LANG_JAVA, LANG_HTML, LANG_ADA, LANG_RUBY, LANG_PHP};
static char *rtext(int n) { char *s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = "ab.c/\\ x\n"[rnd(9)]; s[n] = 0; return s; }
static LocList *rloc(int n) {
  LocList *l = ohcount_loc_list_new();
  for (int i = 0; i < n; i++) { Loc *c = ohcount_loc_new(L[rnd(7)], rnd(3), rnd(3), rnd(3), 1); ohcount_loc_list_add_loc(l, c); ohcount_loc_free(c); }
  return l;
}
static LocDeltaList *rdelta(int n) {
  LocDeltaList *l = ohcount_loc_delta_list_new();
  for (int i = 0; i < n; i++) { LocDelta *c = ohcount_loc_delta_new(L[rnd(7)], rnd(3), rnd(3), rnd(3), 1, 0, 0); ohcount_loc_delta_list_add_loc_delta(l, c); ohcount_loc_delta_free(c); }
  return l;
}
static ParsedLanguageList *rparsed(int n) {
  ParsedLanguageList *h = ohcount_parsed_language_list_new(), *t = h;
  for (int i = 0; i < n && !timeup(); i++) {
    if (i) { t->next = ohcount_parsed_language_list_new(); t = t->next; }
    t->pl = ohcount_parsed_language_new(L[rnd(7)], rnd(40));
    h->head = h; h->tail = t;
  }
  return h;
}
static LicenseList *rlic(int n) {
  LicenseList *h = ohcount_license_list_new(), *t = h;
  for (int i = 0; i < n; i++) { if (i) { t->next = ohcount_license_list_new(); t = t->next; } t->lic = (License *)&L[i % 7]; h->head = h; h->tail = t; }
  return h;
}
static SourceFile *rfile(void) {
  char *p = rtext(rnd(12)), *d = rtext(rnd(8)), *c = rtext(rnd(30)), *e = rtext(rnd(30));
  SourceFile *f = ohcount_sourcefile_new(p);
  unsigned m = rnd(64);
  H("file '%s' with %s%s%s%s%s%s\n", p, m & 1 ? "disk path " : "", m & 2 ? "contents " : "", m & 4 ? "parsed languages " : "",
    m & 8 ? "licences " : "", m & 16 ? "line counts " : "", m & 32 ? "contents twice " : "");
  if (m & 1) ohcount_sourcefile_set_diskpath(f, d);
  if (m & 2) ohcount_sourcefile_set_contents(f, c);
  if (m & 32) { ohcount_sourcefile_set_contents(f, c); ohcount_sourcefile_set_contents(f, e); }
  if (m & 4) f->parsed_language_list = rparsed(rnd(5));
  if (m & 8) f->license_list = rlic(rnd(5));
  if (m & 16) f->loc_list = rloc(rnd(5));
  free(p); free(d); free(c); free(e);
  return f;
}
static size_t base;
static void start(void) { hl = 0; base = __sanitizer_get_current_allocated_bytes(); }
static void end(const char *w) {
  size_t now = __sanitizer_get_current_allocated_bytes();
  if (now != base) FAIL("%s: %ld bytes more are allocated than before", w, (long)(now - base));
}
int main(int argc, char **argv) {
  hstart(argc, argv);
  int n = atoi(argv[3]);
  for (int i = 0; i < n && !timeup(); i++) {
    int k = i < 8 ? i : rnd(7);
    start(); H("loc list of %d additions\n", k); ohcount_loc_list_free(rloc(k)); end("line-count list");
    start(); H("loc delta list of %d additions\n", k); ohcount_loc_delta_list_free(rdelta(k)); end("line-delta list");
    start(); H("parsed-language list of %d\n", k); ohcount_parsed_language_list_free(rparsed(k)); end("parsed-language list");
    start(); H("licence list of %d\n", k); ohcount_license_list_free(rlic(k)); end("licence list");
    start(); ohcount_sourcefile_free(rfile()); end("file");
    start(); {
      SourceFileList *s = ohcount_sourcefile_list_new();
      for (int j = 0; j < k; j++) {
        char *p = rtext(rnd(9)); ohcount_sourcefile_list_add_file(s, p); free(p);
        SourceFileList *t = s; while (t->next) t = t->next;
        if (t->sf) { char *c = rtext(rnd(20)); if (rnd(2)) ohcount_sourcefile_set_contents(t->sf, c); free(c); if (rnd(2)) t->sf->loc_list = rloc(rnd(4)); }
      }
      H("file list of %d\n", k); ohcount_sourcefile_list_free(s); end("file list"); }
    start(); {                                   /* what a list does not own stays valid */
      LocList *a = rloc(k), *b = rloc(rnd(4)); ohcount_loc_list_add_loc_list(a, b);
      int x = ohcount_loc_list_total(a); ohcount_loc_list_free(b); if (ohcount_loc_list_total(a) != x) FAIL("freeing the list added changed the sum");
      LocList *c = ohcount_loc_list_new_compact(a); x = ohcount_loc_list_total(a); ohcount_loc_list_free(a);
      if (ohcount_loc_list_total(c) != x) FAIL("freeing the list changed its compacted copy");
      ohcount_loc_list_free(c); end("added and compacted lists"); }
  }
  return 0;
}
