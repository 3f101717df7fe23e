/* Executable oracle of the count list contracts (C06): count lists against the parsed lists they are built from, and the
   totals of a file list against the sums over its files. */
#include "common.h"
#include "sourcefile.h"
#include "parsed_language.h"
#include "loc.h"
static const char *langs[] = {"c", "html", "css", "javascript", "ruby", "erb", "java", "python", "a", "b", "cpp", "d"};
static const char *names[] = {"x.c", "x.rhtml", "x.html", "x.php", "x.py", "x.rb", "x.zz", "x.css", "x.java"};
static const char *bits[] = {"<html>\n", "int x; /* c */\n", "\n", "  \n", "# y\n", "<% x = 1 %>\n", "<style>\na{}\n</style>\n",
  "<script>\nvar x; // z\n</script>\n", "<?php\n$x = 1; // d\n?>\n", "/* a\n\n b */\n", "// e\n", "def f\n", "text"};
#define M 12
typedef struct { int in[16], code[16], com[16], bl[16]; } T;
static int id(const char *n) { for (int i = 0; i < 12; i++) if (!strcmp(n, langs[i])) return i; return -1; }
static SourceFile *made(int i) {
  int real = rnd(3) == 0;
  SourceFile *s = ohcount_sourcefile_new(real ? names[rnd(9)] : "dir/file.ext");
  if (real) {
    char b[2000] = "";
    for (int k = 0, K = rnd(12); k < K; k++) strcat(b, bits[rnd(13)]);
    ohcount_sourcefile_set_contents(s, b);
    H("file %d: %s with ", i, s->filename); hesc(b, strlen(b)); H("\n");
    return s;
  }
  ohcount_sourcefile_set_contents(s, "x");
  s->parsed_language_list = ohcount_parsed_language_list_new();
  ohcount_sourcefile_parse(s);
  H("file %d: parsed as", i);
  int used = 0;
  for (int k = 0, K = rnd(8); k < K; k++) {
    int l = rnd(12);
    if (used >> l & 1) continue;
    used |= 1 << l;
    ParsedLanguageList *L = s->parsed_language_list, *n = L;
    if (!L->head) { L->head = L->tail = L; }
    else { n = ohcount_parsed_language_list_new(); L->tail->next = n; L->tail = n; }
    n->pl = ohcount_parsed_language_new(langs[l], 4);
    n->pl->code_count = rnd(3) ? rnd(50) : 0; n->pl->comments_count = rnd(3) ? rnd(50) : 0; n->pl->blanks_count = rnd(3) ? rnd(50) : 0;
    H(" %s %d/%d/%d", langs[l], n->pl->code_count, n->pl->comments_count, n->pl->blanks_count);
  }
  H("\n");
  return s;
}
static void run(void) {
  hl = 0; hist[0] = 0;
  SourceFileList *L = ohcount_sourcefile_list_new(), *it;
  int nf = rnd(3) ? 1 + rnd(2) : rnd(7);
  for (int i = 0; i < nf; i++) {
    ohcount_sourcefile_list_add_file(L, "tmp");
    ohcount_sourcefile_free(L->tail->sf);
    L->tail->sf = made(i);
  }
  char sumn[40][40]; int sum[40][4], sn = 0;
  int f = 0;
  int early = rnd(2);
  LocList *all = early ? ohcount_sourcefile_list_analyze_languages(L) : NULL;
  for (it = L->head; it; it = it->next, f++) {
    SourceFile *s = it->sf;
    ParsedLanguageList *q0 = s->parsed_language_list, *q;
    LocList *c = ohcount_sourcefile_get_loc_list(s), *e;
    q = ohcount_sourcefile_get_parsed_language_list(s);
    if (q0 && q != q0) FAIL("file %d: parsed again", f);
    int n = 0, m = 0;
    for (e = c->head; e; e = e->next) n++;
    ParsedLanguageList *p = s->parsed_language_list;
    if (p->head) p = p->head; else p = NULL;
    m = 0;
    for (; p; p = p->next, m++) {
      int hit = 0;
      for (e = c->head; e; e = e->next) if (!strcmp(e->loc->language, p->pl->name)) {
        hit++;
        if (e->loc->code != p->pl->code_count || e->loc->comments != p->pl->comments_count || e->loc->blanks != p->pl->blanks_count || e->loc->filecount != 1)
          FAIL("file %d: %s counts %d %d %d in %d files, not %d %d %d in one", f, p->pl->name, e->loc->code, e->loc->comments, e->loc->blanks,
               e->loc->filecount, p->pl->code_count, p->pl->comments_count, p->pl->blanks_count);
      }
      if (hit != 1) FAIL("file %d: %d entries for %s", f, hit, p->pl->name);
      int k; for (k = 0; k < sn; k++) if (!strcmp(sumn[k], p->pl->name)) break;
      if (k == sn) { sn++; strcpy(sumn[k], p->pl->name); memset(sum[k], 0, sizeof sum[k]); }
      sum[k][0] += p->pl->code_count; sum[k][1] += p->pl->comments_count; sum[k][2] += p->pl->blanks_count; sum[k][3]++;
    }
    if (n != m) FAIL("file %d: %d entries for %d parsed languages", f, n, m);
    ParsedLanguageList *b = s->parsed_language_list;
    if (ohcount_sourcefile_get_loc_list(s) != c) FAIL("file %d: counted again", f);
    ohcount_sourcefile_parse(s);
    if (s->parsed_language_list != b) FAIL("file %d: parsed again", f);
    if (ohcount_sourcefile_get_parsed_language_list(s) != b) FAIL("file %d: parsed again", f);
  }
  for (int twice = 0; twice < 2; twice++) {
    if (!all) all = ohcount_sourcefile_list_analyze_languages(L);
    int n = 0;
    for (LocList *e = all->head; e; e = e->next, n++) {
      int k; for (k = 0; k < sn; k++) if (!strcmp(sumn[k], e->loc->language)) break;
      if (k == sn) FAIL("total for %s, which is in no file", e->loc->language);
      if (e->loc->code != sum[k][0] || e->loc->comments != sum[k][1] || e->loc->blanks != sum[k][2] || e->loc->filecount != sum[k][3])
        FAIL("totals of %s %d %d %d in %d files, not %d %d %d in %d", sumn[k], e->loc->code, e->loc->comments, e->loc->blanks, e->loc->filecount,
             sum[k][0], sum[k][1], sum[k][2], sum[k][3]);
    }
    if (n != sn) FAIL("%d totals for %d languages", n, sn);
    ohcount_loc_list_free(all);
    all = NULL;
  }
  ohcount_sourcefile_list_free(L);
}
int main(int argc, char **argv) {
  hstart(argc, argv);
  for (int i = 0; i < atoi(argv[3]) && !timeup(); i++) run();
  return 0;
}
