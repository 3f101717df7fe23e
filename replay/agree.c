/* Executable oracle of C13: the registries agree, row by row and by running the parsers and the detector. */
#include "common.h"
#include <ctype.h>
#include "sourcefile.h"
#include "detector.h"
struct LanguageMap { const char *key, *name, *nice; int category; };
struct ExtensionMap { const char *key, *value; };
struct ParserMap { const char *key; void (*parser)(char *, int, int, void (*)(const char *, const char *, int, int, void *), void *); };
struct LanguageMap *ohcount_hash_language_from_name(const char *, size_t);
struct ExtensionMap *ohcount_hash_language_from_ext(const char *, size_t), *ohcount_hash_language_from_filename(const char *, size_t);
struct ExtensionMap *ohcount_hash_disambiguate_func_from_id(const char *, size_t);
struct ParserMap *ohcount_hash_parser_from_language(const char *, size_t);
static struct LanguageMap *reg(const char *n) { struct LanguageMap *m = ohcount_hash_language_from_name(n, strlen(n)); return m && !strcmp(m->name, n) ? m : 0; }
static char *keys[4][1000]; static int nk[4];
static const char *files[] = {"languages", "extensions", "filenames", "parsers"};
static unsigned char counted[1000], own[1000];
static int idx(const char *n) { for (int i = 0; i < nk[0]; i++) if (!strcmp(keys[0][i], n)) return i; return -1; }
static int me;
static void cb(const char *l, const char *e, int s, int t, void *u) {
  if (!l || !reg(l)) FAIL("the parser of %s reports under %s, which is not registered", keys[3][me], l ? l : "(null)");
  int i = idx(l); if (i >= 0) { counted[i] = 1; if (!strcmp(l, keys[3][me])) own[i] = 1; }
}
static const char *toks[] = {"<?php a ?>", "<% a %>", "<script>a</script>\n", "<style>a</style>\n", "a", "\n", "\n", " ", "/* a */\n", "// a\n", "# a\n", "btex a etex\n", "verbatimtex\na\n etex\n", "<?cs a ?>", "\"a\"", "<script runat=\"server\">\na\n</script>\n", "\\begin{macrocode}\na\n\\end{macrocode}\n", "<mx:Script>\na\n</mx:Script>\n", "%", "-- a\n", "; a\n", "- a\n", "= a\n", ":javascript\n  a\n", "%{a}", "{a}", "(a)", "'a'"};
int main(int argc, char **argv) {
  hstart(argc, argv);
  for (int t = 0; t < 4; t++) {
    char p[1000], l[4000]; snprintf(p, sizeof p, "%s/hash/%s.gperf", argv[4], files[t]);
    FILE *f = fopen(p, "r"); if (!f) return 0;
    int on = 0;
    while (fgets(l, sizeof l, f)) {
      if (!strncmp(l, "%%", 2)) { on++; continue; }
      if (on != 1 || l[0] == '#' || l[0] == '\n') continue;
      char *q = strpbrk(l, ",\n"); if (q) *q = 0;
      char *s = l; if (*s == '"') { s++; s[strlen(s) - 1] = 0; }
      keys[t][nk[t]++] = strdup(s);
    }
    fclose(f);
  }
  for (int i = 0; i < nk[0]; i++) {
    struct LanguageMap *m = ohcount_hash_language_from_name(keys[0][i], strlen(keys[0][i]));
    if (!m) continue;
    if (!reg(m->name)) FAIL("language %s: its name %s is not registered", keys[0][i], m->name);
    if (!m->nice || m->category < 0 || m->category > 2) FAIL("language %s has no nice name or category", keys[0][i]);
    if (!ohcount_hash_parser_from_language(m->name, strlen(m->name))) FAIL("language %s has no parser", m->name);
  }
  for (int t = 1; t < 3; t++)
    for (int i = 0; i < nk[t]; i++) {
      struct ExtensionMap *m = t == 1 ? ohcount_hash_language_from_ext(keys[t][i], strlen(keys[t][i])) : ohcount_hash_language_from_filename(keys[t][i], strlen(keys[t][i]));
      if (!m) continue;
      if (*m->value == 2) { if (!ohcount_hash_disambiguate_func_from_id(m->value + 1, strlen(m->value + 1))) FAIL("%s %s: no disambiguation routine %s", files[t], keys[t][i], m->value + 1); }
      else if (*m->value != 1 && !reg(m->value)) FAIL("%s %s: %s is not a registered language", files[t], keys[t][i], m->value);
    }
  for (me = 0; me < nk[3]; me++) {
    struct ParserMap *p = ohcount_hash_parser_from_language(keys[3][me], strlen(keys[3][me]));
    if (!p) continue;
    if (!reg(keys[3][me])) FAIL("the parser table names %s, which is not registered", keys[3][me]);
    for (int n = 0; n < atoi(argv[3]) && !timeup(); n++) {
      char b[4000] = ""; int k = 1 + rnd(6);
      while (k--) strcat(b, toks[rnd(sizeof toks / sizeof *toks)]);
      hl = 0; H("parser of %s on ", keys[3][me]); hesc(b, strlen(b)); H("\n");
      char *c = strdup(b);
      p->parser(c, strlen(c), n & 1, cb, 0);
      free(c);
    }
  }
  /* names that detection answers, on texts made of the detector's own words */
  char p[1000]; snprintf(p, sizeof p, "%s/detector.c", argv[4]);
  FILE *f = fopen(p, "r"); char l[4000]; static char *w[3000]; int nw = 0;
  static const char *own_words[] = {"", "", "\n", "\n", " ", "  \n", "<", "a", "%", "#", ";", "/*", "*/", "//", "\t", "(", ")", "{", "}", "-- "};
  for (int i = 0; i < 20; i++) w[nw++] = (char *)own_words[i];
  while (f && fgets(l, sizeof l, f))
    for (char *q = strchr(l, '"'); q && nw < 2900; q = strchr(q, '"')) {
      char *e = strchr(++q, '"'); if (!e) break;
      char t[4000]; int n = 0;
      for (; q < e; q++) if (*q == '\\' && q + 1 < e) { q++; t[n++] = *q == 'n' ? '\n' : *q == 't' ? '\t' : *q == 's' ? ' ' : *q; } else t[n++] = *q;
      t[n] = 0; w[nw++] = strdup(t); q = e + 1;
    }
  if (f) fclose(f);
  for (int n = 0; n < 60 && !timeup(); n++)
    for (int i = 0; i < nk[1]; i++) {
      struct ExtensionMap *m = ohcount_hash_language_from_ext(keys[1][i], strlen(keys[1][i]));
      if (!m || *m->value != 2) continue;
      for (int r = 0; r < 10; r++) {
        char b[60000] = "", name[100]; int k = n ? rnd(6) : r;
        while (k--) { strcat(b, n ? w[rnd(rnd(2) ? 20 : nw)] : own_words[2 + rnd(4)]); if (rnd(2)) strcat(b, "\n"); }
        snprintf(name, sizeof name, "nodir/x.%s", keys[1][i]);
        SourceFile *s = ohcount_sourcefile_new(name);
        ohcount_sourcefile_set_contents(s, b);
        const char *a = ohcount_sourcefile_get_language(s);
        hl = 0; H("%s containing ", name); hesc(b, strlen(b)); H("\n");
        if (a && *a != 1 && !reg(a)) FAIL("detection answers %s, which is not registered", a);
        ohcount_sourcefile_free(s);
      }
    }
  for (int i = 0; i < nk[0]; i++)
    if (counted[i] && reg(keys[0][i])) {
      if (!own[i]) FAIL("%s is reported by some parser, but not by its own", keys[0][i]);
      if (!*reg(keys[0][i])->nice) FAIL("%s is counted but its nice name is empty", keys[0][i]);
    }
  return 0;
}
