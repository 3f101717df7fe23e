/* Executable oracle of the keyword tables: every key of the .gperf file is found as its own entry, nothing else is. */
#include "common.h"
#include "ohcount.h"
#include "sourcefile.h"
#include "hash/option_hash.h"
typedef struct { const char *key; } E;
#define D(f) E *f(const char *, size_t);
D(ohcount_hash_language_from_name) D(ohcount_hash_language_from_ext) D(ohcount_hash_language_from_filename)
D(ohcount_hash_disambiguate_func_from_id) D(ohcount_hash_is_cppheader) D(ohcount_hash_parser_from_language)
static struct { const char *file; E *(*f)(const char *, size_t); } T[] = {
  {"languages", ohcount_hash_language_from_name}, {"extensions", ohcount_hash_language_from_ext},
  {"filenames", ohcount_hash_language_from_filename}, {"disambiguatefuncs", ohcount_hash_disambiguate_func_from_id},
  {"cppheaders", ohcount_hash_is_cppheader}, {"parsers", ohcount_hash_parser_from_language},
  {"options", (E *(*)(const char *, size_t))ohcount_hash_command_from_flag}};
static char *keys[2000]; static int nk;
static int known(const char *s) { for (int i = 0; i < nk; i++) if (!strcmp(keys[i], s)) return 1; return 0; }
static void ask(int t, const char *s) {
  int n = strlen(s); char *c = malloc(n + 1); memcpy(c, s, n + 1);
  hl = 0; H("%s lookup of ", T[t].file); hesc(s, n); H("\n");
  E *e = T[t].f(c, n);
  if (known(s)) { if (!e) FAIL("a key is not found"); if (strcmp(e->key, s)) FAIL("another entry is found: %s", e->key); }
  else if (e) FAIL("found though it is no key: %s", e->key);
  if (strcmp(c, s)) FAIL("the text was changed");
  free(c);
}
/* no use of the program changes what a key is answered with */
static struct { int t; char *k; E *e; void *w[2]; } K[5000]; static int kn;
static void same(void) {
  for (int i = 0; i < kn; i++) {
    E *e = T[K[i].t].f(K[i].k, strlen(K[i].k));
    if (e != K[i].e || memcmp(e, K[i].w, sizeof K[i].w)) FAIL("after that the %s table's entry for %s is not what it was", T[K[i].t].file, K[i].k);
  }
}
static void use(int n) {
  static char b[140000];
  static const char *in[] = {"lda #1\n", "<asx>", "\n", " ", "#!/usr/bin/perl\n", "-*- C++ -*-\n", "a = b;\n", "(* x *)", "implement X;\n", "import java;\n", "% a\n", "@interface X\n", "class X;\n", ":- use_module(x).\n", "!c\n", "      x = 1\n", "' a\n", "10 PRINT\n", "Dim x\n"};
  for (int r = 0; r < n && !timeup(); r++) {
    int i; do i = rnd(kn); while (K[i].t != 1 && K[i].t != 2);
    char nm[300]; snprintf(nm, sizeof nm, K[i].t == 1 ? "nodir/x.%s" : "nodir/%s", K[i].k);
    if (rnd(4) == 0) for (char *q = nm + 6; *q; q++) if (rnd(2) && *q >= 'a' && *q <= 'z') *q -= 32;
    int len = 0, k = rnd(8), big = rnd(3) == 0;
    while (k--) { const char *t = in[rnd(19)]; strcpy(b + len, t); len += strlen(t); }
    if (big) { memset(b + len, '\n', 66000); len += 66000; }
    b[len] = 0;
    hl = 0; H("%s with %d bytes ", nm, len); hesc(b, len < 300 ? len : 300); H("\n");
    SourceFile *s = ohcount_sourcefile_new(nm);
    ohcount_sourcefile_set_contents(s, b);
    ohcount_sourcefile_get_language(s);
    if (!big) ohcount_sourcefile_get_loc_list(s);
    ohcount_sourcefile_free(s);
    same();
  }
}
int main(int argc, char **argv) {
  hstart(argc, argv);
  for (int t = 0; t < 7; t++) {
    char p[1000], l[4000]; snprintf(p, sizeof p, "%s/hash/%s.gperf", argv[4], T[t].file);
    FILE *f = fopen(p, "r"); if (!f) return 0;
    nk = 0; int on = 0;
    while (fgets(l, sizeof l, f)) {
      if (!strncmp(l, "%%", 2)) { on++; continue; }
      if (on != 1 || l[0] == '#' || l[0] == '\n') continue;
      char *q = strpbrk(l, ",\n"); if (q) *q = 0;
      char *s = l; if (*s == '"') { s++; s[strlen(s) - 1] = 0; }
      keys[nk++] = strdup(s);
    }
    fclose(f);
    for (int i = 0; i < nk; i++) ask(t, keys[i]);
    for (int i = 0; t < 6 && i < nk; i++) { K[kn].t = t; K[kn].k = keys[i]; K[kn].e = T[t].f(keys[i], strlen(keys[i])); memcpy(K[kn].w, K[kn].e, sizeof K[kn].w); kn++; }
    if (argc > 5) continue;
    for (int i = 0; i < atoi(argv[3]) && !timeup(); i++) {
      char s[200]; strcpy(s, keys[rnd(nk)]);
      int m = rnd(5), n = strlen(s);
      if (m == 0 && n) s[rnd(n)] = 1 + rnd(255);
      else if (m == 1) s[rnd(n + 1)] = 0;
      else if (m == 2) { strcat(s, keys[rnd(nk)]); }
      else if (m == 3 && n) s[rnd(n)] ^= 32;
      else { n = rnd(40); for (int k = 0; k < n; k++) s[k] = 1 + rnd(255); s[n] = 0; }
      ask(t, s);
    }
  }
  if (argc > 5) use(atoi(argv[3]));
  return 0;
}
