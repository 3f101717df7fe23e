/* Runs the real parsers and checks what they report.
 * parsers PROP SEED N SRC TRIES CLAIMED: first the inputs of the file TRIES (lines "language count hex"), then N generated ones
 * per parser.  CLAIMED: comma separated languages the property is claimed for ("*": all) */
#include "common.h"
struct ParserMap { const char *key; void (*parser)(char *, int, int, void (*)(const char *, const char *, int, int, void *), void *); };
struct LanguageMap { const char *key; const char *name; };
struct ParserMap *ohcount_hash_parser_from_language(register const char *str, register size_t len);
struct LanguageMap *ohcount_hash_language_from_name(register const char *str, register size_t len);
static const char *toks[] = {"/*","*/","//","\n","\r\n","\r","\f","\v","\"","'","#","{","}","(",")","\\","a","b1"," ","\t","<script>","</script>","<style>","</style>","<?php","?>","<%","%>","<!--","-->","--","{-","-}","\"\"\"","'''","=begin\n","=end\n","%","%{","%}",";","REM ","rem ","!","C","<<EOF\n","EOF\n","$","`","@","[","]","<",">","=pod\n","=cut\n","~","^","x","\xff","(*","*)","--[[","]]","/+","+/",":","|","dnl","\\begin{code}","\\end{code}","1","0x","<script language=\"vb\" runat=\"server\">","<script type=\"text/javascript\">","<style type=\"text/css\">","</style","<%@ page language=\"vb\"%>","<![CDATA[","]]>","\\\n","#|","|#","#[","''","${","q{","%q{","<mx:Script>","btex","etex","verbatimtex","endif","/**","<#","#>","#if 0\n","\n#endif\n", "\0"};
static char *buf; static int len, mode; static const char *prop, *lang;
#define MAXR 4096
static struct { const char *l, *e; int s, t; } R[MAXR]; static int nr;
static void cb(const char *l, const char *e, int s, int t, void *u) {
  if (u != (void *)&nr) FAIL("the user data is not passed on");
  if (nr < MAXR) { R[nr].l = l; R[nr].e = e; R[nr].s = s; R[nr].t = t; nr++; }
}
static void run(const char *lg, int count) {
  struct ParserMap *rp = ohcount_hash_parser_from_language(lg, strlen(lg));
  if (!rp) FAIL("no parser for %s", lg);
  nr = 0;
  static char same[70001];
  char *b = strcmp(prop, "C19") ? malloc(len + 1) : same; /* C19: the same address again, as after free and malloc */
  memcpy(b, buf, len); b[len] = 0;
  rp->parser(b, len, count, cb, &nr);
  if (b != same) free(b);
}
static int term(int i) { /* length of the line terminator at i */
  if (buf[i] == '\n' || buf[i] == '\f') return 1;
  if (buf[i] == '\r' && i + 1 < len) return buf[i + 1] == '\n' ? 2 : 1;
  return 0;
}
static int insig(int i) { return buf[i] == ' ' || buf[i] == '\t' || buf[i] == '\v' || (buf[i] == '\r' && (i + 1 == len || buf[i + 1] == '\n')); }
static void show(void) { for (int i = 0; i < nr && i < 60; i++) printf("  %s %s %d %d\n", R[i].l ? R[i].l : "(null)", R[i].e ? R[i].e : "(null)", R[i].s, R[i].t); }
static void check(const char *lg, int count) {
  hl = 0; H("language %s, %s, input ", lg, count ? "counting lines" : "entities"); hesc(buf, len);
  run(lg, count);
  if (!strcmp(prop, "C16"))
    for (int i = 0; i < nr; i++) {
      if (!(0 <= R[i].s && R[i].s < R[i].t && R[i].t <= len)) { show(); FAIL("report %d covers [%d,%d) of %d bytes", i, R[i].s, R[i].t, len); }
      if (!R[i].l || !R[i].e) FAIL("report %d has no language or kind", i);
      if (count && strcmp(R[i].e, "lcode") && strcmp(R[i].e, "lcomment") && strcmp(R[i].e, "lblank")) FAIL("kind %s", R[i].e);
      struct LanguageMap *m = ohcount_hash_language_from_name(R[i].l, strlen(R[i].l));
      if (!m || strcmp(m->name, R[i].l)) FAIL("language %s is not registered", R[i].l);
    }
  if (!strcmp(prop, "C17") && count) {
    char *cov = calloc(len + 1, 1);
    for (int i = 0; i < nr; i++) {
      for (int j = R[i].s < 0 ? 0 : R[i].s; j < R[i].t && j < len; j++) cov[j] = 1;
      if (!strcmp(R[i].e, "lblank")) for (int j = R[i].s - 1; j >= 0 && j < len && !term(j) && !(j && term(j - 1) == 2); j--) cov[j] = 1;
    }
    for (int j = 0; j < len; j++) if (!cov[j] && !insig(j)) { show(); FAIL("byte %d is in no report", j); }
    free(cov);
  }
  if (!strcmp(prop, "C18") && count) {
    int b = 0;
    for (int i = 0; i < nr; i++) {
      if (R[i].s < b) { show(); FAIL("report %d starts at %d, before %d", i, R[i].s, b); }
      int j = b;
      while (j < len && !term(j)) j++;
      if (j < len) j += term(j);
      if (R[i].t != j || R[i].s >= j) { show(); FAIL("report %d covers [%d,%d), the line is [%d,%d)", i, R[i].s, R[i].t, b, j); }
      b = j;
    }
  }
}
static int claimed(const char *list, const char *l) {
  if (!strcmp(list, "*")) return 1;
  size_t n = strlen(l);
  for (const char *p = list; p && *p; p = strchr(p, ','), p = p ? p + 1 : p)
    if (!strncmp(p, l, n) && (p[n] == ',' || !p[n])) return 1;
  return 0;
}
static void put(const char *t) { int n = *t ? strlen(t) : 1; memcpy(buf + len, t, n); len += n; }
static const char *any(void) { return toks[rnd(sizeof toks / sizeof *toks)]; }
/* texts in delimiters, over several lines, some blank, some never closed */
static const char *pairs[][2] = {{"\"","\""},{"'","'"},{"`","`"},{"/*","*/"},{"(*","*)"},{"{","}"},{"<!--","-->"},{"\"\"\"","\"\"\""},{"''","''"},
  {"=begin\n","=end\n"},{"<<EOF\n","EOF\n"},{"%{","%}"},{"[[","]]"},{"<script type=\"text/javascript\">","</script>"},{"<style type=\"text/css\">","</style>"},
  {"<?php","?>"},{"<%","%>"},{"{-","-}"},{"(",")"},{"/+","+/"},{"#[","]#"},{"#|","|#"},{"=pod\n","=cut\n"},{"/","/"},{"[","]"}};
static void gen2(void) {
  static const char *body[] = {"\n", "\n\n", "\n \n", " ", "a", "a\n", "\\", "\r\n", "\t", "\n\n\n", "\\\n", "#", "a b"};
  len = 0;
  int k = 1 + rnd(3);
  while (k--) {
    int q = rnd(sizeof pairs / sizeof *pairs);
    int j = rnd(4);
    while (j--) put(body[rnd(13)]);
    put(pairs[q][0]);
    for (j = rnd(6); j; j--) put(rnd(6) ? body[rnd(13)] : any());
    if (rnd(6)) put(pairs[q][1]);
  }
  if (rnd(2)) put("\n");
  buf[len] = 0;
}
static void gen(void) {
  if (rnd(3) == 0) { gen2(); return; }
  len = 0;
  int k = 1 + rnd(14);
  while (k--) { const char *t = toks[rnd(sizeof toks / sizeof *toks)]; int n = *t ? strlen(t) : 1; memcpy(buf + len, t, n); len += n; }
  buf[len] = 0;
}
static char *langs[400]; static int nl;
int main(int argc, char **argv) {
  prop = argv[1];
  hstart(argc, argv);
  int N = atoi(argv[3]);
  const char *cl = argc > 6 ? argv[6] : "*";
  buf = malloc(70000);
  char path[4096]; snprintf(path, sizeof path, "%s/hash/parsers.gperf", argv[4]);
  FILE *f = fopen(path, "r"); char line[70000]; int in = 0;
  while (f && fgets(line, sizeof line, f)) {
    if (!strncmp(line, "%%", 2)) { in++; continue; }
    if (in == 1) { char *c = strchr(line, ','); if (c) { *c = 0; if (nl < 400) langs[nl++] = strdup(line); } }
  }
  if (f) fclose(f);
  int stop = 0;
  f = argc > 5 ? fopen(argv[5], "r") : 0;
  while (f && fgets(line, sizeof line, f)) {
    char l[200]; int c, off = 0;
    if (sscanf(line, "%199s %d %n", l, &c, &off) < 2) continue;
    len = 0;
    for (char *h = line + off; h[0] > ' ' && h[1] > ' '; h += 2) { unsigned v; char x[3] = {h[0], h[1], 0}; sscanf(x, "%x", &v); buf[len++] = v; }
    buf[len] = 0;
    if (!claimed(cl, l)) continue;
    static const char *tails[] = {"", "\n", "a", "\na", "\n\n", " ", "\r", "\ra", "a\n", "*/", "\"", "'", "\"\n", "\\", ">", "\n;", "'a\n"};
    int n0 = len;
    for (int q = 0; q < 17; q++) {
      len = n0 + strlen(tails[q]); strcpy(buf + n0, tails[q]);
      if (strcmp(prop, "C19")) check(l, c);
      for (int z = 0; z < len && z < 60; z++) if (buf[z] == 1) { buf[z] = 'a'; if (strcmp(prop, "C19")) check(l, c); }
    }
  }
  if (f) fclose(f);
  if (!strcmp(prop, "C19")) {
    /* the reports for an input do not change after other files were parsed */
    for (int n = 0; n < N * 40 && !timeup(); n++) {
      static char keep[70000]; static int kr; static struct { const char *l, *e; int s, t; } K[MAXR];
      const char *a = langs[rnd(nl)], *b = langs[rnd(nl)]; int c1 = rnd(4) > 0, c2 = rnd(4) > 0;
      gen(); memcpy(keep, buf, len + 1); int kl = len;
      hl = 0; H("language %s count %d input ", a, c1); hesc(buf, len);
      run(a, c1);
      memcpy(K, R, sizeof R); kr = nr;
      if (rnd(2)) { /* much the same text, in the same language */
        int at = rnd(len + 1), cut = rnd(3), m = 0; static char rest[70000];
        b = a; c2 = c1;
        if (at + cut > len) cut = len - at;
        memcpy(rest, buf + at + cut, m = len - at - cut);
        len = at;
        static const char *in[] = {" ", "  ", "\n", "a", "", "\t"};
        for (const char *t = in[rnd(6)]; *t; t++) buf[len++] = *t;
        memcpy(buf + len, rest, m); len += m; buf[len] = 0;
      } else gen();
      H("\nthen language %s count %d input ", b, c2); hesc(buf, len);
      run(b, c2);
      memcpy(buf, keep, kl + 1); len = kl;
      H("\nthen the first again");
      run(a, c1);
      int same = kr == nr;
      for (int i = 0; same && i < nr; i++) same = !strcmp(R[i].l, K[i].l) && !strcmp(R[i].e, K[i].e) && R[i].s == K[i].s && R[i].t == K[i].t;
      if (!same) { printf("second time:\n"); show(); nr = kr; memcpy(R, K, sizeof R); printf("first time:\n"); show(); FAIL("the reports differ"); }
    }
    return 0;
  }
  for (int n = 0; n < N && !timeup(); n++) {
    for (int i = 0; i < nl; i++) { if (!claimed(cl, langs[i])) continue; gen(); check(langs[i], 1); if (!strcmp(prop, "C16")) check(langs[i], 0); }
  }
  return 0;
}
