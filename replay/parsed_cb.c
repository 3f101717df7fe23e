/* Executable oracle of the parser_callback contract: random reports against a plain model. */
#include "common.h"
#include "sourcefile.h"
#include "parsed_language.h"
void parser_callback(const char *language, const char *entity, int start, int end, void *userdata);
static const char *langs[] = {"c", "html", "css", "javascript", "ruby", "erb", "c", "h"};
static char copies[8][20];
static const char *ents[] = {"lcode", "lcomment", "lblank", "lcode", "lcomment", "space"};
typedef struct { const char *n; int cnt[3]; char *txt[2]; int len[2]; } M;
static void run(void) {
  hl = 0; hist[0] = 0;
  int n = 1 + rnd(rnd(3) ? 40 : 6);
  char *buf = malloc(n + 1);
  for (int i = 0; i < n; i++) buf[i] = rnd(3) ? " \t\nab\v x"[rnd(8)] : rnd(30) ? 'a' + rnd(26) : (rnd(8) ? '\r' : 0x80 + rnd(100));
  buf[n] = 0;
  H("contents = "); hesc(buf, n); H("\n");
  SourceFile *sf = ohcount_sourcefile_new("dir/file.ext");
  ohcount_sourcefile_set_contents(sf, buf);
  sf->parsed_language_list = ohcount_parsed_language_list_new();
  M m[16]; int mn = 0;
  for (int r = 0, R = rnd(20); r < R; r++) {
    int s = rnd(n + 1), e = s + rnd(n + 1 - s);
    if (rnd(3) == 0) { s = 0; e = n; }
    const char *l = copies[rnd(8)], *en = ents[rnd(6)];
    H("report(%s, %s, %d, %d)\n", l, en, s, e);
    parser_callback(l, en, s, e, sf);
    int i; for (i = 0; i < mn; i++) if (!strcmp(m[i].n, l)) break;
    if (i == mn) { mn++; m[i].n = l; memset(m[i].cnt, 0, sizeof m[i].cnt); for (int k = 0; k < 2; k++) { m[i].txt[k] = calloc(1, n + 10); m[i].len[k] = 0; } }
    int k = !strcmp(en, "lcode") ? 0 : !strcmp(en, "lcomment") ? 1 : !strcmp(en, "lblank") ? 2 : 3;
    if (k == 2) m[i].cnt[2]++;
    else if (k < 2) {
      int q = s; while (q < e && (buf[q] == ' ' || buf[q] == '\t')) q++;
      if (m[i].len[k] + (e - q) < n + 5) { memcpy(m[i].txt[k] + m[i].len[k], buf + q, e - q); m[i].len[k] += e - q; m[i].txt[k][m[i].len[k]] = 0; m[i].cnt[k]++; }
    }
    ParsedLanguageList *it = sf->parsed_language_list->head; int j = 0;
    for (; it; it = it->next, j++) {
      if (j >= mn) FAIL("more than %d languages", mn);
      if (strcmp(it->pl->name, m[j].n)) FAIL("language %d is %s, not %s", j, it->pl->name, m[j].n);
      if (it->pl->code_count != m[j].cnt[0] || it->pl->comments_count != m[j].cnt[1] || it->pl->blanks_count != m[j].cnt[2])
        FAIL("%s counts %d %d %d, not %d %d %d", m[j].n, it->pl->code_count, it->pl->comments_count, it->pl->blanks_count, m[j].cnt[0], m[j].cnt[1], m[j].cnt[2]);
      if (strcmp(it->pl->code, m[j].txt[0])) FAIL("%s code text [%s], not [%s]", m[j].n, it->pl->code, m[j].txt[0]);
      if (strcmp(it->pl->comments, m[j].txt[1])) FAIL("%s comment text [%s], not [%s]", m[j].n, it->pl->comments, m[j].txt[1]);
    }
    if (j != mn) FAIL("%d languages, not %d", j, mn);
  }
  for (int i = 0; i < mn; i++) { free(m[i].txt[0]); free(m[i].txt[1]); }
  free(buf);
  ohcount_sourcefile_free(sf);
}
int main(int argc, char **argv) {
  hstart(argc, argv);
  for (int i = 0; i < 8; i++) strcpy(copies[i], langs[i]);
  for (int i = 0; i < atoi(argv[3]) && !timeup(); i++) run();
  return 0;
}
