/* Executable oracle of the LocList / LocDeltaList contracts: random histories of list operations against a plain
   array.  Used only to look for a concrete failing input after an obligation failed. */
#include "common.h"
#include "loc.h"

/* distinct buffers with equal text for some names, so that identity is not equality */
static char names[10][16];
static const char *words[] = {"c", "cpp", "java", "", "c", "html", "html5", "ada", "java", "C"};
#define NN 10
#define ML 6

#ifdef __cplusplus
#endif
typedef struct { int n; const char *lang[64]; int f[64][6]; } Model;
static int midx(Model *m, const char *l) { for (int i = 0; i < m->n; i++) if (!strcmp(m->lang[i], l)) return i; return -1; }
static void madd(Model *m, const char *l, const int *f, int nf) {
  int i = midx(m, l);
  if (i < 0) { i = m->n++; m->lang[i] = l; memset(m->f[i], 0, sizeof m->f[i]); }
  for (int k = 0; k < nf; k++) m->f[i][k] += f[k];
}
static int rv(void) { if (rnd(20) == 0) return -(int)rnd(4); return rnd(4) == 0 ? 0 : rnd(3) == 0 ? (int)rnd(3) : (int)rnd(1000); }
static void rfig(int *f, int nf) { int z = rnd(4) == 0; for (int k = 0; k < nf; k++) f[k] = z ? 0 : rnd(2) ? 0 : rv(); }

/* ---- LocList ---- */
static void getf(Loc *l, int *f) { f[0] = l->code; f[1] = l->comments; f[2] = l->blanks; f[3] = l->filecount; }
static void check1(LocList *L, Model *m, const char *w) {
  int n = 0, s[4] = {0};
  LocList *it = L->head;
  while (it) {
    if (n >= m->n) FAIL("%s: more than %d entries", w, m->n);
    int f[4]; getf(it->loc, f);
    if (strcmp(it->loc->language, m->lang[n])) FAIL("%s: entry %d is %s, not %s", w, n, it->loc->language, m->lang[n]);
    for (int k = 0; k < 4; k++) { s[k] += f[k];
      if (f[k] != m->f[n][k]) FAIL("%s: figure %d of %s is %d, not %d", w, k, m->lang[n], f[k], m->f[n][k]); }
    if (ohcount_loc_total(it->loc) != f[0] + f[1] + f[2]) FAIL("%s: total of %s", w, m->lang[n]);
    n++; it = it->next;
  }
  if (n != m->n) FAIL("%s: %d entries, not %d", w, n, m->n);
  if (ohcount_loc_list_code(L) != s[0] || ohcount_loc_list_comments(L) != s[1] || ohcount_loc_list_blanks(L) != s[2] ||
      ohcount_loc_list_filecount(L) != s[3] || ohcount_loc_list_total(L) != s[0] + s[1] + s[2]) FAIL("%s: list figures", w);
  for (int i = 0; i < NN; i++) {
    Loc *g = ohcount_loc_list_get_loc(L, names[i]);
    int x = midx(m, names[i]);
    if ((g != NULL) != (x >= 0)) FAIL("%s: lookup of %s", w, names[i]);
    if (g && strcmp(g->language, names[i])) FAIL("%s: lookup of %s gives %s", w, names[i], g->language);
  }
}
static void run1(void) {
  hl = 0; hist[0] = 0;
  LocList *L[3]; Model m[3]; memset(m, 0, sizeof m);
  for (int i = 0; i < 3; i++) L[i] = ohcount_loc_list_new();
  for (int op = 0; op < 14; op++) {
    int a = rnd(3), b = rnd(3), f[4];
    switch (rnd(8)) {
    default: {
      char *nm = names[rnd(NN)]; rfig(f, 4);
      Loc *l = ohcount_loc_new(nm, f[0], f[1], f[2], f[3]);
      H("add_loc(list%d, {\"%s\",%d,%d,%d,%d})\n", a, nm, f[0], f[1], f[2], f[3]);
      ohcount_loc_list_add_loc(L[a], l); madd(&m[a], nm, f, 4);
      int g[4]; getf(l, g);
      if (strcmp(l->language, nm) || memcmp(f, g, sizeof g)) FAIL("the caller's record changed");
      Loc *c = ohcount_loc_new(names[rnd(NN)], 1, 2, 3, 4); int o[4];
      int same = !strcmp(c->language, nm);
      if (ohcount_loc_is_equal(c, l) != (same && f[0] == 1 && f[1] == 2 && f[2] == 3 && f[3] == 4)) FAIL("is_equal");
      ohcount_loc_add_loc(c, l); getf(c, o);
      for (int k = 0; k < 4; k++) if (o[k] != k + 1 + (same ? f[k] : 0)) FAIL("add_loc of one record, figure %d", k);
      l->code = -77777; if (rnd(2)) ohcount_loc_free(l);
      break; }
    case 5: if (a != b) { H("add_loc_list(list%d, list%d)\n", a, b); ohcount_loc_list_add_loc_list(L[a], L[b]);
        for (int i = 0; i < m[b].n; i++) madd(&m[a], m[b].lang[i], m[b].f[i], 4); } break;
    case 6: if (a != b) { H("list%d = new_compact(list%d)\n", a, b); Model r; memset(&r, 0, sizeof r);
        for (int i = 0; i < m[b].n; i++) if (m[b].f[i][0] + m[b].f[i][1] + m[b].f[i][2]) madd(&r, m[b].lang[i], m[b].f[i], 4);
        L[a] = ohcount_loc_list_new_compact(L[b]); m[a] = r; } break;
    }
    for (int i = 0; i < 3; i++) { char w[40]; sprintf(w, "after step %d, list%d", op + 1, i); check1(L[i], &m[i], w); }
  }
  for (int i = 0; i < 3; i++) if (L[i]->head || rnd(2)) ohcount_loc_list_free(L[i]);
}

/* ---- LocDeltaList ---- */
static void getd(LocDelta *d, int *f) { f[0] = d->code_added; f[1] = d->code_removed; f[2] = d->comments_added;
  f[3] = d->comments_removed; f[4] = d->blanks_added; f[5] = d->blanks_removed; }
static void check2(LocDeltaList *L, Model *m, const char *w) {
  int n = 0, s[6] = {0};
  for (LocDeltaList *it = L->head; it; it = it->next) {
    if (n >= m->n) FAIL("%s: more than %d entries", w, m->n);
    int f[6]; getd(it->delta, f);
    if (strcmp(it->delta->language, m->lang[n])) FAIL("%s: entry %d is %s, not %s", w, n, it->delta->language, m->lang[n]);
    int ch = 0;
    for (int k = 0; k < 6; k++) { s[k] += f[k]; ch |= f[k] != 0;
      if (f[k] != m->f[n][k]) FAIL("%s: figure %d of %s is %d, not %d", w, k, m->lang[n], f[k], m->f[n][k]); }
    if (ohcount_loc_delta_net_code(it->delta) != f[0] - f[1] || ohcount_loc_delta_net_comments(it->delta) != f[2] - f[3] ||
        ohcount_loc_delta_net_blanks(it->delta) != f[4] - f[5] ||
        ohcount_loc_delta_net_total(it->delta) != f[0] - f[1] + f[2] - f[3] + f[4] - f[5]) FAIL("%s: net figures", w);
    if ((ohcount_loc_delta_is_changed(it->delta) != 0) != ch) FAIL("%s: is_changed", w);
    n++;
  }
  if (n != m->n) FAIL("%s: %d entries, not %d", w, n, m->n);
  if (ohcount_loc_delta_list_code_added(L) != s[0] || ohcount_loc_delta_list_code_removed(L) != s[1] ||
      ohcount_loc_delta_list_comments_added(L) != s[2] || ohcount_loc_delta_list_comments_removed(L) != s[3] ||
      ohcount_loc_delta_list_blanks_added(L) != s[4] || ohcount_loc_delta_list_blanks_removed(L) != s[5] ||
      ohcount_loc_delta_list_net_code(L) != s[0] - s[1] || ohcount_loc_delta_list_net_comments(L) != s[2] - s[3] ||
      ohcount_loc_delta_list_net_blanks(L) != s[4] - s[5] ||
      ohcount_loc_delta_list_net_total(L) != s[0] - s[1] + s[2] - s[3] + s[4] - s[5]) FAIL("%s: list figures", w);
  for (int i = 0; i < NN; i++) {
    LocDelta *g = ohcount_loc_delta_list_get_loc_delta(L, names[i]);
    int x = midx(m, names[i]);
    if ((g != NULL) != (x >= 0)) FAIL("%s: lookup of %s", w, names[i]);
    if (g && strcmp(g->language, names[i])) FAIL("%s: lookup of %s gives %s", w, names[i], g->language);
  }
}
static void run2(void) {
  hl = 0; hist[0] = 0;
  LocDeltaList *L[3]; Model m[3]; memset(m, 0, sizeof m);
  for (int i = 0; i < 3; i++) L[i] = ohcount_loc_delta_list_new();
  for (int op = 0; op < 14; op++) {
    int a = rnd(3), b = rnd(3), f[6];
    switch (rnd(8)) {
    default: {
      char *nm = names[rnd(NN)]; rfig(f, 6);
      LocDelta *l = ohcount_loc_delta_new(nm, f[0], f[1], f[2], f[3], f[4], f[5]);
      H("add_loc_delta(list%d, {\"%s\",%d,%d,%d,%d,%d,%d})\n", a, nm, f[0], f[1], f[2], f[3], f[4], f[5]);
      ohcount_loc_delta_list_add_loc_delta(L[a], l); madd(&m[a], nm, f, 6);
      int g[6]; getd(l, g);
      if (strcmp(l->language, nm) || memcmp(f, g, sizeof g)) FAIL("the caller's record changed");
      LocDelta *c = ohcount_loc_delta_new(names[rnd(NN)], 1, 2, 3, 4, 5, 6); int o[6];
      int same = !strcmp(c->language, nm), eqf = 1;
      for (int k = 0; k < 6; k++) eqf &= f[k] == k + 1;
      if (ohcount_loc_delta_is_equal(c, l) != (same && eqf)) FAIL("is_equal");
      LocDelta *c2 = ohcount_loc_delta_new(nm, f[0], f[1], f[2], f[3], f[4], f[5] + (int)rnd(2));
      if (ohcount_loc_delta_is_equal(c2, l) != (c2->blanks_removed == f[5])) FAIL("is_equal");
      ohcount_loc_delta_add_loc_delta(c, l); getd(c, o);
      for (int k = 0; k < 6; k++) if (o[k] != k + 1 + (same ? f[k] : 0)) FAIL("add of one record, figure %d", k);
      l->code_added = -77777; if (rnd(2)) ohcount_loc_delta_free(l);
      break; }
    case 5: if (a != b) { H("add_loc_delta_list(list%d, list%d)\n", a, b); ohcount_loc_delta_list_add_loc_delta_list(L[a], L[b]);
        for (int i = 0; i < m[b].n; i++) madd(&m[a], m[b].lang[i], m[b].f[i], 6); } break;
    case 6: if (a != b) { H("list%d = new_compact(list%d)\n", a, b); Model r; memset(&r, 0, sizeof r);
        for (int i = 0; i < m[b].n; i++) { int ch = 0; for (int k = 0; k < 6; k++) ch |= m[b].f[i][k] != 0;
          if (ch) madd(&r, m[b].lang[i], m[b].f[i], 6); }
        L[a] = ohcount_loc_delta_list_new_compact(L[b]); m[a] = r; } break;
    }
    for (int i = 0; i < 3; i++) { char w[40]; sprintf(w, "after step %d, list%d", op + 1, i); check2(L[i], &m[i], w); }
  }
  for (int i = 0; i < 3; i++) if (L[i]->head || rnd(2)) ohcount_loc_delta_list_free(L[i]);
}

int main(int argc, char **argv) {
  hstart(argc, argv);
  for (int i = 0; i < NN; i++) strcpy(names[i], words[i]);
  for (int i = 0; i < atoi(argv[3]) && !timeup(); i++) { if (!strcmp(argv[1], "C01")) run1(); else run2(); }
  return 0;
}
