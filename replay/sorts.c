/* Executable oracle of the sort contracts of ohcount.c: random lists, sorted, compared with the records they held.
   Used only to look for a concrete failing input after an obligation failed. */
#include "common.h"
#define main ohcount_main
#include "ohcount.c"
#undef main

static const char *words[] = {"c", "cpp", "java", "ada", "html", "csharp", "C", "objective_c", "xml", "python", "ruby", "lua"};

int main(int argc, char **argv) {
  long N = argc > 3 ? atol(argv[3]) : 20000;
  hstart(argc, argv);
  for (long k = 0; k < N; k++) {
    hl = 0; hist[0] = 0;
    int n = rnd(9), perm[12], how = rnd(2);
    for (int i = 0; i < 12; i++) perm[i] = i;
    for (int i = 11; i > 0; i--) { int j = rnd(i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
    LocList *L = ohcount_loc_list_new();
    Loc *rec[12]; int f[12][4];
    for (int i = 0; i < n; i++) {
      for (int q = 0; q < 4; q++) f[i][q] = rnd(3) ? (int)rnd(5) : (int)rnd(100000);
      Loc *l = ohcount_loc_new(words[perm[i]], f[i][0], f[i][1], f[i][2], f[i][3]);
      ohcount_loc_list_add_loc(L, l); ohcount_loc_free(l);
      H("%s code %d comments %d blanks %d files %d\n", words[perm[i]], f[i][0], f[i][1], f[i][2], f[i][3]);
    }
    int m = 0;
    for (LocList *it = L->head; it; it = it->next) rec[m++] = it->loc;
    H("sorted by %s\n", how ? "code" : "language");
    if (how) sort_loc_list_by_code(L); else sort_loc_list_by_language(L);
    int c = 0;
    Loc *prev = NULL;
    for (LocList *it = L->head; it; it = it->next) {
      if (c >= n) FAIL("more than %d entries after the sort", n);
      int x = -1;
      for (int i = 0; i < n; i++) if (rec[i] == it->loc) x = i;
      if (x < 0) FAIL("entry %d is not a record of the list, or is there twice", c);
      rec[x] = NULL;
      if (strcmp(it->loc->language, words[perm[x]]) || it->loc->code != f[x][0] || it->loc->comments != f[x][1] ||
          it->loc->blanks != f[x][2] || it->loc->filecount != f[x][3]) FAIL("figures of %s changed", words[perm[x]]);
      if (prev && (how ? prev->code < it->loc->code : strcmp(prev->language, it->loc->language) > 0))
        FAIL("%s comes before %s", prev->language, it->loc->language);
      prev = it->loc;
      c++;
    }
    if (c != n) FAIL("%d entries after the sort, not %d", c, n);
    ohcount_loc_list_free(L);
  }
  return 0;
}
