/* Executable oracle of the path splitting (C03) and contents (C04) contracts. */
#include "common.h"
#include <unistd.h>
#include <sys/stat.h>
#include "sourcefile.h"
static void c03(void) {
  hl = 0; hist[0] = 0;
  int n = rnd(rnd(4) ? 12 : 60);
  char *path = malloc(n + 1), *keep = malloc(n + 1);
  for (int i = 0; i < n; i++) path[i] = rnd(2) ? "./\\.ab"[rnd(6)] : 1 + rnd(255);
  path[n] = 0;
  if (strlen(path) != n) abort();
  memcpy(keep, path, n + 1);
  H("path = "); hesc(path, n); H("\n");
  SourceFile *s = ohcount_sourcefile_new(path);
  if (strcmp(path, keep)) FAIL("the argument was changed");
  if (s->filepath == path) FAIL("the path is not a private copy");
  if (strcmp(s->filepath, keep)) FAIL("the path kept is [%s]", s->filepath);
  int f = n; while (f > 0 && keep[f - 1] != '/' && keep[f - 1] != '\\') f--;
  int x = n; while (x > f && keep[x - 1] != '.') x--;
  if (x == f) x = n;
  if (s->filename - s->filepath != f || strcmp(s->filename, keep + f)) FAIL("file name is [%s], not [%s]", s->filename, keep + f);
  if (strcmp(s->ext, keep + x)) FAIL("extension is [%s], not [%s]", s->ext, keep + x);
  if (s->dirpath != (f > 0 ? f - 1 : 0)) FAIL("directory length is %d, not %d", s->dirpath, f > 0 ? f - 1 : 0);
  if (s->diskpath || s->contents || s->size != -1 || s->language || s->language_detected || s->parsed_language_list || s->license_list || s->loc_list || s->filenames)
    FAIL("a new file is not empty");
  ohcount_sourcefile_free(s);
  free(path); free(keep);
}
static char dir[200], fn[300], fn2[300];
static char *text(int *n, int nul) {
  *n = rnd(rnd(4) ? 20 : 9000);
  char *t = malloc(*n + 1);
  for (int i = 0; i < *n; i++) { t[i] = rnd(nul ? 255 : 254); if (!nul) t[i] = 1 + (unsigned char)t[i]; }
  t[*n] = 0;
  return t;
}
static void put(const char *f, const char *t, int n) { FILE *o = fopen(f, "wb"); fwrite(t, 1, n, o); fclose(o); }
static void chk(SourceFile *s, const char *t, int n, int onlysize) {
  if (onlysize) { int z = ohcount_sourcefile_get_contents_size(s); if (z != n) FAIL("size is %d, not %d", z, n); }
  char *c = ohcount_sourcefile_get_contents(s);
  int z = ohcount_sourcefile_get_contents_size(s);
  if (z != n) FAIL("size is %d, not %d", z, n);
  if (!t) { if (c) FAIL("there are contents"); return; }
  if (!c) FAIL("there are no contents");
  if (c == t) FAIL("the contents are not a private copy");
  if (memcmp(c, t, n)) FAIL("the contents differ from what was %s", "set or read");
  if (c[n]) FAIL("the contents are not terminated");
  if (ohcount_sourcefile_get_contents(s) != c) FAIL("the contents are read again");
}
static void c04(void) {
  hl = 0; hist[0] = 0;
  int n, m; char *t, *u = text(&m, 1);
  SourceFile *s = ohcount_sourcefile_new(fn);
  int how = rnd(6), sz = rnd(2);
  if (how == 0) { t = text(&n, 1); H("file of %d bytes\n", n); put(fn, t, n); chk(s, n ? t : NULL, n, sz); }
  else if (how == 1) { t = text(&n, 1); H("disk path of %d bytes, path of %d\n", n, m); put(fn2, t, n); put(fn, u, m);
    char *d = strdup(fn2);
    if (rnd(2)) ohcount_sourcefile_set_diskpath(s, "/nonexistent/first/disk/path");
    ohcount_sourcefile_set_diskpath(s, d);
    if (s->diskpath == d || strcmp(s->diskpath, fn2)) FAIL("disk path is not a private copy of %s", fn2);
    memset(d, 'x', strlen(d)); free(d);
    chk(s, n ? t : NULL, n, sz); }
  else if (how == 2) { t = NULL; unlink(fn); H("missing file\n"); chk(s, NULL, 0, sz); }
  else if (how == 3) { t = NULL; H("a directory as disk path\n"); ohcount_sourcefile_set_diskpath(s, dir); chk(s, NULL, 0, sz); }
  else { int k = 1 + rnd(3); t = NULL;
    put(fn, u, m);
    while (k--) { free(t); t = text(&n, 0); H("set contents of %d bytes\n", n); char *a = strdup(t); ohcount_sourcefile_set_contents(s, a); if (strcmp(a, t)) FAIL("the argument was changed"); memset(a, 'x', n); free(a); chk(s, t, n, sz); } }
  free(t); free(u);
  ohcount_sourcefile_free(s);
}
int main(int argc, char **argv) {
  hstart(argc, argv);
  if (!strcmp(argv[1], "C03")) { for (int i = 0; i < atoi(argv[3]) && !timeup(); i++) c03(); return 0; }
  strcpy(dir, "/tmp/ovc.XXXXXX");
  if (!mkdtemp(dir)) return 0;
  sprintf(fn, "%s/a.c", dir); sprintf(fn2, "%s/b.c", dir);
  int i, n = atoi(argv[3]);
  if (fork() == 0) { for (i = 0; i < n && !timeup(); i++) c04(); _exit(0); }
  int st; extern int wait(int *); wait(&st);
  unlink(fn); unlink(fn2); rmdir(dir);
  return st ? 1 : 0;
}
