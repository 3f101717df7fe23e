/* Programs with known answers: the verifier must accept the ok_ functions and reject the bad_ ones. */
#include <stdlib.h>
#include <string.h>
typedef struct Rec { int a, b; char *s; } Rec;
int ok_max(int a, int b) { return a > b ? a : b; }
int bad_max(int a, int b) { return a < b ? a : b; }
int bad_wrap(int a, int b) { return a + 1 > a; }
int ok_wrap(int a, int b) { return a < 100 ? a + 1 > a : 1; }
int ok_count(int n) { int i = 0; while (i < n) i++; return i; }
int bad_count(int n) { int i = 0; while (i <= n) i++; return i; }
void ok_buf(int n) { char *p = malloc(n + 1); p[n] = 0; free(p); }
void bad_buf(int n) { char *p = malloc(n); p[n] = 0; free(p); }
void bad_leakuse(int n) { char *p = malloc(n + 1); free(p); p[0] = 0; }
void bad_dfree(int n) { char *p = malloc(n + 1); free(p); free(p); }
void bad_null(Rec *r) { Rec *q = NULL; if (r->a == 7) q->b = 1; }
void ok_frame(Rec *r, Rec *q) { r->a = 5; }
void bad_frame(Rec *r, Rec *q) { r->a = 5; if (r->b == 3) q->a = 5; }
void bad_stack(int n) { char b[4]; int i; for (i = 0; i <= 4; i++) b[i] = 0; }
void ok_stack(int n) { char b[4]; int i; for (i = 0; i < 4; i++) b[i] = 0; }
int vacuous(int n) { return 1; }
int ok_strlen(const char *s) { int i = 0; while (s[i]) i++; return i; }
int bad_strlen(const char *s) { int i = 0; while (s[i + 1]) i++; return i; }
