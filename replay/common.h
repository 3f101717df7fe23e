#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return n ? (unsigned)((rs >> 33) % n) : 0; }
static char hist[400000];
static int hl;
#define H(...) do { hl += snprintf(hist + hl, sizeof hist - hl - 1, __VA_ARGS__); if (hl > 390000) hl = 390000; } while (0)
#define FAIL(...) do { printf("history:\n%s\nFAILED: ", hist); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)
#include <time.h>
extern void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static time_t began;
static int timeup(void) { return time(NULL) - began > 60; } /* a slow machine explores less; only a hang runs into the time limit */
static void died(void) { printf("history before the sanitizer report:\n%s\n", hist); fflush(stdout); }
static void hstart(int argc, char **argv) { setbuf(stdout, NULL); began = time(NULL); rs = strtoull(argv[2], 0, 10) * 77777 + 5; if (__asan_set_death_callback) __asan_set_death_callback(died); }
static void hesc(const char *s, int n) {
  H("\"");
  for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (c == '\n') H("\\n"); else if (c == '\t') H("\\t"); else if (c < 32 || c > 126 || c == '"' || c == '\\') H("\\x%02x", c); else H("%c", c); }
  H("\"");
}
