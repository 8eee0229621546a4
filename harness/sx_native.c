/* Native side of the harness intrinsics: replays recorded values.
   SX_REPLAY=file: one decimal value per line, in the order of the draws.
   Exit codes: 0 path finished and all checks held, 77 check failed,
   78 assumption not met, 79 replay file ran out or value out of range,
   anything else: a panic/abort in the code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f;
static int opened;
static long draw(void) {
  if (!opened) { const char *p = getenv("SX_REPLAY"); opened = 1; f = p ? fopen(p, "r") : 0; }
  long v = 0;
  if (!f || fscanf(f, "%ld", &v) != 1) { fprintf(stderr, "SX replay exhausted\n"); _Exit(79); }
  return v;
}
unsigned char sx_byte(unsigned char lo, unsigned char hi) {
  long v = draw();
  if (v < lo || v > hi) { fprintf(stderr, "SX byte out of range\n"); _Exit(79); }
  return (unsigned char)v;
}
unsigned sx_pick(unsigned n) {
  long v = draw();
  if (v < 0 || v >= (long)n) { fprintf(stderr, "SX pick out of range\n"); _Exit(79); }
  return (unsigned)v;
}
void sx_assume_(unsigned char c) { if (!c) { fprintf(stderr, "SX assume\n"); _Exit(78); } }
void sx_fail_(const char *p, size_t n) { fprintf(stderr, "SX FAIL %.*s\n", (int)n, p); _Exit(77); }
void sx_check_(unsigned char c, const char *p, size_t n) { if (!c) { fprintf(stderr, "SX FAIL %.*s\n", (int)n, p); _Exit(77); } }
void sx_reach_(const char *p, size_t n) { (void)p; (void)n; }
void sx_note_(const char *p, size_t n) {
  fprintf(stderr, "SX NOTE ");
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)p[i];
    if (c < 32 || c > 126) fprintf(stderr, "\\x%02x", c); else fputc(c, stderr);
  }
  fputc('\n', stderr);
}
unsigned char sx_is_thorough(void) { const char *t = getenv("SX_THOROUGH"); return t && *t == '1'; }
