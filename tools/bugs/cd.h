/* Direct use of a codec by a demonstration. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "common/std_defs.h"
#include "interfaces/codec.h"
#include "interfaces/ui_utils.h"

static unsigned long long g_s = 88172645463325252ull;
static double u01(void) { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return (double)(g_s >> 11) / 9007199254740992.0; }
static double gauss(void) { return sqrt(-2 * log(u01() + 1e-300)) * cos(6.283185307179586 * u01()); }
static double g_sg = 1.0;
/* Parameters: words and values separated by spaces, written here in the form the codec gets them. */
static void *mk(const char *par) {
  char *s = (char *)malloc(strlen(par) + 8);
  void *c = NULL;
  int i;
  strcpy(s, par);
  for (i = 0; s[i]; i++) if (s[i] == ' ' || s[i] == '\n') s[i] = '\1';
  if (cdc_init(s, &c)) { printf("cdc_init failed: %s\n", par); exit(3); }
  free(s);
  if (g_sg > 0) cdc_set_sg(c, g_sg);
  return c;
}
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
