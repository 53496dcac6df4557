/* The real simulator around a scripted codec, a scripted clock and helpers.
   Included by a demonstration; main() of the demonstration drives sim_*(). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include "common/std_defs.h"
#include "interfaces/codec.h"
#include "interfaces/simul.h"
#include "interfaces/ui_utils.h"

/* Clock: the simulator is compiled with -Dtime=my_time -Dclock=my_clock. */
static long now_s = 1000000;
static long clk;
time_t my_time(time_t *t) { if (t) *t = now_s; return now_s; }
clock_t my_clock(void) { clk += 10000; return clk; }

/* Codec: n, k; outcome of the i-th decoding from a pattern, last character repeated:
   '.' right, 'x' all bits wrong, 'b' one bit wrong, 'e' erasure (all bits wrong), 'r' erasure (right bits), 'E' error,
   'h' one bit wrong and a codeword at equal distance. */
static int st_n = 4, st_k = 2;
static const char *st_pat = ".";
static int st_i;
static long st_dur; /* seconds per decoding */
static int st_tx[64]; /* the zero word: demonstrations use no random codewords */
static int st_live; /* open codec instances */
static int st_encfail = -1; /* index of the encoding that fails */
static int st_enc;
static double st_sg, st_sgs[4096];
static int st_nsg;
static double st_y[64];
static void (*st_hook)(int i);
static double *st_cur;

int cdc_init(char s[], void **c) { *c = malloc(1); st_live++; return 0; }
int cdc_get_n(void *c) { return st_n; }
int cdc_get_k(void *c) { return st_k; }
void cdc_close(void *c) { free(c); st_live--; }
void cdc_set_sg(void *c, double sg) { st_sg = sg; }
int enc_bpsk(void *c, int x[], double y[]) {
  int i;
  if (st_enc++ == st_encfail) return RC_ERROR;
  for (i = 0; i < st_n; i++) y[i] = x[i % st_k] ? 1.0 : -1.0;
  return 0;
}
int dec_bpsk(void *c, double y[], int x[]) {
  int i, l = strlen(st_pat);
  char p = st_pat[st_i < l ? st_i : l - 1];
  if (st_hook) { st_cur = y; st_hook(st_i); }
  if (st_nsg < 4096) st_sgs[st_nsg++] = st_sg;
  for (i = 0; i < st_n && i < 64; i++) st_y[i] = y[i];
  st_i++;
  now_s += st_dur;
  if (p == 'E') return RC_ERROR;
  for (i = 0; i < st_k; i++) x[i] = st_tx[i] ^ (p == 'x' || p == 'e' || (p == 'b' && i == 0));
  return (p == 'e' || p == 'r') ? RC_DEC_ERASURE : RC_OK;
}

/* A parameter file. */
static void put(const char *fn, const char *text) {
  FILE *f = fopen(fn, "w");
  if (!f || fputs(text, f) < 0 || fclose(f)) { perror(fn); exit(3); }
}
/* i-th value of the group key in file fn; -1 when it is not there. */
static double val(const char *fn, const char *key, int i) {
  static char b[65536];
  FILE *f = fopen(fn, "r");
  char *p = b, *q;
  size_t n, l = strlen(key);
  if (!f) return -1;
  n = fread(b, 1, sizeof(b) - 1, f);
  fclose(f);
  b[n] = 0;
  for (; (p = strstr(p, key)) != NULL; p += l) {
    if ((p == b || p[-1] == '\n') && (p[l] == ' ')) {
      p = strchr(p, '{');
      if (!p) return -1;
      p++;
      for (;; i--) {
        double v = strtod(p, &q);
        if (q == p) return -1;
        if (i == 0) return v;
        p = q;
      }
    }
  }
  return -1;
}
static void *start(const char *params, int ret_int) {
  sim_init_params sp;
  void *s = NULL;
  put("p.spf", params);
  memset(&sp, 0, sizeof(sp));
  sp.spf_name = "p.spf";
  sp.ret_int = ret_int;
  sp.dont_randomize = 1;
  srand(1);
  if (sim_init(&sp, &s) != RC_OK) { fprintf(stderr, "cannot init\n"); exit(3); }
  return s;
}
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
