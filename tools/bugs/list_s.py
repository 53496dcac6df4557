MT = "simulators/main_txt.c"
SPF = "common/spf_par.c"
LOADER = '''#!/bin/bash
# loadsrf.c with a stand-in for the MEX interface.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -I"$D" -I. -o "$T/d" "$D/d.c" Octave/loadsrf.c common/spf_par.c common/ui_txt.c -lm || exit 3
cd "$T" || exit 3
timeout 60 ./d
'''
MEXH = '''#ifndef MEX_H
#define MEX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct mxArray { double *d; int n; char *s; struct mxArray *f[16]; } mxArray;
enum { mxREAL };
const char *mexFunctionName(void);
char *mxArrayToString(const mxArray *);
mxArray *mxCreateStructMatrix(int, int, int, const char **);
mxArray *mxCreateDoubleScalar(double);
mxArray *mxCreateDoubleMatrix(int, int, int);
double *mxGetPr(const mxArray *);
void mxSetFieldByNumber(mxArray *, int, int, mxArray *);
void mxFree(void *);
int mexPrintf(const char *, ...);
void mexErrMsgTxt(const char *);
#endif
'''
MEXC = '''#include "mex.h"
#include <math.h>
void mexFunction(int, mxArray **, int, const mxArray **);
static mxArray *mk(int n) { mxArray *a = calloc(1, sizeof *a); a->n = n; a->d = calloc(n + 1, sizeof(double)); return a; }
const char *mexFunctionName(void) { return "loadsrf"; }
char *mxArrayToString(const mxArray *a) { return strdup(a->s); }
mxArray *mxCreateStructMatrix(int a, int b, int c, const char **k) { return mk(0); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mk(1); a->d[0] = v; return a; }
mxArray *mxCreateDoubleMatrix(int m, int n, int t) { return mk(m * n); }
double *mxGetPr(const mxArray *a) { return a->d; }
void mxSetFieldByNumber(mxArray *s, int i, int f, mxArray *v) { s->f[f] = v; }
void mxFree(void *p) { free(p); }
int mexPrintf(const char *f, ...) { return 0; }
void mexErrMsgTxt(const char *s) { }
static mxArray *load(const char *text) {
  mxArray in, *out[1] = {0};
  const mxArray *pi[1] = {&in};
  FILE *f = fopen("x.srf", "w");
  fputs(text, f);
  fclose(f);
  memset(&in, 0, sizeof in);
  in.s = "x.srf";
  mexFunction(1, out, 1, pi);
  return out[0];
}
#define NEAR(a, b) do { if (!(fabs((a) - (b)) < 1e-12)) { printf("wrong: %s is %g, not %g\\n", #a, (double)(a), (double)(b)); return 1; } } while (0)
'''
FILEX = 'code_n 16\\ncode_k 11\\n\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 44 }\\nen_bl { 10 8 }\\nerasures_num { 5 2 }\\nml_tr_num { 95 398 }\\nenml_bl { 7 4 }\\n'
bug("R09-ml-rate", "R09", [("Octave/loadsrf.c", "(ml_trn[n] > 0) ? (double)(enml_bl[n]) / ml_trn[n] : 0.0", "(ml_trn[n] > 0) ? (double)(enml_bl[n]) / trn[n] : 0.0")],
    "a results file with erasures, where ML trials and trials differ", "the loaded ML error rate is too small",
    demo=LOADER, mex__h=MEXH, d__c=MEXC + '''int main() {
  mxArray *r = load("%s");
  if (!r) return 1;
  NEAR(r->f[4]->d[0], 0.1); NEAR(r->f[6]->d[0], 7.0 / 95); NEAR(r->f[6]->d[1], 4.0 / 398);
  return 0;
}
''' % FILEX)
bug("R09-erasure-order", "R09", [("Octave/loadsrf.c", "if (tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;", "if (trn_n > 0 && tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, trn_n - 1, err_reading_msg) == RC_OK) continue;")],
    "any results file with erasure counts as full as its trials", "a good results file is refused or loaded without erasure rates",
    demo=LOADER, mex__h=MEXH, d__c=MEXC + '''int main() {
  mxArray *r = load("%s");
  if (!r) return 1;
  NEAR(r->f[5]->d[0], 0.05); NEAR(r->f[5]->d[1], 2.0 / 400);
  return 0;
}
''' % FILEX)
bug("R09-stale-erasures", "R09", [("Octave/loadsrf.c", "d[n] = (trn[n] > 0 && er_n_n > 0) ? (double)(er_n[n]) / trn[n] : 0.0;", "d[n] = (trn[n] > 0 && er_n_n > 0 && en_bl[n] > 0) ? (double)(er_n[n]) / trn[n] : 0.0;")],
    "an SNR value with erasures but no block errors", "erasures of points without block errors are loaded as rate 0",
    demo=LOADER, mex__h=MEXH, d__c=MEXC + '''int main() {
  mxArray *r = load("code_n 16\\ncode_k 11\\n\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 0 }\\nen_bl { 10 0 }\\nerasures_num { 5 2 }\\nml_tr_num { 95 398 }\\nenml_bl { 7 0 }\\n");
  if (!r) return 1;
  NEAR(r->f[5]->d[0], 0.05); NEAR(r->f[5]->d[1], 2.0 / 400);
  return 0;
}
''')
bug("S01-req-late", "S01", [(SB, '''      update_trn_req(sim, csnrn);

      // Check elapsed time.''', '''      // Check elapsed time.'''), (SB, '''        return RC_SIMUL_NOT_COMPLETED;
      }
    }
''', '''        return RC_SIMUL_NOT_COMPLETED;
      }
      update_trn_req(sim, csnrn);
    }
''')],
    "a slice of the simulation that ends exactly at the last requested trial of an SNR value while errors are still missing",
    "which trials are simulated depends on how fast the machine is: an SNR value is left without enough errors",
    d__c='''#include "stub.h"
static int go(long dur, const char *fn) {
  char p[300];
  int rc;
  sprintf(p, "res_file %s\\nSNR_val_trn { 1 4 2 4 }\\nmin_errors_per_snr 2\\n", fn);
  st_i = 0; st_dur = dur;
  st_pat = "......b..b....b...bb";
  void *s = start(p, 0);
  while ((rc = sim_run(s)) == RC_SIMUL_NOT_COMPLETED);
  CHECK(rc == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  return st_i;
}
int main() {
  int a = go(0, "a.srf"), b = go(1, "b.srf");
  CHECK(a == b);
  CHECK(val("a.srf", "tr_num", 0) == val("b.srf", "tr_num", 0));
  CHECK(val("b.srf", "en_bl", 0) >= 2);
  return 0;
}
''')
bug("S02-slow-growth", "S02", [(SB, "estimate = sim->pt[csnrn].trn * 1.5;", "estimate = sim->pt[csnrn].trn * 1.2; // Do not overshoot.")],
    "an SNR value with at most 2 requested trials and errors that come late", "a point is left with fewer block errors than min_errors_per_snr",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nEbNo_values { 1 2 }\\nmin_trials_per_snr 1\\nmin_errors_per_snr 3\\n", 1000);
  st_pat = "......b..b....b...bb....bbbb";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "en_bl", 0) >= 3);
  CHECK(val("out.srf", "en_bl", 1) >= 3);
  return 0;
}
''')
bug("S02-estimate", "S02", [(SB, "estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;", "estimate = (double)sim->pt[csnrn].trn / sim->pt[csnrn].en_bl * (sim->min_en_bl - 0.9); // The last error ends it.")],
    "more than 20 errors observed at a point whose last errors come slowly", "a point is left one error short of min_errors_per_snr",
    d__c='''#include "stub.h"
int main() {
  char pat[400];
  int i;
  for (i = 0; i < 399; i++) pat[i] = i < 29 || i > 33 ? 'b' : '.';
  for (i = 24; i < 300; i++) pat[i] = i % 20 ? '.' : 'b';
  pat[399] = 0;
  st_pat = pat;
  void *s = start("res_file out.srf\\nEbNo_values { 1 }\\nmin_trials_per_snr 10\\nmin_errors_per_snr 30\\n", 1000);
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "en_bl", 0) >= 30);
  return 0;
}
''')
bug("S03-hard-ties", "S03", [(SB, "if (d1 > d2) sim->pt[csnrn].enml_bl++;", "if (en && d1 >= d2) sim->pt[csnrn].enml_bl++;")],
    "hard-decision ML bound and a wrong decision at exactly the distance of the transmitted word", "ties are counted as errors of ML decoding, so the lower bound is not one",
    d__c='''#include "stub.h"
int main() {
  int i;
  void *s = start("res_file out.srf\\nSNR_val_trn { -5 3000 }\\nml_lb_hard on\\n", 1000);
  static int ties, less;
  extern void hook(int);
  st_pat = "b";
  st_hook = hook;
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  extern int closer;
  CHECK(val("out.srf", "enml_bl", 0) == closer);
  return 0;
}
int closer;
static double *yy;
int dec_hard(double *y) { /* transmitted all -1, decided +1 at positions 0 and 2 */
  int p = (y[0] > 0) + (y[2] > 0);
  return p == 2;
}
void hook(int i) { closer += dec_hard(st_cur); }
''')
bug("S03-erased-bits", "S03", [(SB, "      if (en) {\n        sim->pt[csnrn].en_bit += en;", "      if (rc == RC_DEC_ERASURE && en == 0) en = 1; // An erased block is an error.\n      if (en) {\n        sim->pt[csnrn].en_bit += (rc == RC_DEC_ERASURE) ? c_k : en; // No bit of it is known.")],
    "a decoder that declares erasures", "erased blocks are counted with all their bits wrong, whatever the decoder put out",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 6 }\\n", 1000);
  st_pat = "rb..rr";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "er_n", 0) == -1 || 1);
  CHECK(val("out.srf", "erasures_num", 0) == 3);
  CHECK(val("out.srf", "en_bl", 0) == 1);
  CHECK(val("out.srf", "en_bit", 0) == 1);
  return 0;
}
''')
bug("S04-fixed-rate", "S04", [(SB, "    cdc_set_sg(sim->dc_inst, noise_sg);", "    cdc_set_sg(sim->dc_inst, 1 / sqrt(2 * db2val(sim->snr_db[csnrn]) * c_k / c_n));")],
    "fixed_R set to something else than the code's rate", "the decoder is told a noise level that is not the simulated one",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nfixed_R 1\\nSNR_val_trn { 3 4 }\\n", 1000);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  CHECK(fabs(st_sgs[0] - 1 / sqrt(2 * pow(10, 0.3))) < 1e-9);
  s = start("res_file out.srf\\nSNR_val_trn { 3 4 }\\n", 1000);
  CHECK(sim_run(s) == RC_OK);
  CHECK(fabs(st_sgs[st_nsg - 1] - 1 / sqrt(pow(10, 0.3))) < 1e-9);
  return 0;
}
''')
bug("S04-tail", "S04", [(SB, "    } while (r >= 1.0);", "    } while (r >= 1.0 || r < 1e-3); // No log(0).")],
    "thousands of noise values: only those beyond 3.7 sigma are missing", "the tail of the noise is cut off, so error rates at high SNR are too small",
    d__c='''#include "stub.h"
static double mx;
static long big, n;
void hook(int i) { int k; for (k = 0; k < 4; k++) { double z = fabs(st_cur[k] + 1) / st_sg; n++; if (z > 3.72) big++; if (z > mx) mx = z; } }
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 0 100000 }\\n", 1000);
  st_pat = "b";
  st_hook = hook;
  CHECK(sim_run(s) == RC_OK);
  fprintf(stderr, "%ld of %ld beyond 3.72 sigma, largest %g\\n", big, n, mx);
  CHECK(big > 40); /* expected 80 */
  return 0;
}
''')
bug("S04-pairs", "S04", [(SB, "    yd[i] = ys[i] + v2 * r * sg;", "    yd[i] = ys[i] + ((i & 7) == 7 ? v1 : v2) * r * sg;")],
    "positions 6 and 7 modulo 8 of a word", "two of eight received values get the same noise",
    d__c='''#include "stub.h"
static int same;
void hook(int i) { if (fabs(st_cur[6] - st_cur[7]) < 1e-12) same++; }
int main() {
  st_n = 8; st_k = 4;
  void *s = start("res_file out.srf\\nSNR_val_trn { 0 100 }\\n", 1000);
  st_pat = "b";
  st_hook = hook;
  CHECK(sim_run(s) == RC_OK);
  CHECK(same == 0);
  return 0;
}
''')
bug("S05-never-saves", "S05", [(MT, '''         sim_save_res(sim_inst);
         time(&start_time);
      }
''', '''         sim_save_res(sim_inst);
      }
      time(&start_time);
''')],
    "a run longer than the save interval that is killed (every slice is shorter than the interval)", "intermediate results are never saved",
    demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
P=$PWD/_build/dtrm0_bg
cd "$T" || exit 3
printf 'RM_m 4\\nRM_r 2\\nres_file out.srf\\nSNR_val_trn { 1 2000000000 }\\n' > p.spf
timeout -s KILL 9 "$P" p.spf -nr -si 3 -ri 0 > /dev/null
[ -s out.srf ] || { echo "nothing saved in 9 s"; exit 1; }
''')
bug("S05-slice", "S05", [(SB, "if (time(NULL) - start_time > sim->ret_int) {", "if ((sim->pt[csnrn].trn & 63) == 0 && time(NULL) - start_time > sim->ret_int) {")],
    "a decoder that takes seconds per word", "the simulation does not return at its interval, so status and saves come far too late",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 300 }\\n", 10);
  st_pat = "b"; st_dur = 2;
  long t = now_s;
  CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  CHECK(now_s - t <= 14);
  return 0;
}
''')
bug("S06-decoder-failure", "S06", [(SB, '''      if (rc == RC_ERROR) {
        err_msg("sim_bg run error: error while decoding.");
        return RC_ERROR;
      }
''', '''      if (rc == RC_ERROR) {
        err_msg("sim_bg run error: error while decoding.");
        rc = RC_DEC_ERASURE;
      }
''')],
    "a decoder that fails (short of memory) in some trial", "trials in which the decoder failed are counted, with whatever was left in the buffer",
    d__c='''#include "stub.h"
int main() {
  int rc;
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 6 }\\n", 1000);
  st_pat = "bbE.b";
  rc = sim_run(s);
  CHECK(rc == RC_ERROR);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "tr_num", 0) == 2);
  return 0;
}
''')
bug("S06-no-snr", "S06", [(SB, "  if (sim->snr_num < 1) {\n    err_msg(\"sim_bg init error: no SNR", "  if (sim->snr_num < 0) {\n    err_msg(\"sim_bg init error: no SNR")],
    "a parameter file without any SNR value", "a run that cannot simulate anything reports success",
    demo='''#!/bin/bash
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
P=$PWD/_build
cd "$T" || exit 3
printf 'RM_m 4\\nRM_r 2\\nres_file out.srf\\n' > p.spf
timeout 60 "$P/dtrm0_bg" p.spf -nr > o.txt 2>&1
rc=$?
[ $rc != 0 ] || { echo "exit $rc"; exit 1; }
exit 0
''')

MEM = '''#include <stdlib.h>
static long m_n, m_fail = -1, m_live;
void *my_malloc(size_t n) { void *p; if (m_n++ == m_fail) return NULL; p = malloc(n); if (p) m_live++; return p; }
void my_free(void *p) { if (p) m_live--; free(p); }
#undef malloc
#include "stub.h"
'''
MEMSH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
F="-w -g -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -Dtime=my_time -Dclock=my_clock -I. -I$D"
gcc $F -Dmalloc=my_malloc -Dfree=my_free -c -o "$T/s.o" simulators/sim_bg.c || exit 3
gcc $F -o "$T/d" "$D/d.c" "$T/s.o" common/ui_txt.c common/srm_utils.c "$D/../none.c" -lm 2>/dev/null || \\
gcc $F -Dmalloc=my_malloc -Dfree=my_free -c -o "$T/p.o" common/spf_par.c && \\
gcc $F -o "$T/d" "$D/d.c" "$T/s.o" "$T/p.o" common/ui_txt.c -lm || exit 3
cd "$T" || exit 3
timeout 60 ./d > o.txt
'''
bug("S07-null-buffer", "S07", [(SB, "if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {", "if ((x == NULL) || (x_dec == NULL) || (c_in == NULL)) {")],
    "exactly the fourth allocation of sim_run() fails", "a simulation short of memory crashes instead of reporting failure",
    demo=MEMSH.replace('gcc $F -o "$T/d" "$D/d.c" "$T/s.o" common/ui_txt.c common/srm_utils.c "$D/../none.c" -lm 2>/dev/null || \\\n', ''),
    d__c=MEM + '''int main() {
  int k, rc;
  st_pat = "b";
  for (k = 0; k < 4; k++) {
    void *s = start("res_file out.srf\\nSNR_val_trn { 1 6 }\\n", 1000);
    m_fail = m_n + k;
    rc = sim_run(s);
    CHECK(rc == RC_ERROR);
    m_fail = -1;
  }
  return 0;
}
''')
bug("S07-leak", "S07", [(SB, '''        free(c_out);
        free(c_in);
        free(x_dec);
        free(x);
        return RC_SIMUL_NOT_COMPLETED;''', '''        free(c_in);
        free(x_dec);
        free(x);
        return RC_SIMUL_NOT_COMPLETED;''')],
    "a simulation with many slices", "each interrupted slice leaks a buffer, so a long simulation runs out of memory",
    demo=MEMSH.replace('gcc $F -o "$T/d" "$D/d.c" "$T/s.o" common/ui_txt.c common/srm_utils.c "$D/../none.c" -lm 2>/dev/null || \\\n', ''),
    d__c=MEM + '''int main() {
  long a;
  st_pat = "b"; st_dur = 1;
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 60 }\\n", 0);
  CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  a = m_live;
  CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  CHECK(m_live == a);
  return 0;
}
''')
bug("S08-less", "S08", [(SB, "      if (sim->trn_req[csnrn] < sim->pt[csnrn].trn) sim->trn_req[csnrn] = sim->pt[csnrn].trn;\n", "      if (sim->trn_req[csnrn] < sim->min_trn) sim->trn_req[csnrn] = sim->min_trn;\n")],
    "the operator asks for less when more than two thirds of the trials are done", "the request falls below the trials already made, so a later 'more' does nothing",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 60 }\\n", 0);
  char b[300];
  int i, t, q;
  st_pat = "b"; st_dur = 1;
  for (i = 0; i < 50; i++) CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  sim_control(s, SIM_CTRL_CUR_LESS);
  sim_state_str(s, b);
  CHECK(sscanf(strstr(b, "trn:"), "trn: %d / %d", &t, &q) == 2);
  CHECK(t == 50 && q == 50);
  sim_control(s, SIM_CTRL_CUR_MORE);
  sim_state_str(s, b);
  CHECK(sscanf(strstr(b, "trn:"), "trn: %d / %d", &t, &q) == 2);
  CHECK(q == 75);
  return 0;
}
''')
bug("S08-next-all", "S08", [(SB, "      sim->trn_req[csnrn] = sim->pt[csnrn].trn;\n  }", "      do sim->trn_req[csnrn] = sim->pt[csnrn].trn; while (++csnrn < sim->snr_num && sim->snr_db[csnrn] == sim->snr_db[csnrn - 1]);\n  }")],
    "'next' while the following SNR value is the same as the current one", "the operator's 'next' also skips a following equal SNR value",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 60 1 20 2 10 }\\n", 0);
  int i;
  st_pat = "b"; st_dur = 1;
  for (i = 0; i < 5; i++) CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  sim_control(s, SIM_CTRL_CUR_NEXT);
  while ((i = sim_run(s)) == RC_SIMUL_NOT_COMPLETED);
  CHECK(st_i == 35);
  return 0;
}
''')
bug("S08-more", "S08", [(SB, "      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;", "      sim->trn_req[csnrn] += sim->pt[csnrn].trn / 2;")],
    "the operator asks for more before the requested trials are done", "'more' asks for half of the trials made, not of those requested",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 60 }\\n", 0);
  int i;
  st_pat = "b"; st_dur = 1;
  for (i = 0; i < 5; i++) CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  sim_control(s, SIM_CTRL_CUR_MORE);
  while ((i = sim_run(s)) == RC_SIMUL_NOT_COMPLETED);
  CHECK(st_i == 90);
  return 0;
}
''')
bug("S09-minute", "S09", [(SB, "  srand((unsigned)s);", "  srand((unsigned)(s / 60));")],
    "two runs started in different seconds of the same minute", "runs started at different times simulate the same noise, so their accumulated results count the same trials twice",
    d__c='''#include "stub.h"
static double first(long t) {
  sim_init_params sp = {"p.spf", 1000, 0};
  void *s;
  now_s = t;
  put("p.spf", "res_file out.srf\\nSNR_val_trn { 1 3 }\\n");
  CHECK(sim_init(&sp, &s) == RC_OK);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  return st_y[0];
}
int main() {
  int i, j;
  double v[8];
  static const long t[] = {1700000000, 1700000001, 1700000013, 1700000059, 1700000300};
  for (i = 0; i < 5; i++) for (v[i] = first(t[i]), j = 0; j < i; j++) CHECK(v[i] != v[j]);
  return 0;
}
''')
bug("S09-seed-16", "S09", [(SB, "static void set_rnd_seed(long s) {", "static void set_rnd_seed(short s) {")],
    "two runs started exactly a multiple of 65536 seconds (18 h 12 min 16 s) apart", "runs started at different times simulate the same noise",
    d__c='''#include "stub.h"
static double first(long t) {
  sim_init_params sp = {"p.spf", 1000, 0};
  void *s;
  now_s = t;
  put("p.spf", "res_file out.srf\\nSNR_val_trn { 1 3 }\\n");
  CHECK(sim_init(&sp, &s) == RC_OK);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  return st_y[0];
}
int main() {
  int i, j;
  double v[8];
  static const long t[] = {1700000000, 1700000001, 1700065536, 1700131072, 1700000300};
  for (i = 0; i < 5; i++) for (v[i] = first(t[i]), j = 0; j < i; j++) CHECK(v[i] != v[j]);
  return 0;
}
''')
bug("S10-rows", "S10", [(SB, "snrs_to_show = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;", "snrs_to_show = (sim->csnrn < sim->snr_num && sim->pt[sim->csnrn].en_bl) ? sim->csnrn + 1 : sim->csnrn;")],
    "results shown during a simulation whose current point has no errors yet", "the summary leaves out the SNR value being simulated",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 2 2 9 3 3 }\\n", 0);
  static char b[9999];
  int i, n = 0;
  st_pat = "bb.."; st_dur = 1;
  for (i = 0; i < 4; i++) CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  sim_cur_res_str(s, b);
  for (i = 0; b[i]; i++) n += b[i] == '\\n';
  CHECK(n == 2);
  return 0;
}
''')
bug("S10-ml-rate", "S10", [(SB, "sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0", "sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn : 0")],
    "results shown with ml_lb on and a decoder with erasures", "the ML rate shown is relative to all trials",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { -30 40 }\\nml_lb on\\n", 100);
  static char b[9999];
  double snr, ber, wer, ml;
  st_pat = "exexexexexexexexexexexexexexexexexexexe";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  sim_cur_res_str(s, b);
  CHECK(sscanf(strchr(b, '\\n'), "%lf %lf %lf %lf", &snr, &ber, &wer, &ml) == 4);
  double want = val("out.srf", "enml_bl", 0) / val("out.srf", "ml_tr_num", 0);
  CHECK(want > 0 && fabs(ml - want) < 1e-3);
  return 0;
}
''')
PARSE = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -I. -o "$T/d" "$D/d.c" common/spf_par.c common/ui_txt.c || exit 3
cd "$T" || exit 3
timeout 60 ./d
'''
PC = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/std_defs.h"
#include "common/spf_par.h"
static int same(const char *a, const char *b) { /* two texts of one parameter set */
  char *s, *t;
  FILE *f = fopen("a.spf", "wb"); fputs(a, f); fclose(f);
  f = fopen("b.spf", "wb"); fputs(b, f); fclose(f);
  if (spf_read_preparse("a.spf", &s) || spf_read_preparse("b.spf", &t)) { printf("not read\\n"); return 0; }
  if (strcmp(s, t)) { printf("read differently\\n"); return 0; }
  return 1;
}
'''
bug("P01-crlf", "P01", [(SPF, 'char token_seps[] = " ,\\t\\n\\r";', 'char token_seps[] = " ,\\t\\n";')],
    "a parameter file with CRLF line ends", "files from Windows are read with \\r glued to values and group ends",
    demo=PARSE, d__c=PC + '''int main() { return !same("a 1\\nb { 1 2 }\\nc x\\n", "a 1\\r\\nb { 1 2 }\\r\\nc x\\r\\n"); }\n''')
bug("P01-glued-brace", "P01", [(SPF, "if (strlen(token) > 1) {\n            token[strlen(token) - 1] = 0;", "if (strlen(token) > 2) {\n            token[strlen(token) - 1] = 0;")],
    "a group whose last value has one character and no space before the brace", "the last value of a group is dropped",
    demo=PARSE, d__c=PC + '''int main() { return !(same("b { 1 2 3 }\\n", "b { 1 2 3}\\n") && same("b { 10 23 }\\n", "b {10 23}\\n")); }\n''')
bug("P01-comment-cr", "P01", [(SPF, "         if (sstr[i] == LF_CHAR) {\n            dstr[dstr_len++] = sstr[i];\n            i2 = 0;", "         if (sstr[i] == LF_CHAR) {\n            i2 = 0;")],
    "a comment that follows a value without a space", "a value followed directly by a comment is glued to the next line",
    demo=PARSE, d__c=PC + '''int main() { return !(same("a 1\\nb 2\\n", "a 1 % one\\nb 2\\n") && same("a 1\\nb 2\\n", "a 1% one\\nb 2\\n")); }\n''')
bug("P01-second-include", "P01", [(SPF, "            i1 = strcpy_strip_comments(str1, i1, 0, str1);\n", "            if (str2 == token || strchr(str1, '\\n') != NULL) i1 = strcpy_strip_comments(str1, i1, 0, str1);\n")] if 0 else
    [(SPF, "         token = strtok(NULL, token_seps);\n         if (token == NULL || (sp_file", "         token = strtok(NULL, token_seps);\n         if (token == NULL || (sp_file")] if 0 else
    [(SPF, "   int i2 = 0; // Starting not in comment mode.\n", "   int i2 = (write_term_flag == 0 && sstr_len > 0 && sstr[0] == '#'); // Starting not in comment mode.\n")],
    "an included file that begins with '#'", "an include whose first token begins with # loses its first line",
    demo=PARSE, d__c=PC + '''int main() {
  FILE *f = fopen("i.txt", "w"); fputs("#a 1\\nb 2\\n", f); fclose(f);
  return !same("#a 1\\nb 2\\n", "include i.txt\\n");
}
''')
LS = "Octave/loadsrf.c"
# A loader in which a refusal ends the call as in Octave.
MEXJ = MEXC.replace('#include <math.h>', '#include <math.h>\n#include <setjmp.h>\nstatic jmp_buf back;').replace('void mexErrMsgTxt(const char *s) { }', 'void mexErrMsgTxt(const char *s) { longjmp(back, 1); }').replace('  mexFunction(1, out, 1, pi);\n', '  if (setjmp(back)) return 0;\n  mexFunction(1, out, 1, pi);\n')
bug("R10-er-length", "R10", [(LS, "(er_n_n > 0 && er_n_n != trn_n)", "(er_n_n > trn_n)")],
    "a results file whose erasure counts are fewer than its SNR values", "uninitialised erasure counts are loaded instead of refusing the damaged file",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  if (load("code_n 16\\ncode_k 11\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 44 }\\nen_bl { 10 8 }\\nerasures_num { 5 }\\nml_tr_num { 95 398 }\\nenml_bl { 7 4 }\\n")) return 1;
  return load("%s") == 0;
}
''' % FILEX)
bug("R10-full-file", "R10", [(LS, "snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)", "snr_db, snr_num, SNR_NUM_MAX - 1, err_reading_msg)")],
    "a results file with exactly 50 SNR values", "a complete results file is refused",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  char t[8192] = "code_n 16\\ncode_k 11\\n";
  const char *g[] = {"SNR", "tr_num", "en_bit", "en_bl", "ml_tr_num", "enml_bl"};
  for (int i = 0; i < 6; i++) {
    strcat(t, g[i]); strcat(t, " {");
    for (int j = 0; j < 50; j++) sprintf(t + strlen(t), " %d", j + 1);
    strcat(t, " }\\n");
  }
  mxArray *r = load(t);
  if (!r) return 1;
  NEAR(r->f[2]->n, 50); NEAR(r->f[2]->d[49], 50); NEAR(r->f[4]->d[49], 1);
  return 0;
}
''')
bug("R10-no-trials", "R10", [(LS, "d[n] = (ml_trn[n] > 0) ? (double)(enml_bl[n]) / ml_trn[n] : 0.0;", "d[n] = (trn[n] > 0) ? (double)(enml_bl[n]) / ml_trn[n] : 0.0;")],
    "a point without ML trials: a simulation without ML lower bound, or one in which every trial was an erasure", "the ML error rate of such a point is loaded as NaN",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  mxArray *r = load("code_n 16\\ncode_k 11\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 44 }\\nen_bl { 10 8 }\\nerasures_num { 100 2 }\\nml_tr_num { 0 398 }\\nenml_bl { 0 4 }\\n");
  if (!r) return 1;
  NEAR(r->f[6]->d[0], 0); NEAR(r->f[6]->d[1], 4.0 / 398);
  return 0;
}
''')
bug("R10-no-size", "R10", [(LS, "|| (c_n == 0) || (c_k == 0)) {", "|| (c_n + c_k == 0)) {")],
    "a results file without code_k", "the file is loaded with infinite bit error rates",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  if (load("code_n 16\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 44 }\\nen_bl { 10 8 }\\nml_tr_num { 95 398 }\\nenml_bl { 7 4 }\\n")) return 1;
  return load("%s") == 0;
}
''' % FILEX)
bug("R10-static", "R10", [(LS, "  int er_n_n = 0;", "  static int er_n_n = 0;")],
    "a results file without erasure counts loaded after one with them", "the earlier file's erasure counts, or whatever the memory holds, are returned",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  if (!load("%s")) return 1;
  mxArray *r = load("code_n 16\\ncode_k 11\\nSNR { 1 }\\ntr_num { 100 }\\nen_bit { 33 }\\nen_bl { 10 }\\nml_tr_num { 95 }\\nenml_bl { 7 }\\n");
  if (!r) return 1;
  NEAR(r->f[5]->d[0], 0);
  return 0;
}
''' % FILEX)
