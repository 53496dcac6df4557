# Planted bugs: limits (counts near the int range, full lists), the simulator's own random generator.
bug("S02-estimate-int", "S02", [(SB, "estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;", "estimate = sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;")],
    "more word errors wanted than an int times the trials can count", "an SNR value is left after some twenty errors when very many are wanted",
    d__c='''#include "stub.h"
static void enough(int i) { if (i > 400) exit(0); }
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 10 }\\nmin_errors_per_snr 2000000000\\n", 1000);
  st_pat = "b";
  st_hook = enough;
  sim_run(s);
  CHECK(st_i > 400);
  return 0;
}
''')
bug("S08-fewer-double", "S08", [(SB, "      sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;", "      sim->trn_req[csnrn] = sim->trn_req[csnrn] * 2 / 3;")],
    "fewer trials asked for when more than 2^30 are wanted", "asking for fewer of very many trials ends the SNR value",
    d__c='''#include "stub.h"
int main() {
  char str[1000];
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 1500000000 }\\n", 0);
  st_pat = "b"; st_dur = 1;
  CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  sim_control(s, SIM_CTRL_CUR_LESS);
  sim_state_str(s, str);
  CHECK(strstr(str, "/ 1000000000"));
  return 0;
}
''')
FIFTY = '''#include "stub.h"
int main() {
  char text[4000] = "res_file out.srf\\nEbNo_values {";
  int i;
  for (i = 0; i < 50; i++) sprintf(text + strlen(text), " %d", i);
  strcat(text, " }\\n");
  void *s = start(text, 1000);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  double v = val("out.srf", "tr_num", 49);
  CHECK(v >= 1);
  sim_close(s);
  s = start(text, 1000);
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "tr_num", 49) == 2 * v);
  return 0;
}
'''
bug("R02-fiftieth", "R02", [("common/spf_par.c", "while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {", "while ((tk[0] != GROUP_CHAR_END) && (i + 1 < max_n)) { // Leaves room for the end mark.")],
    "a results file with as many SNR values as there is room for, saved to once more", "a full results file can never be added to", d__c=FIFTY)
bug("S04-word-of-symbols", "S04", [(SB, "        for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;", "        int w = 0; // Random symbols, 15 at once.\n        for (i = 0; i < c_k; i++, w /= 2) {\n          if (i % 32 == 0) w = (int)(RND * 32767.0);\n          x[i] = w % 2;\n        }")],
    "random codewords of a code of dimension above 15", "half of the information symbols of a larger code are always zero",
    d__c='''#include "stub.h"
int main() {
  int i, ones = 0;
  st_n = 32; st_k = 32;
  void *s = start("res_file out.srf\\nSNR_val_trn { 100 100 }\\nrandom_codeword on\\nmin_errors_per_snr 1\\n", 0);
  st_pat = "b"; st_dur = 1;
  for (i = 0; i < 60; i++) {
    int j;
    CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
    for (j = 16; j < 32; j++) ones += st_y[j] > 0;
  }
  CHECK(ones > 200 && ones < 760);
  return 0;
}
''')
bug("S04-own-float", "S04", [(SB, "double rnd_seed = 1.0;", "float rnd_seed = 1.0;")],
    "the simulator built with its own random generator", "the noise soon repeats itself",
    demo=open(H + "/demo_stub.sh").read().replace("-DUSE_STDLIB_RND ", ""),
    d__c='''#include "stub.h"
static double all[200000];
static int n;
static void take(int i) { int j; for (j = 0; j < st_n; j++) if (n < 200000) all[n++] = st_cur[j]; }
static int cmp(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return (x > y) - (x < y); }
int main() {
  int i, same = 0;
  st_n = 64; st_k = 8;
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 3000 }\\n", 100000);
  st_pat = "b"; st_hook = take;
  CHECK(sim_run(s) == RC_OK);
  qsort(all, n, sizeof(double), cmp);
  for (i = 1; i < n; i++) same += all[i] == all[i - 1];
  CHECK(same < 200);
  return 0;
}
''')
