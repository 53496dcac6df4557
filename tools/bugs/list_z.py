# Planted bugs: long codes and lists, options that are left out.
cbug("C02-long-path", "C02", "polar", [(PI, "  for (i = 0; i < n; i++) {\n    res_x[n - i - 1] = xle->x;", "  for (i = 0; i < n && i < 512; i++) {\n    res_x[n - i - 1] = xle->x;")],
     "a polar code with more than 512 information bits", "the first information bits of long words are not decoded", '''
int main() {
  static char m[1030], p[3000];
  static int x[1024], z[1024];
  static double y[1024];
  void *a;
  int i, k, t;
  for (i = 0; i < 1024; i++) m[i] = i >= 400 ? '1' : '0';
  sprintf(p, "c_m 10 info_bits_mask %s list_size 2", m);
  a = mk(p);
  k = cdc_get_k(a);
  for (t = 0; t < 5; t++) {
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    memset(z, 7, sizeof(z));
    enc_bpsk(a, x, y);
    dec_bpsk(a, y, z);
    if (memcmp(x, z, k * sizeof(int))) FAIL("undisturbed word %d not decoded", t);
  }
  return 0;
}
''')
cbug("C03-hundredth", "C03", "polar", [(PM, "    for (i = 0; i < lsiz; i++) {\n      if (is_valid_crc", "    for (i = 0; i < lsiz && i < 100; i++) {\n      if (is_valid_crc")],
     "a list of more than 100 in which only a late candidate has a right CRC", "an erasure is reported although a word on the list has a right CRC", '''
int main() {
  void *a = mk("c_m 4 info_bits_mask 0000011111111111 ca_polar_crc 11010101 list_size 2048");
  int i, t, k = cdc_get_k(a), x[16], z[16];
  double y[16];
  cdc_set_sg(a, 2.0);
  for (t = 0; t < 300; t++) {
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    enc_bpsk(a, x, y);
    for (i = 0; i < 16; i++) y[i] += 2.0 * gauss();
    if (dec_bpsk(a, y, z) != RC_OK) FAIL("erasure in trial %d although all words are on the list", t);
  }
  return 0;
}
''')
bug("S05-ri-of-save", "S05", [(MT, "   sp.ret_int = DEFAULT_RET_INT;", "   sp.ret_int = save_int;")],
    "no -ri on the command line", "without -ri the status is shown and the save interval looked at every 600 s instead of every 10 s",
    demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
P=$PWD/_build/dtrm0_bg
cd "$T" || exit 3
printf 'RM_m 4\\nRM_r 2\\nres_file out.srf\\nSNR_val_trn { 1 2000000000 }\\n' > p.spf
timeout -s KILL 20 "$P" p.spf -nr -si 5 > /dev/null
[ -s out.srf ] || { echo "nothing saved in 20 s"; exit 1; }
''')
bug("S09-seed-short", "S09", [(SB, "srand((unsigned)s);", "srand((unsigned short)s);")],
    "two runs started exactly a multiple of 65536 seconds apart", "runs started at different times simulate the same noise",
    d__c='''#include "stub.h"
static double first(long t) {
  sim_init_params sp = {"p.spf", 1000, 0};
  void *s;
  now_s = t;
  put("p.spf", "res_file out.srf\\nSNR_val_trn { 1 3 }\\n");
  CHECK(sim_init(&sp, &s) == RC_OK);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  return st_y[0];
}
int main() {
  double a = first(1700000000), b = first(1700000000 + 65536 * 7);
  CHECK(a != b);
  return 0;
}
''')
bug("R10-no-k", "R10", [(LS, "|| (c_n == 0) || (c_k == 0)) {", "|| (c_n == 0)) {")],
    "a results file without code_k", "the file is loaded with infinite bit error rates",
    demo=LOADER, mex__h=MEXH, d__c=MEXJ + '''int main() {
  if (load("code_n 16\\nSNR { 1 2 }\\ntr_num { 100 400 }\\nen_bit { 33 44 }\\nen_bl { 10 8 }\\nml_tr_num { 95 398 }\\nenml_bl { 7 4 }\\n")) return 1;
  return load("%s") == 0;
}
''' % FILEX)
bug("R08-int-product", "R08", [(SB, "      (double)pt_file[n].en_bit / ((double)pt_file[n].trn * sim->code_k),", "      (double)pt_file[n].en_bit / (pt_file[n].trn * sim->code_k),")],
    "so many trials that all their information bits are more than an int can count", "the bit error rates in the table are wrong or negative",
    d__c='''#include "stub.h"
int main() {
  put("out.srf", "SNR { 1 }\\ntr_num { 2000000000 }\\nen_bit { 1000000000 }\\nen_bl { 500000000 }\\nerasures_num { 0 }\\nml_tr_num { 0 }\\nenml_bl { 0 }\\n");
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 3 }\\n", 1000);
  char line[400]; double snr, ber = -7; FILE *f;
  st_pat = "x";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  f = fopen("out.srf", "r");
  while (fgets(line, sizeof(line), f)) if (sscanf(line, "%% %lf %lf", &snr, &ber) == 2) break;
  CHECK(ber > 1e-3 && ber < 0.5);
  return 0;
}
''')
bug("S03-stale-word", "S03", [(SB, "  // Main simulation loop.\n", "  // The zero word is set up once.\n  for (i = 0; i < c_k; i++) x[i] = 0;\n  for (i = 0; i < c_n; i++) c_in[i] = -1.0;\n\n  // Main simulation loop.\n"),
      (SB, "      else {\n        for (i = 0; i < c_k; i++) x[i] = 0;\n        for (i = 0; i < c_n; i++) c_in[i] = -1.0;\n      }\n", "")],
    "random_codeword off, ml_lb on and a wrong decoding", "after a wrong decoding the next trial transmits the wrongly decoded word instead of the zero word",
    d__c='''#include "stub.h"
static int bad;
static void look(int i) {
  int j;
  for (j = 0; j < st_n; j++) if (st_cur[j] > 0) bad = 1;
}
int main() {
  void *s = start("res_file out.srf\\nrandom_codeword off\\nml_lb on\\nSNR_val_trn { 40 20 }\\n", 1000);
  st_pat = "..x..b..x";
  st_hook = look;
  CHECK(sim_run(s) == RC_OK);
  CHECK(!bad);
  return 0;
}
''')
bug("R01-init-er", "R01", [(SB, "  memset(p, 0, sizeof(sim_point));", "  p->trn = p->en_bit = p->en_bl = 0;\n  p->trn_ml = p->enml_bl = 0;")],
    "an SNR value that is inserted before one with erasures that is in the file already", "the erasures of the next entry are added to the new one",
    d__c="""#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 3 30 }\\n", 1000);
  st_pat = "e";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "erasures_num", 0) > 0);
  sim_close(s);
  s = start("res_file out.srf\\nSNR_val_trn { 1 30 }\\n", 1000);
  st_pat = "x";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "erasures_num", 0) == 0);
  CHECK(val("out.srf", "erasures_num", 1) > 0);
  return 0;
}
""")
