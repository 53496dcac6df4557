# Planted bugs: Windows console (S12) and a later batch of others.
MT = "simulators/main_txt.c"
WIND = '''#!/bin/bash
# Runs d.c (the real program with its Windows parts, a scripted codec and keyboard) in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -DWIN32 -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -Dtime=my_time -Dclock=my_clock -I. -I"$D" -o "$T/d" \\
  "$D/d.c" simulators/sim_bg.c common/spf_par.c common/ui_txt.c common/srm_utils.c -lm || exit 3
cd "$T" || exit 3
timeout 100 ./d > out.txt
rc=$?
[ $rc -ne 0 ] && echo "demonstration: exit $rc"
exit $rc
'''
CONIO = "int _kbhit(void);\nint _getch(void);\n"
WINDOWS = "typedef void *HANDLE;\n#define IDLE_PRIORITY_CLASS 0x40\n#define GetCurrentProcess() ((HANDLE)0)\n#define SetPriorityClass(h, c) ((void)(h))\n"
WMAIN = '''
/* Keys: read one by one when the decoder has made so many trials. */
static struct { int trial, key; } keys[] = { KEYS, {1 << 30, 0} };
static int nk;
int _kbhit(void) { return st_i >= keys[nk].trial; }
int _getch(void) { if (!_kbhit()) { fprintf(stderr, "waits for a key\\n"); exit(1); } return keys[nk++].key; }
#define main prog_main
#include "simulators/main_txt.c"
#undef main
static int go(const char *params) {
  char *a[] = {"sim", "p.spf", "-nr", "-ri", "0", "-si", "100000", 0};
  put("p.spf", params);
  srand(1);
  st_dur = 2;
  return prog_main(7, a);
}
'''
def winbug(id, edits, needs, breaks, keys, main):
    bug(id, "S12", edits, needs, breaks, demo=WIND, d__c='#include "stub.h"\n' + WMAIN.replace("KEYS", keys) + main, conio__h=CONIO, windows__h=WINDOWS)
winbug("S12-keys-flushed", [(MT, "         ch1 = _getch();\n", "         do ch1 = _getch(); while (_kbhit()); // Keys may have piled up.\n")],
    "two different keys pressed within one slice of the simulation", "only the last of the keys pressed during a slice has an effect", "{3, '>'}, {3, 's'}", '''
int main() {
  st_pat = "b";
  CHECK(go("res_file out.srf\\nSNR_val_trn { 1 20 }\\n") == 0);
  CHECK(val("out.srf", "tr_num", 0) == 30);
  return 0;
}
''')
winbug("S12-save-falls", [(MT, "         case 's' : sim_save_res(sim_inst); break;\n", "         case 's' : if (sim_save_res(sim_inst) == RC_OK) break; // Show that it failed.\n")],
    "key 's' pressed while the results cannot be saved", "nothing is said; instead the key prints the results so far as the space key does", "{3, 's'}, {5, 'd'}", '''
static int shown;
void hook(int i) { if (i == 2) put("out.srf", "SNR { 1 2 }\\ntr_num { 1 }\\n"); if (i == 8) remove("out.srf"); }
int main() {
  char b[20000];
  FILE *f;
  size_t n;
  st_hook = hook;
  st_pat = "b";
  CHECK(go("res_file out.srf\\nSNR_val_trn { 1 20 }\\n") == 0);
  CHECK(val("out.srf", "tr_num", 0) == 20);
  fflush(stdout);
  f = fopen("out.txt", "r");
  n = fread(b, 1, sizeof(b) - 1, f);
  b[n] = 0;
  { char *p = b, *q = strstr(b, "Simulation is over."); int c = 0; CHECK(q != NULL);
    while ((p = strstr(p, "ep_bit")) != NULL && p < q) { c++; p++; }
    CHECK(c == 0); }
  return 0;
}
''')
winbug("S12-next-upper", [(MT, "         switch (ch1) {\n", "         switch (ch1 & 0x5f ? ch1 & 0x7f : ch1) { // Ignore the high bit.\n")],
    "a key whose code has the high bit set, such as those of special keys and letters of other alphabets", "such a key saves, stops the SNR value or changes the number of trials", "{3, 'N' | 128}", '''
int main() {
  st_pat = "b";
  CHECK(go("res_file out.srf\\nSNR_val_trn { 1 20 }\\n") == 0);
  CHECK(val("out.srf", "tr_num", 0) == 20);
  return 0;
}
''')
winbug("S12-repeated-key",
    [(MT, "         case '>' : sim_control(sim_inst, SIM_CTRL_CUR_MORE); break;\n", "         case '>' : sim_control(sim_inst, SIM_CTRL_CUR_MORE); if (_kbhit()) ch1 = _getch(); break; // Keyboard repetition.\n")],
    "a key pressed right after '>'", "the key after '>' is swallowed", "{3, '>'}, {3, '>'}", '''
int main() {
  st_pat = "b";
  CHECK(go("res_file out.srf\\nSNR_val_trn { 1 20 }\\n") == 0);
  CHECK(val("out.srf", "tr_num", 0) == 45);
  return 0;
}
''')
# ---- others
bug("S04-sigma-once", "S04", [(SB, "    noise_sg = 1 / sqrt(2 * c_R * db2val(sim->snr_db[csnrn]));\n", "    if (csnrn == 0 || sim->pt[csnrn].trn > 0) noise_sg = 1 / sqrt(2 * c_R * db2val(sim->snr_db[csnrn]));\n")],
    "a slice that goes on to another SNR value", "the first slice of an SNR value uses the noise of the SNR value before",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 4 6 4 }\\n", 1000);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK);
  CHECK(st_nsg == 8);
  CHECK(fabs(st_sgs[0] - 1 / sqrt(pow(10, 0.1))) < 1e-9);
  CHECK(fabs(st_sgs[7] - 1 / sqrt(pow(10, 0.6))) < 1e-9);
  return 0;
}
''')
bug("S02-bits-for-blocks", "S02", [(SB, "if (sim->pt[csnrn].en_bl < sim->min_en_bl) {", "if (sim->pt[csnrn].en_bit < sim->min_en_bl) {")],
    "erroneous words with more than one wrong bit and more wrong words wanted than there are after the wanted trials", "an SNR value is left with fewer wrong words than were asked for",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nEbNo_values { 1 }\\nmin_trials_per_snr 6\\nmin_errors_per_snr 4\\n", 1000);
  st_pat = "..x....x....x....x....x.....x";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "en_bl", 0) >= 4);
  return 0;
}
''')
cbug("C01-sg-shared", "C01", "glp", [(GM, "   dd->sg22 = 2.0 / (noise_sg * noise_sg);", "   static double last_sg; // Most often it is the same.\n   if (noise_sg != last_sg) { last_sg = noise_sg; dd->sg22 = 2.0 / (noise_sg * noise_sg); }")],
     "two instances that are told the same noise level one after the other", "the second instance goes on with its old noise level", """
int main() {
  const char *p = "RM_m 5 RM_r 2 border_node_mask 1111111111111 border_node_lsize 4";
  void *a, *b;
  int t, i, k, n, x1[64], x2[64];
  double y[64];
  g_sg = 0;
  a = mk(p); b = mk(p);
  k = cdc_get_k(a); n = cdc_get_n(a);
  cdc_set_sg(a, 3.0); cdc_set_sg(b, 2.5);
  cdc_set_sg(a, 0.5); cdc_set_sg(b, 0.5);
  for (t = 0; t < 5000; t++) {
    for (i = 0; i < n; i++) y[i] = -1 + 1.2 * gauss();
    dec_bpsk(a, y, x1);
    dec_bpsk(b, y, x2);
    if (memcmp(x1, x2, k * sizeof(int))) FAIL("word %d decoded differently by another instance at the same noise level", t);
  }
  return 0;
}
""")
cbug("C03-crc-long", "C03", "polar", [(CR, "for (i = 0; i < x_len - crc_len; i++) {", "for (i = 0; i < x_len - crc_len && i < 255; i++) {")],
     "codes with more than 255 information bits", "bits beyond the 255th are not covered by the CRC", """
int main() {
  char m[520], p[3000];
  void *a, *b;
  int i, n, k, x[600], z[600], r;
  double y[512];
  for (i = 0; i < 512; i++) m[i] = i >= 200 ? '1' : '0';
  m[i] = 0;
  sprintf(p, "c_m 9 info_bits_mask %s ca_polar_crc 11010101 list_size 1", m);
  a = mk(p);
  sprintf(p, "c_m 9 info_bits_mask %s list_size 1", m);
  b = mk(p);
  n = cdc_get_n(a); k = cdc_get_k(a);
  /* a codeword of the code without CRC whose last 8 bits are not the CRC of the rest */
  for (i = 0; i < 512; i++) x[i] = 0;
  x[270] = 1;
  enc_bpsk(b, x, y);
  cdc_set_sg(a, 0.3);
  r = dec_bpsk(a, y, z);
  if (r != RC_DEC_ERASURE) FAIL("a word with a wrong CRC was taken for right");
  return 0;
}
""")
