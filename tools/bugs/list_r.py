SB = "simulators/sim_bg.c"
bug("R01-ml-trials", "R01", [(SB, "dst->trn_ml = src1->trn_ml - src2->trn_ml;", "dst->trn_ml = src1->trn - src2->trn; // One ML check per trial.")],
    "ml_lb on, a decoder that declares erasures, results read from ml_tr_num",
    "the saved number of ML trials counts trials in which ML was not evaluated (erasures)",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 10 }\\nml_lb on\\nmin_errors_per_snr 1\\n", 1000);
  st_pat = "..e.b.e...";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "tr_num", 0) == 10);
  CHECK(val("out.srf", "ml_tr_num", 0) == 8);
  sim_close(s);
  return 0;
}
''')
bug("R03-mark-during-read", "R03", [(SB, "  // Delete busy flag file.\n  remove(bsyfn);\n", "", ),
                                    (SB, "  rc = update_res_file(sim, &old_res);\n", "  // Do not hold the busy flag longer than needed.\n  remove(bsyfn); // Delete busy flag file.\n\n  rc = update_res_file(sim, &old_res);\n")],
    "two simulations sharing a results file whose saves overlap: one replaces the file between the other's reading and replacing",
    "the results of one of two overlapping saves are lost",
    demo='''#!/bin/bash
# Two saves that overlap: the first is held at its rename() until the second is done.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -Drename=my_rename -I. -I"$D" -o "$T/d" \\
  "$D/d.c" simulators/sim_bg.c common/spf_par.c common/ui_txt.c common/srm_utils.c -lm || exit 3
cd "$T" || exit 3
./d 5 hold > a.txt & A=$!
for i in $(seq 500); do [ -e held ] && break; sleep 0.02; done
[ -e held ] || { kill $A; exit 3; }
timeout 60 ./d 7 > b.txt & B=$!
for i in $(seq 100); do kill -0 $B 2>/dev/null || break; sleep 0.02; done
touch go
wait $A || { echo "the first save failed"; exit 1; }
wait $B || { echo "the second save failed"; exit 1; }
N=$(sed -n 's/^tr_num { \\([0-9]*\\) }/\\1/p' out.srf)
echo "trials in the file: $N"
[ "$N" = 12 ]
''',
    d__c='''#define rename real_rename
#define my_time time
#define my_clock clock
#define NOCLOCK
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "common/std_defs.h"
#include "interfaces/codec.h"
#include "interfaces/simul.h"
#undef rename
int rename(const char *, const char *);
static int hold;
int my_rename(const char *a, const char *b) {
  if (hold) {
    fclose(fopen("held", "w"));
    while (access("go", F_OK)) usleep(10000);
  }
  return rename(a, b);
}
int cdc_init(char s[], void **c) { *c = malloc(1); return 0; }
int cdc_get_n(void *c) { return 4; }
int cdc_get_k(void *c) { return 2; }
void cdc_close(void *c) { free(c); }
void cdc_set_sg(void *c, double sg) { }
int enc_bpsk(void *c, int x[], double y[]) { return 0; }
int dec_bpsk(void *c, double y[], int x[]) { x[0] = x[1] = 1; return 0; }
int main(int ac, char **av) {
  char fn[30];
  void *s;
  sim_init_params sp = {fn, 1000, 1};
  sprintf(fn, "p%s.spf", av[1]);
  FILE *f = fopen(fn, "w");
  fprintf(f, "res_file out.srf\\nSNR_val_trn { 1 %s }\\n", av[1]);
  fclose(f);
  hold = ac > 2;
  if (sim_init(&sp, &s) || sim_run(s)) return 3;
  if (sim_save_res(s)) return 4;
  return 0;
}
''')
bug("R04-remove-first", "R04", [(SB, '''  fprintf(fp, "\\n");
  fprintf(fp, "%% SNR   BER        WER        ERR        ML LB");''', '''  remove(sim->rf_name); // So the new file gets its own permissions.
  fprintf(fp, "\\n%% SNR   BER        WER        ERR        ML LB");''')],
    "the simulation is killed inside a save between writing the temporary file and renaming it",
    "killed during a save, the results file is gone",
    demo='''#!/bin/bash
# A save that is killed where it replaces the results file.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -shared -fPIC -o "$T/k.so" "$D/k.c" -ldl || exit 3
P=$PWD/_build/dtrm0_bg
cd "$T" || exit 3
printf 'res_file out.srf\\nSNR_val_trn { 1 20 }\\nRM_r 2\\nRM_m 5\\ncode_G_type 0\\nborder_node_lsize { 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 }\\n' > p.spf
cp "$D/p.spf" p.spf
timeout 60 "$P" p.spf -nr > /dev/null || exit 3
[ -s out.srf ] || exit 3
cp out.srf old.srf
LD_PRELOAD=$T/k.so timeout 60 "$P" p.spf -nr > /dev/null
[ $? = 77 ] || exit 3
[ -s out.srf ] || { echo "the results file is gone"; exit 1; }
cmp -s out.srf old.srf || { echo "the results file changed"; exit 1; }
exit 0
''',
    k__c='''#include <unistd.h>
int rename(const char *a, const char *b) { _exit(77); }
''', p__spf="@DTRM0@")
bug("R05-write-in-place", "R05", [(SB, '''  if (fp == NULL) {
    err_msg("sim_bg saving error: cannot open file to save results.");
    return RC_ERROR;
  }
''', '''  if (fp == NULL && (fp = fopen(strcpy(tmpfn, sim->rf_name), "wt")) == NULL) { // No room for another file: write to it.
    err_msg("sim_bg saving error: cannot open file to save results.");
    return RC_ERROR;
  }
''')],
    "the temporary file cannot be created and then writing fails too (directory full)",
    "a save that fails for lack of space destroys the results saved before",
    demo='''#!/bin/bash
# No new file can be created (its name is taken by a directory) and nothing can be written.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
P=$PWD/_build/dtrm0_bg
cd "$T" || exit 3
cp "$D/p.spf" p.spf
timeout 60 "$P" p.spf -nr > /dev/null || exit 3
cp out.srf old.srf
mkdir out.srf.tmp
# Output goes to a pipe: only files are limited.
( trap '' XFSZ; ulimit -f 0; timeout 60 "$P" p.spf -nr 2>&1; echo "exit $?" ) | tail -1 > >(cat) || exit 3
[ -s out.srf ] || { echo "the results are gone"; exit 1; }
cmp -s out.srf old.srf || { echo "the results changed"; exit 1; }
exit 0
''', p__spf="@DTRM0@")
bug("R06-sleep-short", "R06", [(SB, "static void sleep(clock_t wait) {\n  clock_t goal;", "static void sleep(char wait) {\n  clock_t goal;")],
    "another simulation holds the busy flag for some seconds at the time of a save",
    "a save gives up at once instead of waiting for the busy flag, so results are not saved",
    demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
P=$PWD/_build/dtrm0_bg
cd "$T" || exit 3
cp "$D/p.spf" p.spf
touch out.srf.bsy
timeout 100 "$P" p.spf -nr > o.txt & A=$!
sleep 3
unlink out.srf.bsy
wait $A
rc=$?
[ $rc = 0 ] || { echo "exit $rc: did not wait"; exit 1; }
[ -s out.srf ]
''', p__spf="@DTRM0@")
bug("R06-stale-mark", "R06", [(SB, "  // Delete busy flag file.\n  remove(bsyfn);\n", "  // Delete busy flag file.\n  if (rc == RC_OK) remove(bsyfn);\n")],
    "a save that fails (here: the old results file cannot be read) followed by another save",
    "after one failed save the busy flag stays, so this and all other simulations can never save again",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 5 }\\n", 1000);
  st_pat = "b";
  put("out.srf", "SNR { 1 2 }\\ntr_num { 1 }\\n");
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_ERROR);
  CHECK(access("out.srf.bsy", F_OK) != 0);
  unlink("out.srf");
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "tr_num", 0) == 5);
  return 0;
}
''')
bug("R07-missing-erasures", "R07", [(SB, "(er_n_n != trn_n)", "(er_n_n > 0 && er_n_n != trn_n)")],
    "an old results file without the erasures_num group (from another program or damaged) with at least one SNR value of the run",
    "a results file without erasure counters is accepted and uninitialised numbers are added and saved",
    d__c='''#include "stub.h"
int main() {
  const char *old = "SNR { 1 }\\ntr_num { 10 }\\nen_bit { 0 }\\nen_bl { 0 }\\nml_tr_num { 0 }\\nenml_bl { 0 }\\n";
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 5 }\\n", 1000);
  char b[1000] = "";
  st_pat = "b";
  put("out.srf", old);
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_ERROR);
  FILE *f = fopen("out.srf", "r");
  fread(b, 1, 999, f);
  CHECK(strcmp(b, old) == 0);
  return 0;
}
''')
bug("R07-one-too-many", "R07", [("common/spf_par.c", "(i < max_n)) {\n        if (spf_get_int(tk, x)", "(i <= max_n)) {\n        if (spf_get_int(tk, x)"),],
    "a results file whose counter groups have more than 50 entries",
    "an oversized results file makes the save write past its array",
    demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -I. -o "$T/d" "$D/d.c" common/spf_par.c common/ui_txt.c || exit 3
cd "$T" || exit 3
timeout 60 ./d
''',
    d__c='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/std_defs.h"
#include "common/spf_par.h"
int main() {
  static char s[] = "a\\001{\\0011\\0012\\0013\\0014\\0015\\001}\\001";
  int i, x[6] = {0, 0, 0, 0, -7, -7}, n = 0;
  for (i = 0; s[i]; i++) if (s[i] == 1) s[i] = TOKEN_SEP_CHAR;
  char *t = strtok(s, tk_seps_prepared);
  int rc = tryread_group_int_param(&t, "a", x, sizeof(int), &n, 4, "too many");
  if (x[4] != -7) { printf("wrote past the array\\n"); return 1; }
  return rc == RC_ERROR ? 0 : 1;
}
''')
bug("R08-ml-rate", "R08", [(SB, '''      (double)pt_file[n].er_n / pt_file[n].trn,
      pt_file[n].trn_ml ? (double)pt_file[n].enml_bl / pt_file[n].trn_ml : 0.0''', '''      (double)pt_file[n].er_n / pt_file[n].trn,
      pt_file[n].trn_ml ? (double)pt_file[n].enml_bl / pt_file[n].trn : 0.0''')],
    "a decoder with erasures and ml_lb on, so that ML trials and trials differ; visible in the table only",
    "the ML lower bound in the table of the results file is too small",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { -30 40 }\\nml_lb on\\n", 1000);
  static char b[9999];
  double snr, ber, wer, err, ml;
  st_pat = "exexexexexexexexexexexexexexexexexexexe";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  FILE *f = fopen("out.srf", "r");
  fread(b, 1, 9998, f);
  CHECK(strstr(b, "ML LB") && sscanf(strstr(b, "ML LB") + 5, " %% %lf %lf %lf %lf %lf", &snr, &ber, &wer, &err, &ml) == 5);
  double want = val("out.srf", "enml_bl", 0) / val("out.srf", "ml_tr_num", 0);
  CHECK(want > 0);
  CHECK(fabs(ml - want) < 1e-3);
  return 0;
}
''')
bug("R08-ber-code-n", "R08", [(SB, '''      (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
        (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
        sim->pt[n].trn_ml''', '''XX''')] if 0 else [(SB, '''(double)pt_file[n].en_bl / pt_file[n].trn,
      (double)pt_file[n].er_n / pt_file[n].trn,''', '''(double)(pt_file[n].en_bl - pt_file[n].er_n) / pt_file[n].trn,
      (double)pt_file[n].er_n / pt_file[n].trn,''')],
    "a decoder with erasures; visible in the table only",
    "the block error rate in the table does not include erased blocks, unlike the WER group and the counters",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 1 20 }\\n", 1000);
  static char b[9999];
  double snr, ber, wer, err, ml;
  st_pat = "exe.";
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  FILE *f = fopen("out.srf", "r");
  fread(b, 1, 9998, f);
  CHECK(strstr(b, "ML LB") && sscanf(strstr(b, "ML LB") + 5, " %% %lf %lf %lf %lf %lf", &snr, &ber, &wer, &err, &ml) == 5);
  CHECK(fabs(wer - val("out.srf", "en_bl", 0) / val("out.srf", "tr_num", 0)) < 1e-3);
  return 0;
}
''')

bug("R01-copy-short", "R01", [(SB, "memcpy(dst, src, sizeof(sim_point));", "memcpy(dst, src, (unsigned char *)&src->enml_bl - (unsigned char *)src);")],
    "ml_lb on, ML errors before an intermediate save, and another save after it (or an entry moved to insert a new SNR value)",
    "ML errors are added to the file again at each later save",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { -30 40 }\\nml_lb on\\n", 0);
  int i, rc;
  st_pat = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
  st_dur = 1;
  for (i = 0; i < 20; i++) CHECK(sim_run(s) == RC_SIMUL_NOT_COMPLETED);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "enml_bl", 0) > 0);
  while ((rc = sim_run(s)) == RC_SIMUL_NOT_COMPLETED);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "ml_tr_num", 0) == 40);
  double a = val("out.srf", "enml_bl", 0);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("out.srf", "enml_bl", 0) == a);
  CHECK(a <= 40);
  /* The same without the intermediate save. */
  st_i = 0; st_enc = 0;
  s = start("res_file ref.srf\\nSNR_val_trn { -30 40 }\\nml_lb on\\n", 1000);
  st_dur = 0;
  CHECK(sim_run(s) == RC_OK);
  CHECK(sim_save_res(s) == RC_OK);
  CHECK(val("ref.srf", "enml_bl", 0) == a);
  return 0;
}
''')
bug("R02-unsorted", "R02", [(SB, "  int i, j, n, snrs_to_save;\n", "  int i, j, n = 0, snrs_to_save;\n"), (SB, "    n = 0;\n    while ((n < snr_num) &&", "    if (i == 0 || sim->snr_db[i] + 1 < sim->snr_db[i - 1]) n = 0; // Else go on from the previous one.\n    while ((n < snr_num) &&")],
    "SNR values given in an order that steps back by at most 1 dB",
    "the results file gets entries out of order, and an SNR value gets a second entry",
    d__c='''#include "stub.h"
int main() {
  void *s = start("res_file out.srf\\nSNR_val_trn { 3 3 2 3 2.5 3 }\\n", 1000);
  st_pat = "b";
  CHECK(sim_run(s) == RC_OK); CHECK(sim_save_res(s) == RC_OK); sim_close(s);
  s = start("res_file out.srf\\nSNR_val_trn { 3 3 2 3 2.5 3 }\\n", 1000);
  CHECK(sim_run(s) == RC_OK); CHECK(sim_save_res(s) == RC_OK); sim_close(s);
  CHECK(val("out.srf", "SNR", 0) == 2);
  CHECK(val("out.srf", "SNR", 1) == 2.5);
  CHECK(val("out.srf", "SNR", 2) == 3);
  CHECK(val("out.srf", "SNR", 3) == -1);
  CHECK(val("out.srf", "tr_num", 2) == 6);
  return 0;
}
''')
