# C08: the other reliability formats.
FKIND = {"d0": "dtrm/dtrm0.c common/srm_utils.c", "glp": "-DDEC_NEEDS_CSNRN dtrm_glp/dtrm_glp_main.c dtrm_glp/dtrm_glp_inner.c common/srm_utils.c", "polar": "polar_scl/ca_polar_scl_main.c polar_scl/polar_scl_inner.c common/crc.c common/srm_utils.c"}
def fbug(id, fmt, kind, edits, needs, breaks, main):
    bug(id, "C08", edits, needs, breaks, demo='''#!/bin/bash
# Runs d.c (direct use of a codec built with format_%s.h) in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
cp -r common dtrm dtrm_glp polar_scl formats interfaces rm1_ml lib "$T" || exit 3
cd "$T" || exit 3
sed -i 's|^#include "format_eps5.h"|//&|; s|^//\\(#include "format_%s.h"\\)|\\1|' formats/formats.h
gcc -w -g -O1 -DDEC_NEEDS_SIGMA -I. -Ilib -I"$D" -o d "$D/d.c" %s common/spf_par.c common/ui_txt.c -lm || exit 3
timeout 100 ./d > out.txt 2>&1
rc=$?
[ $rc -ne 0 ] && { tail -3 out.txt; echo "demonstration: exit $rc"; }
exit $rc
''' % (fmt, fmt, FKIND[kind]), d__c='#include "cd.h"\n' + main, cd__h=CDH)
FLIGHT = '''
int main() {
  void *a = mk("%s");
  int n = cdc_get_n(a), k = cdc_get_k(a), x[512], z[512], t, i, j;
  double y[512], llr = %s;
  cdc_set_sg(a, 1.0);
  for (t = 0; t < 20000; t++) {
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    if (enc_bpsk(a, x, y)) return 3;
    for (i = 0; i < n; i++) y[i] *= llr / 2 * (0.9 + 0.2 * u01());
    for (i = 0; i < %d; i++) { j = (int)(u01() * n); if (i == 0) y[j] = -y[j]; else y[j] *= 1e-3; }
    dec_bpsk(a, y, z);
    if (memcmp(x, z, k * sizeof(int))) FAIL("word %%d, lightly disturbed, is not corrected", t);
  }
  return 0;
}
'''
fbug("C08-strongest", "rho5", "glp", [("formats/format_rho5.h", "#define STRONGEST_EST0 (1e300)", "#define STRONGEST_EST0 (1e2)")],
     "very strong signals and an inverted symbol", "codes without redundancy inside the code are listed wrongly, light faults are not corrected",
     FLIGHT % ("RM_m 5 RM_r 3 border_node_mask 11111111111111111 border_node_lsize 4", "1e5", 1))
fbug("C08-one-sided-limit", "rho1", "d0", [("formats/formats.h", "   for (i = 0; i < n; i++) e[i] = -y[i]; \\\n", "   for (i = 0; i < n; i++) e[i] = -((y[i] > MAX_EXP_ARG) ? MAX_EXP_ARG : y[i]); \\\n")],
     "signals with log-likelihoods over 700 and an inverted symbol", "strong ones count less than strong zeroes, light faults are not corrected",
     FLIGHT % ("RM_m 5 RM_r 1", "1e5", 1))
fbug("C08-difference", "rho1", "glp", [("formats/format_rho1.h", "#define EST0_ADD_LNP1_SUB_LNP0(y) (-(y))", "#define EST0_ADD_LNP1_SUB_LNP0(y) RHO1LOGP1(y)")],
     "weak symbols in codes without redundancy inside the code, where the order of the list decides", "the exact format's list decoder misjudges words that differ in weak symbols",
     '''
int main() {
  void *a = mk("RM_m 5 RM_r 3 border_node_mask 11111111111111111 border_node_lsize 8");
  int n = cdc_get_n(a), k = cdc_get_k(a), x[64], z[64], t, i, bad = 0;
  double y[64], e[64], v[64];
  cdc_set_sg(a, 0.75);
  for (t = 0; t < 20000; t++) { // the share of words that are decoded to a word farther away than the sent one
    double d0 = 0, d1 = 0;
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    if (enc_bpsk(a, x, y)) return 3;
    for (i = 0; i < n; i++) e[i] = y[i] + 0.75 * gauss();
    dec_bpsk(a, e, z);
    enc_bpsk(a, z, v);
    for (i = 0; i < n; i++) { d0 += (e[i] - y[i]) * (e[i] - y[i]); d1 += (e[i] - v[i]) * (e[i] - v[i]); }
    bad += d1 > d0 + 1e-9;
  }
  printf("%d of 20000 words decoded to a farther word than the sent one\\n", bad);
  return bad > @LIM@;
}
'''.replace("@LIM@", "8"))
