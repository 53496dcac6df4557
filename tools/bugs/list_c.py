# Planted bugs in the codecs.
D0, D1, GM, GI, PM, PI = "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c"
CR, SR, R1, SP, F5 = "common/crc.c", "common/srm_utils.c", "rm1_ml/rm1_ml.c", "common/spf_par.c", "formats/format_eps5.h"
SRCS = {"d0": D0 + " " + SR, "d1": D1 + " rm1_ml/rm1_ml.c " + SR, "glp": "-DDEC_NEEDS_CSNRN " + GM + " " + GI + " " + SR, "polar": PM + " " + PI + " " + CR + " " + SR}
def cdemo(kind, extra="", env=""):
    return '''#!/bin/bash
# Runs d.c (direct use of the codec) in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -O1 -DDEC_NEEDS_SIGMA %s -I. -Ilib -I"$D" -o "$T/d" "$D/d.c" %s common/spf_par.c common/ui_txt.c -lm || exit 3
cd "$T" || exit 3
%s
timeout 100 ./d > out.txt 2>&1
rc=$?
[ $rc -ne 0 ] && { tail -3 out.txt; echo "demonstration: exit $rc"; }
exit $rc
''' % (extra, SRCS[kind], env)
CDH = open(H + "/cd.h").read()
def cbug(id, prop, kind, edits, needs, breaks, main, extra="", env=""):
    bug(id, prop, edits, needs, breaks, demo=cdemo(kind, extra, env), d__c='#include "cd.h"\n' + main, cd__h=CDH)

# ---- C01
cbug("C01-sg-once", "C01", "glp", [(GM, "   dd->sg22 = 2.0 / (noise_sg * noise_sg);", "   if (dd->sg22 == 0.0) dd->sg22 = 2.0 / (noise_sg * noise_sg);")],
     "the noise level of an instance is changed after the first one", "a list decoder goes on with the first noise level it was told", '''
int main() {
  const char *p = "RM_m 5 RM_r 2 border_node_mask 1111111111111 border_node_lsize 4";
  void *a, *b;
  int t, i, k, n, x1[64], x2[64];
  double y[64], sg[2] = {0.5, 3.0};
  g_sg = 0;
  a = mk(p);
  k = cdc_get_k(a); n = cdc_get_n(a);
  for (t = 0; t < 3000; t++) {
    double s = sg[t & 1];
    for (i = 0; i < n; i++) y[i] = -1 + 1.2 * gauss();
    cdc_set_sg(a, s);
    dec_bpsk(a, y, x1);
    b = mk(p);
    cdc_set_sg(b, s);
    dec_bpsk(b, y, x2);
    cdc_close(b);
    if (memcmp(x1, x2, k * sizeof(int))) FAIL("word %d decoded differently by a new instance", t);
  }
  return 0;
}
''')
cbug("C01-first-list-kept", "C01", "glp", [(GM, "         dd->dc.peak_lsiz = dd->lsiz[i];", "         if (i > 0) dd->dc.peak_lsiz = dd->lsiz[i];"), (GM, "            dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];", "            dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->dc.peak_lsiz;")],
     "variable list sizes, a word after one that needed a longer list than its own first one", "the first list size of a word is the one the word before ended with", '''
int main() {
  const char *p = "RM_m 5 RM_r 2 border_node_mask 1111111111111 border_node_lsize 16 use_variable_list on distance_threshold { 1 40 2 45 16 100 }";
  void *a = mk(p), *b;
  int t, i, k = cdc_get_k(a), n = cdc_get_n(a), x1[64], x2[64];
  double y[64];
  b = mk(p);
  for (t = 0; t < 3000; t++) {
    for (i = 0; i < n; i++) y[i] = -1 + 1.0 * gauss();
    dec_bpsk(a, y, x1);
    cdc_close(b);
    b = mk(p);
    for (i = 0; i < n; i++) y[i] = y[i];
    dec_bpsk(b, y, x2);
    if (t > 0 && memcmp(x1, x2, k * sizeof(int))) FAIL("word %d decoded differently by a new instance", t);
  }
  return 0;
}
''')
cbug("C01-scaled-in-place", "C01", "d1", [(D1, "   for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;", "   for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] *= dd->sg22;")],
     "the received vector is used again after decoding", "the decoder overwrites the received vector with its scaled values", '''
int main() {
  void *a = mk("RM_m 4 RM_r 2");
  double y[16], z[16];
  int x[16], i;
  for (i = 0; i < 16; i++) z[i] = y[i] = gauss();
  cdc_set_sg(a, 0.8);
  dec_bpsk(a, y, x);
  if (memcmp(y, z, sizeof(y))) FAIL("the received vector was changed");
  return 0;
}
''')
cbug("C01-big-code-buffers", "C01", "glp", [(GI, "  for (i = 0; i < 32; i++) YLIST_RESET(i);", "  for (i = 0; i < 7; i++) YLIST_RESET(i);")],
     "codes of length 256 or more, words after the first few", "buffers of a long code are not given back after a word: the following words overrun the memory", '''
int main() {
  char p[600];
  void *a, *c;
  int t, i, n, k, x[512], xd[512];
  double y[512];
  strcpy(p, "RM_m 8 RM_r 2 border_node_mask ");
  for (i = 0; i < 40; i++) strcat(p, "1");
  strcat(p, " border_node_lsize 2");
  a = mk(p);
  n = cdc_get_n(a); k = cdc_get_k(a);
  for (t = 0; t < 200; t++) {
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    enc_bpsk(a, x, y);
    for (i = 0; i < n; i++) y[i] += 0.2 * gauss();
    dec_bpsk(a, y, xd);
    if (memcmp(x, xd, k * sizeof(int))) FAIL("word %d not decoded", t);
  }
  cdc_close(a);
  return 0;
}
''', "-fsanitize=address")
cbug("C01-masked-leaf", "C01", "glp", [(SR, '''   if (r == m) {
      if (node_table[enc_utils_ntp++] == 0) {
         for (i = 0; i < n; i++) y[i] = 0;''', '''   if (r == m) {
      if (node_table[enc_utils_ntp++] == 0) {
         for (i = 0; i < m; i++) y[i] = 0;''')],
     "a mask that freezes a full-space leaf of more than two symbols", "encoding of a subcode leaves part of the codeword undefined", '''
int main() {
  void *a;
  double y[64];
  int x[64], i, t, n, k;
  for (t = 0; t < 100; t++) {
    int *junk = (int *)malloc(64 * sizeof(int));
    for (i = 0; i < 64; i++) junk[i] = 0x01010101;
    a = mk("RM_m 5 RM_r 4 border_node_mask 00001 border_node_lsize 1");
    free(junk);
    n = cdc_get_n(a); k = cdc_get_k(a);
    for (i = 0; i < 64; i++) x[i] = 0;
    enc_bpsk(a, x, y);
    for (i = 0; i < n; i++) if (y[i] != -1) FAIL("symbol %d of the zero codeword is %g", i, y[i]);
    cdc_close(a);
  }
  return 0;
}
''', env="export MALLOC_PERTURB_=90")
# ---- C02
cbug("C02-inverse-permutation", "C02", "glp", [(GM, "         for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];\n         for (j = 0; j < c_k", "         for (j = 0; j < c_m; j++) i1 |= ((i2 >> p1[j]) & 1) << j;\n         for (j = 0; j < c_k")],
     "a permutation that is not its own inverse and wins the decoding", "the information symbols come out permuted", '''
int main() {
  void *a = mk("RM_m 5 RM_r 2 border_node_mask 1111111111111 border_node_lsize 2 permutations { 1 2 3 4 0 }");
  int t, i, k = cdc_get_k(a), x[64], xd[64];
  double y[64];
  for (t = 0; t < 100; t++) {
    for (i = 0; i < k; i++) x[i] = u01() < 0.5;
    enc_bpsk(a, x, y);
    dec_bpsk(a, y, xd);
    if (memcmp(x, xd, k * sizeof(int))) FAIL("undisturbed word %d not decoded", t);
  }
  return 0;
}
''')
cbug("C02-clip-negative", "C02", "d0", [(F5, "   if ((e) < -CLIP_T) (e) = -CLIP_T; \\", "   if ((e) < -1.0) (e) = -CLIP_T; \\")],
     "an inverted symbol among very strong ones", "strong symbols become infinite log-likelihoods and then NaN", '''
int main() {
  void *a = mk("RM_m 4 RM_r 2");
  int t, i, x[16], xd[16];
  double y[16];
  for (t = 0; t < 2000; t++) {
    for (i = 0; i < 11; i++) x[i] = u01() < 0.5;
    enc_bpsk(a, x, y);
    for (i = 0; i < 16; i++) y[i] *= 300;
    y[t % 16] = -y[t % 16];
    dec_bpsk(a, y, xd);
    if (memcmp(x, xd, 11 * sizeof(int))) FAIL("word %d with one inverted symbol not decoded", t);
  }
  return 0;
}
''')
# ---- C03
CRCP = "c_m 5 info_bits_mask 00000001000101110001011101111111 list_size 4 ca_polar_crc 1011"
HASHM = '''
/* the decisions of the unchanged decoder */
static int hashtest(const char *p, int words, double a0) {
  void *a = mk(p);
  int t, i, k = cdc_get_k(a), n = cdc_get_n(a), xd[256];
  unsigned long long h = 1469598103934665603ull;
  double y[256];
  for (t = 0; t < words; t++) {
    for (i = 0; i < n; i++) y[i] = a0 * gauss();
    h = (h ^ (unsigned)dec_bpsk(a, y, xd)) * 1099511628211ull;
    for (i = 0; i < k; i++) h = (h ^ (unsigned)xd[i]) * 1099511628211ull;
  }
  printf("%016llx\\n", h);
  return h != @HASH@;
}
'''
cbug("C03-single", "C03", "polar", [(PM, "  if (crc_len <= 0) {", "  if ((crc_len <= 0) || (lsiz <= 1)) {")],
     "list size 1 with a CRC", "the single candidate is accepted without looking at its CRC", HASHM + '''
int main() { return hashtest("c_m 5 info_bits_mask 00000001000101110001011101111111 list_size 1 ca_polar_crc 1011", 3000, 0.8); }
''')
cbug("C03-last-candidate", "C03", "polar", [(PM, "    for (i = 0; i < lsiz; i++) {", "    for (i = 0; i + 1 < lsiz || i == 0; i++) {")],
     "only the least likely word of the list has a right CRC", "the last word of the list is never tried", HASHM + '''
int main() { return hashtest("%s", 3000, 0.8); }
''' % CRCP)
cbug("C03-erasure-word", "C03", "polar", [(PM, '''        is_erasure = 1;
        best_ind = 0;
      }
      memcpy(''', '''        is_erasure = 1;
        best_ind = 0;
      }
      if (!is_erasure) memcpy(''')],
     "an erasure", "with an erasure no word is returned at all", '''
int main() {
  void *a = mk("%s");
  int t, i, k = cdc_get_k(a), n = cdc_get_n(a), xd[64];
  double y[64];
  for (t = 0; t < 2000; t++) {
    for (i = 0; i < n; i++) y[i] = gauss();
    for (i = 0; i < k; i++) xd[i] = 77;
    if (dec_bpsk(a, y, xd) == 1) for (i = 0; i < k; i++) if (xd[i] == 77) FAIL("erasure without a word");
  }
  return 0;
}
''' % CRCP)
cbug("C03-sort-half", "C03", "polar", [(PI, "    qsort(lorder, cur_lsiz, sizeof(int), lst_comp);", "    qsort(lorder, MIN(cur_lsiz, 8), sizeof(int), lst_comp);"), (PI, "#define NEAR_ZERO (1e-300)", "#define NEAR_ZERO (1e-300)\n#ifndef MIN\n#define MIN(a, b) (((a) < (b)) ? (a) : (b))\n#endif")],
     "lists of more than 8 words", "the word chosen is not the most likely one with a right CRC", '''
int main() {
  /* complete list: the decision has to be the most likely word */
  const char *p = "c_m 4 info_bits_mask 0000000100010111 list_size 32 ca_polar_crc 1";
  void *a = mk(p);
  int t, i, k = cdc_get_k(a), n = cdc_get_n(a), x[64], xd[64], w, v;
  double y[64], c[64], best, d, dd;
  for (t = 0; t < 3000; t++) {
    for (i = 0; i < n; i++) y[i] = 0.5 * gauss();
    if (dec_bpsk(a, y, xd)) FAIL("erasure");
    best = -1e9; dd = 0;
    for (w = 0; w < (1 << k); w++) {
      for (i = 0; i < k; i++) x[i] = (w >> i) & 1;
      enc_bpsk(a, x, c);
      for (d = 0, i = 0; i < n; i++) d += c[i] * y[i];
      if (d > best) best = d;
      if (!memcmp(x, xd, k * sizeof(int))) dd = d;
    }
    if (dd < best - 1e-3) FAIL("word %d: correlation %g instead of %g", t, dd, best);
  }
  return 0;
}
''')
# ---- C04
GREF = '''
/* complete lists: the decision has to be the most likely word */
static int mltest(const char *p, int words, double a0) {
  void *a = mk(p);
  int t, i, k = cdc_get_k(a), n = cdc_get_n(a), x[64], xd[64], w;
  double y[64], c[64], best, d, dd;
  for (t = 0; t < words; t++) {
    for (i = 0; i < n; i++) y[i] = a0 * gauss();
    dec_bpsk(a, y, xd);
    best = -1e9; dd = 0;
    for (w = 0; w < (1 << k); w++) {
      for (i = 0; i < k; i++) x[i] = (w >> i) & 1;
      enc_bpsk(a, x, c);
      for (d = 0, i = 0; i < n; i++) d += c[i] * y[i];
      if (d > best) best = d;
      if (!memcmp(x, xd, k * sizeof(int))) dd = d;
    }
    if (dd < best - 1e-3) FAIL("word %d: correlation %g instead of %g", t, dd, best);
  }
  return 0;
}
'''
cbug("C04-permutation-lost", "C04", "glp", [(GI, "    p1 = dd->pyarr + c_n * plist[cur_ind0];", "    p1 = dd->pyarr + c_n * plist[i];")],
     "permutations and a list that is not in the order of its cells", "a list entry is taken for one of another permutation", HASHM + '''
int main() { return hashtest("RM_m 5 RM_r 2 border_node_mask 1111111111111 border_node_lsize 8 permutations { 4 3 2 1 0 1 2 3 4 0 2 0 1 4 3 }", 3000, 0.8); }
''')
cbug("C04-third-lost", "C04", "glp", [(GI, '''        y1 = INV_EST(y1);
        if (STRONGER_EST0(ym, y1)) {
          ym3 = ym2; i3 = i2;
          ym2 = ym; i2 = i1;''', '''        y1 = INV_EST(y1);
        if (STRONGER_EST0(ym, y1)) {
          ym2 = ym; i2 = i1;''')],
     "a full-space leaf whose weakest symbol is a one found after two weak zeros, where the third weakest is the best single change", "a candidate with the wrong symbol changed takes the place of a more likely one", HASHM + '''
int main() { return hashtest("RM_m 5 RM_r 4 border_node_mask 11111 border_node_lsize 16", 200000, 0.4); }
''')
cbug("C04-best-last", "C04", "glp", [(GI, "  for (i = 1; i < cur_lsiz; i++) {\n    if (slist[lorder[i]] > slist[lorder[i1]]) {", "  for (i = 1; i < cur_lsiz - 1; i++) {\n    if (slist[lorder[i]] > slist[lorder[i1]]) {")],
     "the most likely word is the last of the final list", "a less likely word is returned", GREF + '''
int main() { return mltest("RM_m 4 RM_r 2 border_node_mask 0011001 border_node_lsize 64", 3000, 0.7); }
''')
cbug("C04-fourth-candidate", "C04", "glp", [(GI, "    if (s1 + s2 > s3) {", "    if (s1 + s2 < s3) {")],
     "a full-space leaf where the choice of the fourth candidate matters", "the less likely of two candidates is put on the list", HASHM + '''
int main() { return hashtest("RM_m 5 RM_r 3 border_node_mask 1111111111 border_node_lsize 64", 50000, 0.5); }
''')
# ---- C05
cbug("C05-skip-penalty", "C05", "polar", [(PI, "    slist[cur_ind0] += EST_TO_LNP0(yp[0]);", "    if (!CHECK_EST0(yp[0])) slist[cur_ind0] += EST_TO_LNP0(yp[0]);")],
     "frozen positions that agree with the path, lists of more than one path", "path likelihoods lack the share of agreeing frozen symbols: the wrong paths survive", GREF + '''
int main() { return mltest("c_m 3 info_bits_mask 01110110 list_size 32", 5000, 0.7); }
''')
cbug("C05-lorder", "C05", "polar", [(PI, "      if (slist[lorder[i]] > slist[lorder[i1]]) {", "      if (slist[lorder[i]] > slist[i1]) {")],
     "no CRC, a list whose order is not that of its cells", "a word that is not the most likely one is returned", HASHM + '''
int main() { return hashtest("c_m 4 info_bits_mask 0001011001101001 list_size 8", 3000, 0.7); }
''')
cbug("C05-early-list", "C05", "polar", [(PM, "dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;", "dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : ((i < 16) && (dd->dc.peak_lsiz > (1 << i))) ? (1 << i) : dd->dc.peak_lsiz;")],
     "information symbols at the very first positions", "the list is cut too short where it starts to grow", HASHM + '''
int main() { return hashtest("c_m 4 info_bits_mask 1001011001101001 list_size 8", 3000, 0.7); }
''')
# ---- C06
cbug("C06-last-word", "C06", "d1", [(R1, '''   s2 = slist[0] + EST_TO_LNP0(yp1[0]);
   j = 0;
   for (i = 0; i < c_n; i++) {
      s1 = slist[i] + EST_TO_LNP0(yp1[i]);
      ADD_OPS(0, 2);''', '''   s2 = slist[0] + EST_TO_LNP0(yp1[0]);
   j = 0;
   for (i = 0; i < c_n - 1; i++) {
      s1 = slist[i] + EST_TO_LNP0(yp1[i]);
      ADD_OPS(0, 2);''')],
     "the first-order word is one of the last two", "two words of the first-order code are never found", '''
int main() {
  void *a = mk("RM_m 4 RM_r 1");
  int w, i, x[5], xd[5];
  double y[16];
  for (w = 0; w < 32; w++) {
    for (i = 0; i < 5; i++) x[i] = (w >> i) & 1;
    enc_bpsk(a, x, y);
    dec_bpsk(a, y, xd);
    if (memcmp(x, xd, sizeof(x))) FAIL("word %d not decoded", w);
  }
  return 0;
}
''')
cbug("C06-hard-repetition", "C06", "d0", [(D0, "         p1 += EST2LLR(y_in[i]);", "         p1 += y_in[i];")],
     "a repetition code with strong and weak symbols", "repetition codes are decided by the sum of the bounded estimates instead of the likelihoods", '''
int main() {
  /* two strong symbols against six weak ones */
  void *a = mk("RM_m 3 RM_r 1");
  double y[8];
  int t, i, x[8], xd[8], bad = 0;
  /* the first symbol of the information word of RM(1,3) is decided by a (0,2) code over products;
     compare with the likelihoods of those products */
  for (t = 0; t < 20000; t++) {
    double l = 0;
    for (i = 0; i < 8; i++) y[i] = gauss() * 1.5;
    dec_bpsk(a, y, xd);
    for (i = 0; i < 4; i++) l += 2 * atanh(tanh(y[i]) * tanh(y[i + 4]));
    /* channel output positive means 1 */
    if (fabs(l) > 0.01 && xd[0] != (l <= 0)) bad++;
  }
  printf("%d\\n", bad);
  return bad > 0;
}
''')
cbug("C06-y-dec", "C06", "d1", [(D1, '''         else {
            tmp[i] = 1;
            y_dec[i] = -1.0;''', '''         else {
            tmp[i] = 1;
            y_dec[i] = (n > 4) ? y_in[i] : -1.0;''')],
     "codes with a full-space leaf of more than four symbols that is not the last", "the decided symbols of a leaf are handed on undecided", HASHM + '''
int main() { return hashtest("RM_m 6 RM_r 4", 3000, 0.8); }
''')
# ---- C07
ALLOC = '''
static long m_n, m_fail = -1, m_live;
#undef malloc
#undef calloc
#undef free
void *my_malloc(size_t n) { void *p; if (m_n++ == m_fail) return NULL; p = malloc(n); if (p) m_live++; return p; }
void *my_calloc(size_t a, size_t n) { void *p; if (m_n++ == m_fail) return NULL; p = calloc(a, n); if (p) m_live++; return p; }
void my_free(void *p) { if (p) m_live--; free(p); }
'''
def abug(id, kind, edits, needs, breaks, main):
    bug(id, "C07", edits, needs, breaks, demo='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -c -I. -I"$D" -o "$T/m.o" "$D/d.c" || exit 3
gcc -w -g -DDEC_NEEDS_SIGMA -Dmalloc=my_malloc -Dcalloc=my_calloc -Dfree=my_free -I. -Ilib -o "$T/d" "$T/m.o" %s common/spf_par.c common/ui_txt.c -lm || exit 3
cd "$T" || exit 3
timeout 100 ./d > out.txt 2>&1
rc=$?
[ $rc -ne 0 ] && { tail -3 out.txt; echo "demonstration: exit $rc"; }
exit $rc
''' % SRCS[kind], d__c='#include "cd.h"\n' + ALLOC + main, cd__h=CDH)
abug("C07-first-order", "d1", [(D1, "      if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;", "      rm1_dec_sh_finp(m, y_in, x_dec);")],
     "memory runs out in a first-order leaf", "a word decoded without enough memory is returned as decoded", '''
int main() {
  void *a = mk("RM_m 4 RM_r 2");
  double y[16]; int x[16], i, rc;
  long f;
  for (i = 0; i < 16; i++) y[i] = 1;
  for (f = 1; f < 4; f++) {
    m_fail = m_n + f;
    rc = dec_bpsk(a, y, x);
    if (m_n > m_fail && rc == 0) FAIL("allocation %ld failed and the word is returned as decoded", f);
    m_fail = -1;
  }
  return 0;
}
''')
abug("C07-erasure", "polar", [(PM, "    if (tmp == NULL) {\n", "    if ((tmp == NULL) && (lsiz > 1)) {\n")],
     "list size 1 and no memory for the CRC check", "the decoder crashes when memory is short", '''
int main() {
  void *a = mk("c_m 4 info_bits_mask 0001011101111111 list_size 1 ca_polar_crc 101");
  double y[16]; int x[16], i, rc;
  long f;
  for (i = 0; i < 16; i++) y[i] = 1;
  for (f = 0; f < 3; f++) {
    m_fail = m_n + f;
    rc = dec_bpsk(a, y, x);
    if (m_n > m_fail && rc != -1) FAIL("allocation %ld failed: %d", f, rc);
    m_fail = -1;
  }
  return 0;
}
''')
abug("C07-init-leak", "polar", [(PM, "      if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);\n      if (dd->dc.node_table != NULL) free(dd->dc.node_table);\n      free(dd);\n      (*cdc) = NULL;", "      if (dd->dc.node_table != NULL) free(dd->dc.node_table);\n      free(dd);\n      (*cdc) = NULL;")],
     "the last allocation of an initialisation fails", "a failed initialisation leaks memory", '''
int main() {
  char s[200];
  void *c;
  long f, l;
  int rc;
  for (f = 0; f < 10; f++) {
    int i;
    strcpy(s, "c_m 4 info_bits_mask 0001011101111111 list_size 1 ca_polar_crc 101");
    for (i = 0; s[i]; i++) if (s[i] == ' ') s[i] = 1;
    l = m_live;
    m_n = 0; m_fail = f;
    rc = cdc_init(s, &c);
    m_fail = -1;
    if (rc) { if (m_live != l) FAIL("%ld blocks left by a failed initialisation", m_live - l); }
    else cdc_close(c);
  }
  return 0;
}
''')
