# S11: the delivered simulations.
def wdemo(src, flags, body):
    return '''#!/bin/bash
# Runs a program on the files in work/ in a scratch directory.
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -O2 -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA %s -I. -Ilib -o "$T/p" %s simulators/sim_bg.c simulators/main_txt.c \\
  common/spf_par.c common/ui_txt.c common/srm_utils.c -lm || exit 3
cp -r work "$T/work" && cd "$T/work" && mkdir -p results || exit 3
%s
''' % (flags, src, body)
WG = ("dtrm_glp/dtrm_glp_main.c dtrm_glp/dtrm_glp_inner.c", "-DDEC_NEEDS_CSNRN")
WP = ("polar_scl/ca_polar_scl_main.c polar_scl/polar_scl_inner.c common/crc.c", "")
WC = '''%s
timeout 100 ../p %s > out.txt 2>&1
grep -q "Simulation is over" out.txt || { tail -c 300 out.txt; exit 1; }
grep -q '^code_k %d' %s'''
bug("S11-mask-256", "S11", [("polar_scl/ca_polar_scl_main.c", "         dd->dc.node_table_len = strlen(token);", "         dd->dc.node_table_len = (uint8)strlen(token);")],
    "the delivered polar code, whose mask is 256 long", "bg_polar08_ca8_CF_k128_L8.spf is refused",
    demo=wdemo(*WP, WC % ('''sed -i '/SNR_val_trn/,/}/d;/EbNo_values/,/}/d' bg_polar08_ca8_CF_k128_L8.spf
printf '\\nSNR_val_trn { -8 2 }\\n' >> bg_polar08_ca8_CF_k128_L8.spf''', "bg_polar08_ca8_CF_k128_L8.spf", 128, "results/*.srf")))
bug("S11-name-room", "S11", [("simulators/sim_bg.c", "#define FN_LEN_MAX         1000", "#define FN_LEN_MAX         40")],
    "delivered simulations with long results file names", "bg_rm0308_trFFD806_dtrm_glp_L32.spf and others are refused",
    demo=wdemo(*WG, WC % ('''sed -i '/SNR_val_trn/,/}/d' bg_rm0308_trFFD806_dtrm_glp_L32.spf
printf '\\nSNR_val_trn { -8 2 }\\n' >> bg_rm0308_trFFD806_dtrm_glp_L32.spf''', "bg_rm0308_trFFD806_dtrm_glp_L32.spf", 78, "results/*.srf")))
