#!/bin/bash
# Runs d.c (the real simulator with a scripted codec) in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "${T:?}"' EXIT
gcc -w -g -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -Dtime=my_time -Dclock=my_clock -I. -I"$D" -o "$T/d" \
  "$D/d.c" simulators/sim_bg.c common/spf_par.c common/ui_txt.c common/srm_utils.c -lm || exit 3
cd "$T" || exit 3
timeout 100 ./d > out.txt
rc=$?
[ $rc -ne 0 ] && echo "demonstration: exit $rc"
exit $rc
