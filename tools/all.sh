#!/bin/bash
# all.sh [id ...]: run the quick checks (RV_SRC, VERIF_SEED, VERIF_TIER respected), one summary line each
cd /verif
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  t=$(date +%s); out=$(python3 check.py $p 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m3 -E '  case|VIOLATION|undecided:|error' | cut -c1-260 | tr '\n' ' ')"
done
