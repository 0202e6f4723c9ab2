#!/bin/bash
# runall.sh [IDs]: run the checks one after another; one line each
cd "$(dirname "$0")"
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34}; do
  s=$(date +%s); o=$(python3 check.py $p 2>&1); r=$?; e=$(date +%s)
  echo "$p exit $r $((e-s)) s | $(echo "$o" | tail -${TAIL:-1} | cut -c1-400)"
done
