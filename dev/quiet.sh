#!/bin/bash
# quiet.sh [KIND...] -- CHECK...: the checks must stay quiet on rewritten sources
cd "$(dirname "$0")/.."
kinds=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do kinds+=("$1"); shift; done; shift
[ ${#kinds[@]} = 0 ] && kinds=($(python3 -c "import sys; sys.path.insert(0,'dev'); import refactor; print(*refactor.KINDS)"))
checks=("$@"); [ ${#checks[@]} = 0 ] && checks=($(ls rules | grep -E '^[a-z][0-9]+\.py$' | sed 's/.py//' | tr a-z A-Z))
for c in "${checks[@]}"; do VERIF_EV=/tmp/quiet_ev_base python3 check.py $c >/tmp/quiet_base.txt 2>&1 || { echo "BASE $c fails"; cut -c1-400 /tmp/quiet_base.txt; exit 1; }; done
one() { k=$1; shift; D=/tmp/quiet_$k; rm -rf "$D"; python3 dev/refactor.py /repo/src "$D" "$k" || { echo "$k: REWRITE FAILED"; return; }
 for c in "$@"; do o=$(VERIF_EV=/tmp/quiet_ev_$k VERIF_SRC=$D timeout 900 python3 check.py $c 2>&1); r=$?; [ $r = 0 ] || { echo "== $k $c rc=$r"; echo "$o" | grep -v ^VIOLATION | cut -c1-${W:-260} | head -${N:-3}; }; done; rm -rf "$D"; }
export -f one
printf '%s\n' "${kinds[@]}" | xargs -P 8 -I{} bash -c "one {} ${checks[*]}"
