#!/bin/bash
# tools/cases.sh ID [TIER]: runs every case of a harness on its own, with times
cd "$(dirname "$0")/.."
s=1; for c in $(grep -oE 'SX_CASE\((\w+)\)' harness/$1.cpp | sed 's/SX_CASE(//;s/)//'); do
  case $c in T_*) [ "${2:-quick}" = thorough ] || continue;; esac
  s=$(date +%s); timeout ${LIMIT:-300} ./check $1 ${2:-quick} --case $c > /tmp/case.$1.$c.out 2>&1; rc=$?; echo "$c rc=$rc $(( $(date +%s)-s ))s $(grep -E 'error:|VIOLATION|FAILED|UNCONF|INCOMPLETE|cover|assert' /tmp/case.$1.$c.out | head -3 | cut -c1-250 | tr '\n' '|')"
  grep -q "errors\? generated" /tmp/case.$1.$c.out && { grep error: /tmp/case.$1.$c.out | head -12; break; }
done
