#!/bin/bash
# Runs every harness (or the given ones) with TIER (default quick); one line per property.
cd "$(dirname "$0")/.."
ids="$@"; [ -n "$ids" ] || ids=$(ls harness/*.cpp | xargs -n1 basename | sed 's/.cpp//')
for i in $ids; do s=$(date +%s); timeout ${LIMIT:-880} ./check $i ${TIER:-quick} > /tmp/allq.$i.out 2>&1; rc=$?; echo "$i rc=$rc $(( $(date +%s)-s ))s $(grep -E 'VIOLATION|KNOWN' /tmp/allq.$i.out | head -2 | tr '\n' ' ')"; done
