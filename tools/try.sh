#!/bin/bash
# development aid: run the entries of a property in parallel and print one compact block each:  tools/try.sh C19 [entry...]
cd "$(dirname "$0")/.." || exit 1
P=$1; shift; ES="$*"; [ -z "$ES" ] && ES=$(grep -h '^//! entry:' harness/$P.cpp harness/${P}_*.cpp 2>/dev/null | grep -v tier=thorough | awk '{print $3}')
D=$(mktemp -d)
for e in $ES; do ( S=$(date +%s); ./check.py $P ${TIER:-quick} $e > $D/$e 2>&1; echo "$(( $(date +%s) - S ))" > $D/$e.t ) & done; wait
for e in $ES; do
  if grep -q "does not compile" $D/$e; then [ -z "$ONCE" ] && clang++-18 -std=c++20 -fsyntax-only -w -I${HUIRA_REPO:-/repo}/include -Iharness -Iharness/stubs harness/${P}*.cpp 2>&1 | grep error | cut -c1-200 | head -5; ONCE=1; continue; fi
  echo "== $e ($(cat $D/$e.t)s) $(grep -E '^ok|^VIOL|real paths|fp paths' $D/$e | cut -c1-170 | tr '\n' ' ')"
  grep -E "'violated': [1-9]|'undecided': [1-9]" $D/$e | cut -c1-160; grep -E 'UNCONF|UNSUP|unsupp|native:|NOTE' $D/$e | cut -c1-260 | head -4
done
rm -rf "$D"
