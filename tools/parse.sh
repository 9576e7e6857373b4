#!/bin/bash
# Parses every module of the specification.
cd "$(dirname "$0")/../spec" && rc=0
for m in *.tla; do
  o=$(tla-sany "$m" 2>&1) || { rc=1; echo "$m"; }
  grep -q "\*\*\* Errors\|Fatal\|Could not parse\|Parse Error" <<< "$o" && { rc=1; echo "$m"; grep -A6 "\*\*\* Errors" <<< "$o"; }
  grep -q "Warnings" <<< "$o" && { echo "warning in $m"; grep -A8 "\*\*\* Warnings" <<< "$o"; }
done
exit $rc
