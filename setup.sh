#!/bin/bash
# Checks that the specification is well-formed and that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for t in java gcc bison flex iconv python3; do
  command -v $t >/dev/null || { echo "missing: $t"; exit 1; }
done
for m in Trace MC; do
  out=$(cd spec && java -cp $CP tla2sany.SANY $m.tla 2>&1) || { echo "$out"; exit 1; }
  if grep -q "rror" <<<"$out"; then echo "$out"; exit 1; fi
done
python3 -m py_compile harness/*.py
echo "setup ok"
