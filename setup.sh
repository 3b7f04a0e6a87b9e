#!/bin/bash
# Everything is interpreted: setup only parses every specification once, so that a broken toolchain shows up early.
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
  out=$(java -cp "$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')" tla2sany.SANY "$m" 2>&1) || { echo "$out" | tail -5; exit 1; }
  case "$out" in *"Semantic errors"*|*"Parse Error"*|*"Fatal errors"*) echo "$m"; echo "$out" | tail -5; exit 1;; esac
done
mkdir -p ../evidence
echo "specifications parse"
