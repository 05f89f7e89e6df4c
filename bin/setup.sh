#!/bin/bash
# Checks that the toolchain is there and that every specification module parses.
cd "$(dirname "$0")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -version >/dev/null 2>&1 || exit 1
cd spec || exit 1
T=$(mktemp -d)
for m in *.tla; do
  java -Djava.io.tmpdir="$T" -cp $CP tla2sany.SANY "$m" > "$T/out" 2>&1 || { cat "$T/out"; exit 1; }
  if grep -q -e '\*\*\* Errors' -e 'Fatal' "$T/out"; then cat "$T/out"; exit 1; fi
done
rm -rf "$T"
PYTHONPATH=/repo MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c 'import pymnet' || exit 1
echo setup ok
