#!/bin/bash
# Builds the tool under test once and checks that the specifications parse.
cd "$(dirname "$0")/.." || exit 1
python3 -B -c "
import sys; sys.path.insert(0,'lib')
import tool; tool.build()" || exit 1
cd spec || exit 1
CP=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for m in *.tla; do
  out=$(java -cp "$CP" tla2sany.SANY "$m" 2>&1) || { echo "$out"; exit 1; }
done
echo ok
