#!/bin/bash
# Rebuilds data/*.json.gz and data/icu from the tools installed in the sandbox.
set -e
cd "$(dirname "$0")"
W=$(mktemp -d)
gcc -O1 -w -o "$W/icu" icu.c -licuuc && "$W/icu" > "$W/icu.txt"
J=$(dirname "$(dirname "$(readlink -f "$(which java)")")")
jimage extract --dir "$W/jx" --include "glob:**icudt67b**" "$J/lib/modules"
javac -d "$W" Dump.java && java --add-opens java.base/java.util.regex=ALL-UNNAMED -cp "$W" Dump > "$W/java.txt"
python3 build.py "$W" | tee "$W/build.log"
cp "$W/build.log" ../../data/build.log
rm -r "$W"
