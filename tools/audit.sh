#!/bin/bash
# tools/audit.sh [N]: determinism audit. Log hashes of the first N runs of every property, computed twice:
# alone, and while all cores are busy with other work. Prints "same" or "DIFFERENT" per property.
n=${1:-150}
cd "$(dirname "$0")/.." || exit 2
b=${PESIM_BUILD:-build}
t=$(mktemp -d)
for p in $(seq -f 'C%02g' 1 20); do "$b/pesim" hashes $p $n > "$t/$p.a" 2>/dev/null; done
ps=""
for i in $(seq 16); do (while :; do :; done) & ps="$ps $!"; done
for p in $(seq -f 'C%02g' 1 20); do "$b/pesim" hashes $p $n > "$t/$p.b" 2>/dev/null; done
kill $ps
for p in $(seq -f 'C%02g' 1 20); do
  [ -s "$t/$p.a" ] && cmp -s "$t/$p.a" "$t/$p.b" && echo "$p same ($(wc -l < "$t/$p.a") lines, $(sort -u "$t/$p.a" | wc -l) distinct)" || echo "$p DIFFERENT"
done
rm -r "$t"
