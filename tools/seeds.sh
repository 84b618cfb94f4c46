#!/bin/bash
# seeds.sh "PROPS" "SEEDS": quick tier over several seeds; prints only what is wrong
cd "$(dirname "$0")/.."
tools/rebuild.sh >/dev/null 2>&1
for p in $1; do for s in $2; do tools/dev.sh $p quick $s > work/o 2>&1
 if ! grep -q "No error" work/dev-$p-$s/tr.log; then echo "$p $s FAILED"; grep -v "^Parsing\|^Semantic" work/dev-$p-$s/tr.log | grep -A6 "rror" | head -12; exit 1; fi
 grep -o 'BAD [^"]*' work/dev-$p-$s/tr.log | sort | uniq -c | sed "s/^/$p $s/" | head -8; done; done; echo done "$1"
