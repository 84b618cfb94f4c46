#!/bin/bash
# dev.sh PROP [tier] [seed]: generate, replay, validate; summary of violated clauses
cd "$(dirname "$0")/.."; P=$1; T=${2:-quick}; export VERIF_SEED=${3:-1}
w=work/dev-$P-$VERIF_SEED; mkdir -p $w
export GLM_PROP=$P GLM_TIER=$T GLM_OUT=$PWD/$w/sc.ndjson GLM_TRACE=$PWD/$w/tr.ndjson OPENBLAS_NUM_THREADS=1
t0=$(date +%s.%N)
tools/tlc.sh Gen Gen.cfg > $w/gen.log 2>&1 || { tail -30 $w/gen.log; exit 2; }
t1=$(date +%s.%N)
harness/target/debug/glm-harness $GLM_OUT $GLM_TRACE > $w/h.log 2>&1 || { tail -5 $w/h.log; exit 2; }
t2=$(date +%s.%N)
tools/tlc.sh Trace Trace.cfg -workers 8 > $w/tr.log 2>&1
t3=$(date +%s.%N)
printf 'gen %.1f run %.1f check %.1f  sessions %s  size %s\n' $(echo "$t1-$t0;$t2-$t1;$t3-$t2"|bc) $(wc -l < $GLM_OUT) $(du -h $GLM_TRACE|cut -f1)
grep -E "states generated|Error|error|line [0-9]+, col" $w/tr.log | head -${LINES_MAX:-8}
grep -o 'BAD [^"]*' $w/tr.log | awk '{print $4}' | sort | uniq -c | sort -rn | head -40
