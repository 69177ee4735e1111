#!/bin/bash
# developer helper: run every profile briefly in one or all configurations
cd "$(dirname "$0")"; mkdir -p out
for c in ${CFGS:-full std inl}; do bash ./build.sh $c 2>&1 | head -40; done
for c in ${CFGS:-full std inl}; do for p in ${PROPS:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16}; do
( timeout 100 target/$c/debug/vbsim run --prop C$p --seed ${SEED:-1} --count ${N:-4000} --secs ${SECS:-20} --out out/r-$c-$p.json --replay out/rep-$c-$p.json --progress out/p-$c-$p >out/log-$c-$p 2>&1; e=$?
echo "$c C$p exit $e $(python3 -c "
import json,sys;d=json.load(open(sys.argv[1]));print(d.get('runs'),d.get('wall'),d.get('violation') or d.get('class') or '',d.get('unconfirmed',[])[:2])" out/r-$c-$p.json)"; [ -s out/log-$c-$p ] && head -5 out/log-$c-$p ) &
while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.05; done
done; done; wait
