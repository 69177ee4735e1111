#!/bin/bash
# Same seed, same execution: compare trace hashes across processes and strides.
# N runs (default 300) of every property in every configuration.
here="$(cd "$(dirname "$0")/../sim" && pwd)"
n=${N:-300}; bad=0
for c in full std inl; do
  b="$here/target/$c/debug/vbsim"
  for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16; do
    x=$("$b" digest --prop C$p --count $n | sort -n | sha256sum)
    y=$("$b" digest --prop C$p --count $n | sort -n | sha256sum)
    z=$({ "$b" digest --prop C$p --start 1 --stride 2 --count $((n / 2)); "$b" digest --prop C$p --start 0 --stride 2 --count $(((n + 1) / 2)); } | sort -n | sha256sum)
    if [ "$x" != "$y" ] || [ "$x" != "$z" ]; then echo "C$p $c: executions differ"; bad=1; fi
  done
done
[ $bad = 0 ] && echo "all executions repeat exactly"
exit $bad
