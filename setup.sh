#!/bin/bash
# Build the three configurations of the simulator.
here="$(cd "$(dirname "$0")" && pwd)"
for c in full std inl; do bash "$here/sim/build.sh" $c & p="$p $!"; done
for x in $p; do wait $x || exit 1; done
