#!/bin/bash
# Compile with calls to pre/src/lib.rs: the library at every branch and memory
# access; the simulator, which holds the instances of the library's generic
# functions, at least at every function.
all=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
level=3
case " $* " in
*" --crate-name value_bag "* | *" --crate-name value_bag_sval2 "* | *" --crate-name value_bag_serde1 "*) ;;
*" --crate-name vbsim "*) [ "$VBSIM_CONFIG" = inl ] || { all=(); level=1; } ;;
*) exec "$@" ;;
esac
exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=$level -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${all[@]}"
