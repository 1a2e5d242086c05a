#!/bin/sh
# Instruments the code under test and the harness (its generics are compiled there), nothing else.
rustc="$1"; shift
case " $* " in
*" --crate-name dlhn "*|*" --crate-name dlhn_verif "*|*" --crate-name dlhn_fuzz "*)
  case " $* " in *" --crate-name dlhn_fuzz "*) set -- "$@" "-Clink-arg=$FUZZ_RUNTIME" -Clink-arg=-lstdc++ ;; esac
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
    -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$rustc" "$@" ;;
esac
