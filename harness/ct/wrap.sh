#!/bin/sh
# rustc wrapper for the guided build: only the library under test is instrumented
rustc=$1
shift
case " $* " in
*" --crate-name ed448_goldilocks "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
