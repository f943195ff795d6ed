#!/bin/sh
# RUSTC_WRAPPER: compiles the library under test (and the code its derive generates) with
# SanitizerCoverage; everything else as usual.
rustc="$1"
shift
case " $* " in
*" --crate-name cbored "* | *" --crate-name derivelab "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
*) exec "$rustc" "$@" ;;
esac
