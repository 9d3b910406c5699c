#!/bin/sh
# RUSTC_WRAPPER of the instrumented build: a step at every basic block of
# everything but the step clock itself (and nothing in build scripts and macros)
case " $* " in
*" --crate-name simclock "*|*" --crate-name build_script_build "*) exec "$@" ;;
*" --target "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
