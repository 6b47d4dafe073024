#!/bin/sh
# RUSTC_WRAPPER: poreader and the crate that instantiates its generics are compiled with LLVM's tsan pass, which
# (without the sanitizer itself) replaces exactly the atomic operations by calls. posim_hook implements them.
# With POSIM_STEPS (a build of its own) they, and the crates below, also call a counter at every edge of the control flow.
if [ -n "$POSIM_STEPS" ]; then
    cov="-C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-prune-blocks=0"
    case " $* " in
    *" --crate-name poreader "* | *" --crate-name posim "*)
        exec "$@" -C passes="sancov-module function(tsan)" $cov -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
    *" --crate-name regex "* | *" --crate-name regex_automata "* | *" --crate-name aho_corasick "* | \
    *" --crate-name lalrpop_util "* | *" --crate-name memchr "*)
        # (what they are for the build scripts is compiled without optimisation, and without counters)
        case " $* " in *" opt-level=3 "*) exec "$@" -C passes=sancov-module $cov -C llvm-args=-sanitizer-coverage-trace-pc ;; esac ;;
    esac
fi
case " $* " in
*" --crate-name poreader "* | *" --crate-name posim "*) exec "$@" -C passes=tsan ;;
*) exec "$@" ;;
esac
