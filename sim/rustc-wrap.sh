#!/bin/sh
# RUSTC_WRAPPER: compiles the crate under test (and the shim that instantiates
# its generic entry points) with one callback per control-flow edge and one per
# atomic operation and memory access. The simulator uses the former as
# preemption points and as its step clock, the latter to preempt right at
# accesses to state that threads can share. (RUSTC_BOOTSTRAP lets the stable
# compiler take -Zsanitizer; no sanitizer runtime is linked, the simulator
# defines the callbacks.)
case " $* " in
  *" --crate-name dockerfile_parser "*|*" --crate-name dst_calls "*)
    RUSTC_BOOTSTRAP=1 exec "$@" -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -Z sanitizer=thread -C unsafe-allow-abi-mismatch=sanitizer \
      -C llvm-args=-tsan-instrument-func-entry-exit=0 ;;
  *" --crate-name dst "*)
    RUSTC_BOOTSTRAP=1 exec "$@" -C unsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$@"
