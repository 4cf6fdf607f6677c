#!/bin/sh
# RUSTC_WRAPPER for the simulation build. Adds LLVM's atomics instrumentation
# (tsan pass, no tsan runtime: dst/rt/simrt.c implements the callbacks) to the
# code under test and to the lock and channel libraries it uses. Crates compiled
# for the host (proc macros, build scripts) and the harness itself are left alone.
rustc="$1"; shift
target=no; name=; prev=
for a in "$@"; do
  case "$prev" in --crate-name) name="$a";; --target) target=yes;; esac
  case "$a" in --target=*) target=yes;; esac
  prev="$a"
done
if [ "$target" = yes ]; then
  case "$name" in
    flume|parking_lot|lock_api) exec "$rustc" "$@" -C passes=tsan;;
    dst|build_script_*) ;;
    *) case "$CARGO_MANIFEST_DIR" in
         "${DST_REPO:-/repo}"/*) exec "$rustc" "$@" -C passes=tsan;;
       esac;;
  esac
fi
exec "$rustc" "$@"
