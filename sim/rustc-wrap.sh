#!/bin/bash
# RUSTC_WRAPPER: instrument every target crate except the simulation runtime.
# $1 is the real rustc.
real=$1; shift
name=""; tgt=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  [ "$prev" = "--target" ] && tgt=$a
  prev=$a
done
if [ -n "$tgt" ] && [ "$name" != "simrt" ] && [ "$name" != "___" ] && [ -n "$name" ]; then
  exec "$real" "$@" -Zsanitizer=thread -Zexternal-clangrt \
    -Cllvm-args=-tsan-instrument-memory-accesses=0 \
    -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0
fi
exec "$real" "$@"
