#!/bin/bash
# RUSTC_WRAPPER: instrument the target crates (the code under test and its
# dependencies) for the simulator; leave the simulator and host tools alone.
rustc="$1"; shift
name=""; target=0; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--target" ] && target=1
  case "$a" in --target=*) target=1;; esac
  prev="$a"
done
if [ $target = 1 ] && [ -n "$name" ]; then
  case "$name" in
    detrt) exec "$rustc" "$@" -Awarnings -C relocation-model=static -Cunsafe-allow-abi-mismatch=sanitizer ;;
    simc) exec "$rustc" "$@" -Awarnings -C relocation-model=static -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *) exec "$rustc" "$@" -Awarnings -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no ;;
  esac
fi
exec "$rustc" "$@"
