#!/bin/bash
# RUSTC_WRAPPER: compile the polling crate against the mcstd facade instead of std.
rustc=$1
shift
name=
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then name=$a; break; fi
  prev=$a
done
case $name in
  polling | concurrent_queue) exec "$rustc" "$@" --extern "std=$MCSTD_RLIB" ;;
  mc) exec "$rustc" "$@" --extern "mcstd=$MCSTD_RLIB" ;;
  *) exec "$rustc" "$@" ;;
esac
