#!/bin/bash
# RUSTC_WRAPPER of the exploration of schedules: the crates under test see the shim as std.
rustc=$1
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
jsonpath_rfc9535*) exec "$rustc" "$@" --extern "std=$MCSTD" ;;
conc) exec "$rustc" "$@" --extern "mcstd=$MCSTD" ;;
esac
exec "$rustc" "$@"
