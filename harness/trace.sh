#!/bin/bash
# rustc for the guided build: the code under test reports its branches and comparisons
rustc=$1
shift
name= prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
if [ "$name" = dmidecode ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
fi
[ "$name" = dmiverif ] && set -- "$@" --cfg dmiverif_traced
exec "$rustc" "$@"
