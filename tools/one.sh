#!/bin/bash
# one.sh PROP CASE [SEED]: run a single case of the built monitor with its output shown
d=$(mktemp -d); VH_STDOUT=1 /verif/build/${FLAVOUR:-asan}/vh_$1 $1 ${3:-1} quick $d/out $d 300 $2 1 $(($2+1)); cat $d/out; rm -rf "$d"
