#!/bin/bash
# mkmod.sh REPO OUTDIR STUBROOT... : writes OUTDIR/go.mod(+sum) of REPO with every stub module replaced.
set -e
repo=$1; out=$2; shift 2
cp "$repo/go.mod" "$out/go.mod"; cp "$repo/go.sum" "$out/go.sum"
for root in "$@"; do
  for m in $(cd "$root" && find . -name go.mod -printf '%h\n' | sed 's#^\./##'); do
    echo "replace $m => $root/$m" >> "$out/go.mod"
  done
done
