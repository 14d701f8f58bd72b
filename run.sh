#!/bin/bash
# run.sh PROPERTY quick|thorough [--replay FILE]: builds what the check needs
# from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
prop=$1; shift
export VERIF_ROOT=$PWD
. ./env.sh
log=$CARGO_TARGET_DIR/build-$prop.log
case $prop in
  G10) pkgs="-p gvcfg"; bin=gvcfg ;;
  B*) pkgs="-p gvbuild -p grib-codegen"; bin=gvbuild ;;
  L*) pkgs="-p gvlib -p grib-cli"; bin=gvlib ;;
  *) pkgs="-p gvlib"; bin=gvlib ;;
esac
if ! (cd harness && cargo build --offline $pkgs) >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -60
  tail -5 "$log"
  echo "$prop: the harness does not build against /repo"
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$prop" "${@:-quick}"
