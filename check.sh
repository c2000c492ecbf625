#!/bin/bash
# check.sh <property>: builds the simulation that decides the property from /repo's working tree and runs it.
# VERIF_SEED selects the seeds, VERIF_TIER=quick|thorough the number of runs.
cd "$(dirname "$0")" || exit 2
P=$1; shift
case $P in
  Q0*) H=queue;; P0*) H=pool;; W0*) H=wear;; D0*) H=stream;; T0*) H=timer;; L0*) H=led;; F0*) H=filter;; C0*) H=container;; S0*|K0*|N0*) H=text;; I0*) H=interp;;
  B0*) H=format;; E0*) H=input;; M0*) H=memtest;; A0*) H=alloc;; R0*) H=ring;;
  *) echo "unknown property $P" >&2; exit 2;;
esac
export SIM_VERIF="$PWD"
OUT="$PWD/build/$P"
mkdir -p "$OUT"
if ! sim/build.sh $H "$OUT" >"$OUT/build.log" 2>&1; then
  echo "check.sh: building the $H simulation failed:" >&2
  head -40 "$OUT/build.log" >&2
  exit 2
fi
exec "$OUT/$H" --prop "$P" "$@"
