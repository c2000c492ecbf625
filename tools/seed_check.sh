#!/bin/bash
# seed_check.sh [ids]: confirms planted bugs in a scratch copy: build, stable tests, demo on both trees; then runs the checks
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seedchk.XXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"
ids=${*:-$(ls $V/seeded)}
for i in $ids; do
  d=$V/seeded/$i
  git -C $W/r checkout -q -- . 
  (cd $W/r && bash $d/demo.sh >$W/o1 2>&1); a=$?
  git -C $W/r apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  (cd $W/r && bash $d/demo.sh >$W/o2 2>&1); b=$?
  t=-
  if [ -z "$NOTEST" ]; then
    (cd $W/r && make -j8 -f tests/Makefile tests/build/runtests >$W/o3 2>&1 && tests/build/runtests >$W/o3 2>&1); t=$?
    for f in $(git -C $W/r diff --name-only | grep 'hh$'); do
      echo "#include \"$f\"" | g++ -std=c++20 -include concepts -include cstdint -I$W/r -x c++ -c - -o /dev/null 2>$W/o3 || t="HEADER"
    done
    [ "$t" = 0 ] || tail -5 $W/o3
  fi
  c=-
  if [ -z "$NOSIM" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    mkdir -p $W/v; cp $V/known_findings.txt $W/v/
    h=$(python3 -c "
m=dict(Q='queue',P='pool',W='wear',D='stream',T='timer',I='interp',B='format',E='input',M='memtest',A='alloc',R='ring',L='led',F='filter',C='container',S='text',K='text',N='text');print(m['$p'[0]])")
    if SIM_REPO=$W/r $V/sim/build.sh $h $W/sb >$W/o4 2>&1; then
      SIM_VERIF=$W/v $W/sb/$h --prop $p --no-evidence >$W/o5 2>&1; c="$p exit $? $(grep -m1 -o '^[A-Z0-9]*: \[[a-z-]*\]' $W/o5)"
    else c="SIM BUILD FAILED"; fi
  fi
  echo "$i: demo $a/$b tests $t check $c | $(head -1 $W/o2)"
done
