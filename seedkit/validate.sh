#!/bin/bash
# validate.sh [seeds...]: demo on clean/patched, baseline build+tests on patched, and the check
cp -a /repo /tmp/rc.$$ ; R=/tmp/rc.$$
for d in ${@:-/verif/seeded/*}; do d=/verif/seeded/$(basename $d)
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $R checkout -q -- .
  (cd $R && bash $d/demo.sh >/tmp/o1 2>&1); a=$?
  git -C $R apply $d/patch.diff || { echo "$id patch fails"; continue; }
  (cd $R && bash $d/demo.sh >/tmp/o2 2>&1); b=$?
  t=skip
  if grep -qE "src/(utils|annotations).cpp|include/libqasm/(annot|utils)" $d/patch.diff; then
    sed "s#/repo#$R#g" /opt/vp/build.sh > /tmp/b.sh; rm -rf $R/_build; 
    g++ -std=c++20 -w -DFMT_HEADER_ONLY -I$R/include $R/src/utils.cpp $R/src/annotations.cpp $R/test/test_annotations.cpp $R/test/test_utils.cpp -I$R/test -lgmock_main -lgmock -lgtest -o /tmp/ut.$$ 2>/tmp/ut.err && /tmp/ut.$$ >/tmp/ut.out 2>&1; t=$?; tail -1 /tmp/ut.out
  fi
  (cd /verif && VERIF_REPO=$R timeout 900 ./check $p quick > /tmp/chk.$id 2>&1); c=$?
  echo "$id $p clean=$a patched=$b tests=$t check=$c $(grep -c VIOLATION /tmp/chk.$id)"
  [ $b = 3 ] && tail -3 /tmp/o2
done
rm -rf /tmp/rc.$$
