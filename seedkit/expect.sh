#!/bin/bash
# writes expected.txt of the v3x seeds given (or all) from /repo HEAD
O=/tmp/refbin
HEADC=$(git -C /repo rev-parse HEAD)-$(cat /verif/standin/*.py /verif/standin/include/* | sha1sum | cut -c1-10)
if [ "$(cat $O/head 2>/dev/null)" != "$HEADC" ]; then
  rm -rf /tmp/refbin; mkdir -p $O; bash /tmp/build_si.sh /repo $O /verif/seedkit/main_cases.cpp; rm -f $O/obj/main_cases.cpp.o; echo $HEADC > $O/head
fi
for d in ${@:-/verif/seeded/*}; do
  [ -f $d/expected.txt ] || continue
  g++ -std=c++20 -w -DFMT_HEADER_ONLY -I$O/gen -I/verif/standin/include -I/repo/include $d/main.cpp $O/obj/*.o -o $O/m && $O/m $d/cases > $d/expected.txt 2>/dev/null || echo "FAILED $d"
  echo "== $d"; cut -c1-330 $d/expected.txt
done
