#!/bin/bash
# Compiles the named sources with main.cpp beside this script and runs it: it exits non-zero if the behaviour is wrong.
set -u
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); O=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$O"' EXIT
I=""; [ -d "$H/standin" ] && I="-I$H/standin/include"
S=""; for f in $(cat "$H/sources"); do S="$S $R/$f"; done
g++ -std=c++20 -w -DFMT_HEADER_ONLY $I -I"$R/include" $S "$H/main.cpp" -o "$O/demo" || exit 3
"$O/demo"
