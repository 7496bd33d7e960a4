#!/bin/bash
# Builds libqasm from the current directory with the stand-ins beside this script, runs main.cpp and compares its output.
set -u
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); O=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$O"' EXIT
export PYTHONDONTWRITEBYTECODE=1
mkdir -p "$O/gen" "$O/obj"
python3 "$H/standin/gen_tree.py" "$O/gen" "$R"/src/v3x/*.tree || exit 3
python3 "$H/standin/gen_antlr.py" "$O/gen" "$R/src/v3x/CqasmLexer.g4" "$R/src/v3x/CqasmParser.g4" || exit 3
for f in "$O"/gen/libqasm/v3x/*.cpp "$R"/src/*.cpp "$R"/src/v3x/*.cpp "$H/main.cpp"; do echo "$f"; done |
    xargs -P8 -I{} sh -c 'g++ -std=c++20 -w -c -DFMT_HEADER_ONLY -I'"$O"'/gen -I'"$H"'/standin/include -I'"$R"'/include {} -o '"$O"'/obj/$(basename {}).o' || exit 3
g++ "$O"/obj/*.o -o "$O/demo" || exit 3
(cd "$O" && ./demo "$H/cases" > out.txt 2> err.txt) || { echo "the program failed"; tail -3 "$O/err.txt"; exit 1; }
diff "$O/out.txt" "$H/expected.txt" > "$O/diff.txt" || { echo "differs from what is required:"; cut -c1-400 "$O/diff.txt" | head -20; exit 1; }
echo ok
