#!/bin/bash
# builds demo.cpp with the library sources of the tree in the current directory (directories named on its first line)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'find "$T" -delete' EXIT
S=lib/nikfemm/src; SRCS=""
for d in $(sed -n '1s,^// SRC:,,p' "$D/demo.cpp"); do SRCS="$SRCS $(ls $S/$d/*.cpp)"; done
printf '%s\n' "$D/demo.cpp" $SRCS | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -mavx -O1 -w -I'$S' -Ilib/nikfemm/include -c "{}" -o "'$T'/$(echo {} | tr / _).o"' || exit 2
g++ "$T"/*.o -o "$T/demo" || exit 2
cd "$T"
timeout 120 "$T/demo" > "$T/out" 2>&1; rc=$?
tail -5 "$T/out"
exit $rc
