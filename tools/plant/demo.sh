#!/bin/bash
# Builds DRAMPower from the working tree (cwd) with a stand-in for DRAMUtils and runs demo.cpp:
# exit 0 when the property holds, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
export F="-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -I$repo/src/DRAMPower -I$repo/src/cli/lib -I$here/shim -I$here $(cat "$here/flags" 2>/dev/null)" W=$w
list() { for d in $(find "$repo/src/DRAMPower/DRAMPower" -name '*.cpp' -printf '%h\n' | sort -u); do echo "$d"; done; [ -e "$here/cli" ] && find "$repo/src/cli/lib" -name '*.cpp' -printf '%h\n' | sort -u; }
one() { n=$(echo "$1" | md5sum | cut -c1-12); for f in "$1"/*.cpp; do echo "#include \"$f\""; done > "$W/$n.cpp"; g++ $F -c "$W/$n.cpp" -o "$W/$n.o" 2> /dev/null || each "$1" "$n"; }
each() { for f in "$1"/*.cpp; do g++ $F -c "$f" -o "$W/$2-$(basename "$f").o" || return 1; done; }
export -f one each
list | xargs -P 8 -I{} bash -c 'one {}' || exit 3
g++ $F -DRES="\"$repo/tests/tests_drampower/resources/\"" "$here/demo.cpp" "$w"/*.o -o "$w/demo" -lspdlog -lfmt -lpthread || exit 3
cd "$w" && timeout 100 ./demo
