SH = '''#!/bin/bash
# compiles demo.cpp with the repository's sources in a scratch directory and runs it there
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
for f in entropy_common fse_compress fse_decompress hist debug; do gcc -O2 -w -c "$repo/lib/FSE/lib/$f.c" -o "$work/$f.o"; done
gcc -O1 -w -I"$repo/include" -I"$repo/lib/include" -c "$repo/lib/chacha8.c" -o "$work/chacha8.o"
g++ -std=c++17 -O2 -w -I"$here" -I"$repo/include" -I"$repo/lib" -I"$repo/lib/include" -I"$repo/lib/FSE/lib" WRAP "$here/demo.cpp" "$repo/src/settings.cpp" "$work"/*.o -o "$work/demo" -pthread
cd "$work"
timeout 250 ./demo
'''
