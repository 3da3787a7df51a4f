#!/bin/bash
# Builds one real Lua 5.1.5 machine and one Lua 5.0 machine per table flush size
# into the given directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
lua=$here/../../third_party/lua-5.1.5
port=$here/../../third_party/lua-5.0-port
out=$1
mkdir -p "$out"
hash=$(cat "$here"/*.c "$here"/build.sh "$lua"/*.[ch] "$port"/*.[ch] | sha256sum)
[ "$(cat "$out/stamp" 2>/dev/null)" = "$hash" ] && exit 0
rm -f "$out/stamp"
# The Lua 5.0 machine: the runtime of 5.1.5 with the files of the port instead.
rm -rf "$out/src50"
mkdir "$out/src50"
cp "$lua"/*.[ch] "$out/src50"
cp "$port"/*.[ch] "$out/src50"
machine() { # name, flush size, sources
    gcc -std=gnu99 -O1 -g -fPIC -shared -fvisibility=hidden -w -Wl,-Bsymbolic \
        -DLFIELDS_PER_FLUSH=$2 -DLUA_USE_APICHECK '-Dlua_assert(c)=assert(c)' -include assert.h \
        -I"$3" -o "$out/$1.so" "$here/host.c" "$3"/*.c -lm &
}
for flush in 120 50 32 20 8 5 3 1; do machine vm$flush $flush "$lua"; done
for flush in 128 32 64 16 8 2 1; do machine vm50_$flush $flush "$out/src50"; done
for job in $(jobs -p); do wait "$job"; done
echo "$hash" >"$out/stamp"
