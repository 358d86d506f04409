#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
P=/repo/_build/prefix
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 9
export UIMACPP_HOME=$P LD_LIBRARY_PATH=$P/lib
I="-std=c++17 -O1 -w -DNDEBUG -I$P/include -I/usr/include/xercesc -I/usr/include/apr-1.0 -I$D"
L="-L$P/lib -luima -lxerces-c -lapr-1 -laprutil-1 -licuuc -licui18n -licuio -licudata -ldl -lpthread"
for f in "$D"/*.xml; do [ -f "$f" ] && sed "s#@W@#$W#g" "$f" > "$W/$(basename "$f")"; done
# a library the demonstration loads: an annotator or a stream handler
if [ -f "$D/plug.cpp" ]; then g++ $I -fPIC -shared "$D/plug.cpp" -o "$W/plug.so" $L || exit 8; export UIMACPP_STREAMHANDLERS="mem:$W/plug.so"; fi
g++ $I -rdynamic "$D/demo.cpp" -o "$W/demo" $L || exit 8
timeout 120 "$W/demo" "$W"
