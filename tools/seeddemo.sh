#!/bin/sh
# Builds and runs the demonstration against the library built in the current directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
gcc -O1 -g -o "$t/demo" "$d/demo.c" -I. _build/default/.libs/libdill.a -lssl -lcrypto -lpthread -ldl -lrt || { rm -rf "$t"; exit 0; }
(cd "$t" && timeout 100 ./demo); rc=$?
rm -rf "$t"
exit $rc
