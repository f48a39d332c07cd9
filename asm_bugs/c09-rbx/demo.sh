#!/bin/bash
# exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$t"' EXIT

gcc -O1 -fno-omit-frame-pointer -w -I/repo/_build/include -I/repo/_build -I/repo/include "$d/demo.c" /repo/_build/.libs/libffi.a -lpthread -ldl -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
