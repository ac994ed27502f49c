#!/bin/bash
# exit 0: behaves; nonzero: broken. Run in the root of the built repository.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -I include/maec -I include "$here/demo.cpp" _build/libmaec.a -lpthread -o "$tmp/demo"
cd "$tmp"
timeout 120 ./demo
