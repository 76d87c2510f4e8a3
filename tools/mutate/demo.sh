#!/bin/bash
# compiles demo.cpp against the sources of the current directory's tree and runs it in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -fopenmp -fno-access-control -w @FLAGS@ -isystem "$repo/src/viennacl" -I "$repo/src/OpenMps" -I "$here" "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 200 ./demo
