#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored)
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
make -s -C symx OUT=../build ../build/symx
