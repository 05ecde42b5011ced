#!/bin/bash
# nothing to build: the checks generate and compile everything from /repo's current tree
set -e
for t in verus clang++ g++ protoc python3; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
