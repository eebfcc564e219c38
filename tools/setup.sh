#!/bin/bash
# Nothing to build in advance: every check builds toycc from /repo's working
# tree.  This only verifies that the tools the checks need are installed.
for t in gcc riscv64-linux-gnu-gcc qemu-riscv64 python3; do
	command -v $t > /dev/null || { echo "missing $t"; exit 1; }
done
mkdir -p evidence
