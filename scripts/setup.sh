#!/bin/bash
# Builds the driver and the simulated worker once, to show that they build
# offline; every check builds them again from the tree it finds.
cd "$(dirname "$0")/.." || exit 2
./check.sh build "$PWD/.work/setup" || exit 2
rm -rf "$PWD/.work/setup"
echo ready
