#!/bin/bash
# Nothing to install: each check builds what it needs from /repo's working tree.
# This only makes sure that the tools the checks call are there and answer.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; assert z3.Solver().check() == z3.sat'
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo --version
mkdir -p evidence
python3-vt -m compileall -q engine
echo ready
