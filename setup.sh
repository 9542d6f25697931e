#!/bin/sh
# Checks build everything they need themselves; this only verifies the tools they use.
cd "$(dirname "$0")" || exit 1
rustc +nightly --version && cargo --version && python3-vt -c 'import z3' && python3-vt -m compileall -q engine >/dev/null
mkdir -p build evidence
