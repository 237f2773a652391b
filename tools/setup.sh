#!/bin/bash
# Nothing persists from here to the checks (each runs in its own copy): only verify the toolchain.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
command -v tlc >/dev/null && command -v java >/dev/null && python3 -c 'import json' || exit 1
exit 0
