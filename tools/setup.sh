#!/bin/bash
# the framework is interpreted; check that the tools it drives are present
set -e
cbmc --version >/dev/null; goto-cc --version >/dev/null; goto-instrument --version >/dev/null
/usr/bin/clang-18 --version >/dev/null; python3 -c 'import json'
mkdir -p "$(dirname "$0")/../evidence"
