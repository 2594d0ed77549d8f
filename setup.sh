#!/bin/bash
# Nothing to build in advance: every check rebuilds from /repo. Verifies that the tools are there and self-tests the specifications.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
rustc --version
(cd llvc && python3-vt -c 'import specs; specs.selftest()')
mkdir -p evidence build
