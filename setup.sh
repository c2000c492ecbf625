#!/bin/bash
# Nothing to install: every check builds its simulation from /repo. This only verifies that the compiler works.
cd "$(dirname "$0")" && chmod +x check.sh replay.sh sim/build.sh && mkdir -p build out evidence && clang++ --version | head -1
