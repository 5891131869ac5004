#!/bin/bash
# Builds the harness in both profiles, so that the checks only rebuild what changes
cd "$(dirname "$0")" || exit 1
exec python3 -B -c 'import sys; sys.path.insert(0, "lib"); import core; core.build()'
