#!/bin/bash
# Builds everything the checks build, so that each check only recompiles what changed.
set -eu
cd "$(dirname "$0")"
exec python3 lib/build.py tsgolint ovl $(ls drivers | grep -v -x -e cmdovl -e lib)
