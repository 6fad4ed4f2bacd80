#!/bin/bash
# Builds the IR dumper the checks use (everything else is built per check from /repo's working tree).
set -eu
cd "$(dirname "$0")"
mkdir -p build replay evidence
python3-vt engine/check.py --setup
