#!/bin/bash
# builds the SSA dumper and warms the build cache; everything else is interpreted
cd "$(dirname "$0")" || exit 1
exec python3-vt check.py --setup
