#!/bin/sh
cd "$(dirname "$0")" || exit 1
exec python3 -B -c '
import sys; sys.path.insert(0, "lib")
import core
print(core.tool("irx"))'
