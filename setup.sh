#!/bin/sh
# builds the syntax-tree dumper (checks also build it on demand)
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.path.insert(0,'engine')
from program import build_tool; build_tool()"
