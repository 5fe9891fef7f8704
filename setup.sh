#!/bin/bash
# Checks that the tools are there and builds the library and drivers once (checks rebuild what changed).
set -e
cd /verif
python3 - <<'P'
import sys; sys.path.insert(0, "/verif")
from vf import build
build.build_lib("plain")
P
java -version 2>/dev/null
