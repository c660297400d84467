#!/bin/bash
set -e
python3-vt -c "import z3"
clang++-18 --version >/dev/null
