#!/bin/sh
# Compiles the evaluator of R64 and tests it against its TLA+ definition.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, "lib")
import tlc
tlc.compile_override()
r = tlc.run("R64Test", workers=1)
sys.exit(1 if r["violated"] else 0)'
