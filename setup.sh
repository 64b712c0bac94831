#!/bin/sh
# nothing to build: the checks import /repo directly.  Verify the tools they need.
set -e
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
command -v iverilog >/dev/null
command -v vvp >/dev/null
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode=True; sys.path.insert(0,"/repo"); import veriloggen, numpy, jinja2'
mkdir -p evidence
echo setup ok
