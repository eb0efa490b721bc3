#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
