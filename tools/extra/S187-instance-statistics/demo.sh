#!/bin/bash
# run from the root of the repository
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
