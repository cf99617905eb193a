#!/bin/bash
# Prepares nothing that a check cannot make itself: pre-builds the native modules.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "from vlib import native; native.build()"
