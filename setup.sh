#!/bin/bash
# Nothing to build: the harness is plain Python. Verify that what it needs is there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, '.')
from harness import core
core.bootstrap()
import yaml, brotli, html5lib, ebooklib
print('python', sys.version.split()[0])
P
command -v gcc >/dev/null
