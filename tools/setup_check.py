"""Checks that the interpreter offers what the simulator relies on."""

import os
import subprocess
import sys

PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
code = "import sys; assert sys.version_info >= (3, 12); sys.monitoring"
sys.exit(subprocess.call([PY, "-c", code]))
