#!/usr/bin/env python3
"""Nothing to build: checks that what the checks need is there."""
import subprocess
import sys

code = "import numpy, pyarrow, recordclass, typing_extensions; import sys; sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(z3.get_version_string())"
sys.exit(subprocess.run(["/opt/venv/bin/python", "-B", "-c", code]).returncode)
