#!/usr/bin/env python3
"""Nothing is built: verify that the interpreter and the libraries the checks need are present."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(subprocess.call([py, "-B", "-c", "import sys; sys.path.insert(0, %r); from pkv import core; print('ready')" % V]))
