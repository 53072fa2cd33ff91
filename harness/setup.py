"""Checks that the interpreter, the code under test and the libraries load; nothing needs building."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + "/src:" + ROOT, PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call([os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python"), "-c", "import hypothesis, simpy, harness.num, harness.engine; print('ok', simpy.__file__)"], env=env, cwd="/"))
