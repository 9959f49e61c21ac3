"""Locate the real code: /repo/python is imported as is, nothing is copied."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "python")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pyvc"   # never read or write bytecode caches of /repo
if SRC not in sys.path:
    sys.path.insert(0, SRC)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
_venv = "/opt/venv/lib/python3.12/site-packages"
if _venv not in sys.path:
    sys.path.append(_venv)
sys.setrecursionlimit(20000)
