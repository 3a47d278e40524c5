#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--replay FILE]

Always re-executes itself with the project's interpreter and a closed environment, so that the result depends only on
/repo's working tree, VERIF_TIER and VERIF_SEED."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

if os.environ.get("VERIF_INNER") != "1":
    env = {k: os.environ[k] for k in ("PATH", "HOME", "VERIF_TIER", "VERIF_SEED", "VERIF_REPO", "VERIF_JOBS", "VERIF_PROFILE", "VERIF_SERIAL") if k in os.environ}
    env.update(VERIF_INNER="1", PYTHONHASHSEED="0", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONWARNINGS="ignore")
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from mc import core

sys.exit(core.main(sys.argv[1:]))
