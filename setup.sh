#!/bin/bash
# Nothing to build: checks that the libraries the harness needs are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONPATH=harness PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import hypothesis, cryptography; import vh.engine, vh.tree_model; print("ok: hypothesis", hypothesis.__version__, "cryptography", cryptography.__version__)'
