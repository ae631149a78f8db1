#!/bin/bash
# Usage: run_check.sh <property id> [--tier quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo.  Python imports ccnpy straight from it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${CCNPY_REPO:-/repo}"
vt=/opt/veriftools/pyvenv/lib/python3.12/site-packages
exec env LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1 \
    PYTHONPATH="$here/harness:$repo" VERIF_VT="$vt" VERIF_HOME="$here" \
    HYPOTHESIS_STORAGE_DIRECTORY=/tmp/nonexistent-hypothesis \
    /opt/venv/bin/python -B -c 'import os, sys; sys.path.append(os.environ["VERIF_VT"]); sys.argv[0] = "check"; from vh.main import main; sys.exit(main())' "$@"
