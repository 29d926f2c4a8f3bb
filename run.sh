#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Runs one check against the code in /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
# never written to: it keeps Python from reading stale byte code in /repo
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONPATH="$here:${VERIF_REPO:-/repo}"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier"
exec /opt/venv/bin/python -m mc.run "$1" "$tier"
