#!/bin/bash
# run.sh <property id> [--replay FILE] [--one JSON]   -- runs one check against /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
PY=/opt/pvenv/bin/python
[ -x "$PY" ] || PY=python3
cd "$HERE" && exec "$PY" -W ignore "$HERE/lib/mc.py" "$@"
