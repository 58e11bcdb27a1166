#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly. Verifies the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/pvenv/bin/python -c "import sys; sys.path.insert(0, '/repo/src'); import disseminate, regex, lxml, jinja2, diskcache, tornado"
echo setup ok
