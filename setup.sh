#!/bin/sh
# nothing to build: Python from /repo's working tree; verify that it imports
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -c "from vp import boot; boot.setup(); import vp.ref, vp.gen; print('ok')"
