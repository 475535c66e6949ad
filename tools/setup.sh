#!/bin/bash
# Nothing is compiled; this only shows early that the interpreters are there and /repo imports.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import hypothesis'
cat > /tmp/verif-setup-$$.py <<'PY'
import pyogp.lib.base.message.udpdispatcher
print 'ok'
PY
trap 'rm -f /tmp/verif-setup-$$.py' EXIT
bash jy.sh /tmp/verif-setup-$$.py
