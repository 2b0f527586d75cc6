#!/bin/bash
# sens.sh (revert COMMIT | patch FILE) CHECK...   : run checks against a changed scratch copy of /repo
set -e
D=$(mktemp -d /tmp/sensXXXXXX)
git clone -q ${SRC:-/repo} $D/repo
if [ "$1" = revert ]; then git -C $D/repo revert -n $2 >/dev/null || { echo CONFLICT; }; else git -C $D/repo apply $2; fi
shift; shift
for c in "$@"; do
  SIM_REPO=$D/repo SIM_OUT=$D/out PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python /verif/check.py $c | grep -v "^KNOWN" | tail -4 || true
done
rm -rf "$D"
