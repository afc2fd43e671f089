#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$PWD
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
cp -a "$REPO/data" "$S/data"
ln -s "$REPO/resources" "$S/resources" 2>/dev/null
export DEMO_REPO=$REPO PYTHONPATH="$REPO:$HERE" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC TMPDIR=$S
OFFSET=$(( $(date -d '2026-02-25 12:00:00 UTC' +%s) - $(date +%s) ))
cd "$S" || exit 2
env LD_PRELOAD=/opt/vp/clock/clock.so VP_CLOCK_OFFSET="$OFFSET" timeout 250 "$PY" "$HERE/demo.py" 2>"$S/err" || { rc=$?; grep -v ^WARNING "$S/err" | tail -5; exit $rc; }
