#!/bin/bash
# run.sh <PROPERTY-ID> [args...]: runs one check of /verif against /repo's working tree.
# Everything the checked code writes goes to a scratch directory that is removed at the end.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
SCRATCH=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/tmp"
export TMPDIR="$SCRATCH/tmp" VERIF_SCRATCH="$SCRATCH" VERIF_REPO="$REPO" VERIF_HOME="$HERE"
export PYTHONPATH="$REPO:$HERE"
# The certificates below /repo/data were valid until spring 2026: run at the date of the commit
# (a constant offset, also for the openssl sub-processes the code starts).
CLOCK="$HERE/native/clock.so"
if [ ! -f "$CLOCK" ]; then
    gcc -O2 -shared -fPIC -o "$SCRATCH/clock.so" "$HERE/native/clock.c" -ldl 2>/dev/null && CLOCK="$SCRATCH/clock.so"
fi
[ -f "$CLOCK" ] || CLOCK=/opt/vp/clock/clock.so
OFFSET=$(( $(date -d '2026-02-25 12:00:00 UTC' +%s) - $(date +%s) ))
cd "$SCRATCH" || exit 2
ID=$1; shift
case "$ID" in
  -c|*.py) env LD_PRELOAD="$CLOCK" VP_CLOCK_OFFSET="$OFFSET" "$PY" -c 'import vlib.core as c,sys,runpy; c.enter_scratch("main"); sys.argv=sys.argv[1:]; runpy.run_path(sys.argv[0], run_name="__main__")' "$ID" "$@"; exit $? ;;
esac
env LD_PRELOAD="$CLOCK" VP_CLOCK_OFFSET="$OFFSET" "$PY" -m vlib.main "$ID" "$@"
