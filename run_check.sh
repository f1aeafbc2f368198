#!/bin/bash
# bash run_check.sh <property> <quick|thorough> [case-name-substring]
# bash run_check.sh replay <file>
cd "$(dirname "$0")" || exit 2
. ./env.sh
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || exit 2
trap '/bin/rm -rf -- "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
mkdir -p "$MPLCONFIGDIR"
[ -d /opt/vp/mplconfig ] && cp -r /opt/vp/mplconfig/. "$MPLCONFIGDIR"/ 2>/dev/null
/opt/venv/bin/python -m harness "$@"
