#!/bin/bash
# run.sh <property id> [quick|thorough] [--replay FILE]: rebuild what /repo's tree needs, then run one check.
cd "$(dirname "$0")" || exit 2
. lib/env.sh
export PYTHONPATH="$PWD/lib:$PWD/checks"
id=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export VERIF_TIER=${VERIF_TIER:-quick}
# Extensions: rebuilt by content, in the ignored build products of /repo (serialised between concurrent checks)
exec 9>/tmp/.verif-ext.lock
flock 9
if ! out=$(python lib/ext.py 2>&1); then
  echo "$out" | tail -30
  echo "INCONCLUSIVE: the extensions of /repo do not build"
  exit 2
fi
flock -u 9
exec 9>&-
exec python lib/harness.py "$id" "$@"
