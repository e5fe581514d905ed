#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Dumps the MIR of /repo's current tree and decides one property on it. Exit 0: held; 1: violation.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
cd "$HERE" || exit 1
D=$(mktemp -d /tmp/vp-check.XXXXXX)
trap 'rm -rf "${D:?}"' EXIT
"$HERE/dump.sh" "$D/dump" >"$D/log" 2>&1
RC=$?
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VP_TIER=$TIER
VP_DUMP="$D/dump" VP_DUMP_RC=$RC VP_DUMP_LOG="$D/log" python3 -m checks.run "$ID" "$TIER"
exit $?
