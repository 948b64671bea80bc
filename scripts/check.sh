#!/bin/bash
# usage: check.sh ID [quick|thorough]   decides one property on /repo's current working tree
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
bin=$("$here/scripts/build.sh") || { echo "INCONCLUSIVE property=$id the monitors do not build against /repo"; exit 2; }
if [ "$id" = C29 ]; then
  ZKMON_TSAN=$("$here/scripts/build.sh" tsan) && export ZKMON_TSAN
fi
# a runaway allocation ends the monitored process, not the sandbox
ulimit -S -v 25000000 2>/dev/null
ulimit -c 0 2>/dev/null
cd "$here" || exit 2
exec "$bin" run "$id" --tier "$tier" --seed "$seed" --dir "$here"
