#!/bin/bash
# run_check.sh <property> [tier]: builds the simulator for one property from
# /repo's working tree and runs its check.
# run_check.sh <property> replay <file>: repeats one recorded run.
cd "$(dirname "$0")" || exit 3
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
mkdir -p evidence/replays
PY=sim/py/prop_${ID,,}.py
if [ -e "$PY" ]; then
  export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
  export NUMBA_CACHE_DIR=$PWD/.build/numba
  export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
  P=/opt/iamf-venv/bin/python
  if [ "$TIER" = replay ]; then exec $P "$PY" replay "$3"; fi
  exec $P "$PY" run --tier "$TIER" --seed "$SEED" --evidence "evidence/$ID.json" \
    --known KNOWN_FINDINGS.txt --replays evidence/replays "${@:3}"
fi
BIN=$(python3 sim/build/build.py --prop "$ID") || { echo "build failed" >&2; exit 3; }
if [ "$TIER" = replay ]; then exec "$BIN" replay "$3"; fi
exec "$BIN" run --prop "$ID" --tier "$TIER" --seed "$SEED" \
  --evidence "evidence/$ID.json" --known KNOWN_FINDINGS.txt --replays evidence/replays
