#!/bin/bash
# sweep.sh PID SEEDS... : run a check with several seeds (development aid)
pid=$1; shift
for s in "$@"; do VERIF_SEED=$s python3 run.py $pid --no-evidence ${TIER:+--tier $TIER} 2>&1 | tail -${TAIL:-12}; done
