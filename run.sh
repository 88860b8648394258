#!/bin/sh
# run.sh <property>: decides one property on the tree in /repo (VERIF_SEED, VERIF_TIER)
exec python3 "$(dirname "$0")/tools/check.py" "$@"
