#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")"
export VERIF_TIER="$2"
exec python3 "checks/$1.py" "$2"
