#!/bin/bash
# check.sh <property> <tier>
cd "$(dirname "$0")" && exec python3 vpdrive.py "$1" --tier "${2:-quick}"
