#!/bin/bash
# check.sh PROPERTY TIER
V="$(cd "$(dirname "$0")/.." && pwd)"
exec /opt/veriftools/pyvenv/bin/python "$V/engine/check.py" --property "$1" --tier "${2:-quick}"
