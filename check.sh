#!/bin/bash
# check.sh ID: runs the check of one property on /repo's current tree
exec python3 "$(dirname "$(readlink -f "$0")")/driver/check.py" "$@"
