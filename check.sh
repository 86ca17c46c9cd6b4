#!/bin/bash
# check.sh ID [--replay FILE]: decides one property on /repo's current tree.
exec python3 "$(dirname "$(readlink -f "$0")")/tools/run.py" "$@"
