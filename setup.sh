#!/bin/bash
# Compiles every harness once (the checks build what they need themselves as well).
exec python3 "$(dirname "$(readlink -f "$0")")/tools/run.py" --setup
