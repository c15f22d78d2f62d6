#!/bin/bash
# check.sh <property> <quick|thorough>
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" && exec python3-vt engine/check.py "$@"
