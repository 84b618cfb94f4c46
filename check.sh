#!/bin/bash
# check.sh PROPERTY quick|thorough
exec python3 "$(cd "$(dirname "$0")" && pwd)/tools/check.py" "$@"
