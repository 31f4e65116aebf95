#!/bin/bash
# usage: check.sh <property id> [--thorough]
cd "$(dirname "$0")" && exec python3 analysis/check.py "$@"
