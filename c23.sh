#!/bin/bash
exec python3 "$(cd "$(dirname "$0")" && pwd)/feat/run.py" "$@"
