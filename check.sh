#!/bin/bash
# usage: check.sh PROPERTY [--thorough]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m pgsim check "$@"
