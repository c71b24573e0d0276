#!/bin/sh
# Warms up the harness build (dependencies); the checks rebuild /repo themselves.
cd "$(dirname "$0")" || exit 1
exec python3-vt check.py --setup
