#!/bin/bash
# builds the engine, the replay runner and the harness IR (every check does the
# same when something it needs is missing or out of date)
cd "$(dirname "$0")" && exec python3 check.py --build
