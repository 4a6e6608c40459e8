#!/bin/bash
# builds the harness offline (checks rebuild what changed)
cd "$(dirname "$0")" && exec python3 tools/run.py --build
