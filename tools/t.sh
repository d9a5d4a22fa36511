#!/bin/bash
# developer helper: run a property's jobs and show only what did not pass
cd "$(dirname "$0")/.."; python3 run.py "$@" -v 2>&1 | grep -v "ok=True" | grep -v ^UNDEC | cut -c1-${W:-230} | head -${N:-20}
