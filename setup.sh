#!/bin/bash
# Nothing to build ahead of time: each check builds the SSA front end itself.
cd "$(dirname "$0")" && python3-vt -m compileall -q gvc >/dev/null 2>&1; exit 0
