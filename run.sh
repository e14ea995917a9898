#!/bin/bash
# run.sh PROPERTY [--thorough]: decide one property on /repo's current tree
cd "$(dirname "$0")" && exec python3-vt -m gvc.check "$@"
