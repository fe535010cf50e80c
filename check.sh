#!/bin/bash
# check.sh <property> : decides one property from /repo's current sources (static analysis; nothing of /repo is executed)
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/py/check.py" "$@"
