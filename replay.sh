#!/bin/bash
# replay.sh PROPERTY: runs the replay harness of a property against /repo (0: no failing input found).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec bin/gover -root "$PWD" -replay "$1"
