#!/bin/bash
# check.sh PROPERTY [quick|thorough]: discharges every obligation of the property from /repo's current source.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p bin
[ -x bin/gover ] && [ -z "$(find gover -name '*.go' -newer bin/gover)" ] || (cd gover && go build -o ../bin/gover .) || exit 2
exec bin/gover -root "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
