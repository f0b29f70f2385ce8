#!/bin/bash
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin
(cd gover && go build -o ../bin/gover .)
