#!/bin/bash
# run.sh ID quick|thorough   decide one property
# run.sh replay FILE         rerun a recorded counterexample
. /opt/vp/env.sh
mkdir -p /verif/.bin
(cd /verif/engine && GOFLAGS=-mod=vendor go build -o /verif/.bin/engine.$$ . && mv /verif/.bin/engine.$$ /verif/.bin/engine) || { echo "engine build failed"; exit 2; }
ulimit -v unlimited
if [ "$1" = setup ]; then exit 0; fi
if [ "$1" = replay ]; then exec /verif/.bin/engine replay "$2"; fi
exec /verif/.bin/engine check "$1" "${2:-quick}"
