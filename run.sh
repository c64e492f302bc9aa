#!/bin/bash
# run.sh ID...: build the analyzer from this directory and decide the
# properties on the current source of /repo (nothing is executed from it)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
export GOCACHE="$PWD/.build/gocache"
mkdir -p .build evidence || exit 2
(cd analyzer && go build -o ../.build/an .) || exit 2
if [ "$1" = build ]; then exit 0; fi
exec ./.build/an "$@"
