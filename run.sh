#!/bin/bash
# run.sh ID: decides property ID on the tree at ${VERIF_REPO:-/repo}; run.sh replay FILE: runs a recorded case again.
export VERIF_HOME=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off CARGO_NET_OFFLINE=true
VERIF_SCRATCH=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
export VERIF_SCRATCH
trap 'rm -rf "$VERIF_SCRATCH"' EXIT
if [ "$1" = setup ]; then # nothing is kept between runs: only checks that the tools are there
  cd "$VERIF_HOME/harness/go" && go vet ./monitor ./wire && command -v cargo gcc valgrind node >/dev/null
  exit
fi
cd "$VERIF_HOME/harness/go" && go build -o "$VERIF_SCRATCH/monitor" ./monitor || { echo "ERROR: the monitor does not build"; exit 2; }
cd "$VERIF_HOME"
"$VERIF_SCRATCH/monitor" "$@"
