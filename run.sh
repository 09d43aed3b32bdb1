#!/bin/bash
# run.sh ID [--replay FILE] [vh flags...]: rebuilds the harness from /repo's
# working tree and runs the generated checks of property ID.
# VERIF_SEED, VERIF_TIER as in MANIFEST.json.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=/root/.cache/go-build GOPATH=/root/go
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: run.sh ID}; shift
WORK=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf -- "$WORK"' EXIT
cd "$ROOT/h" || exit 3
if ! go build -o "$WORK/vh" ./cmd/vh > "$WORK/build.log" 2>&1; then
  cat "$WORK/build.log"; echo "harness does not build"; exit 3
fi
case $ID in
C05|C06|C17|C18) go build -race -o "$WORK/vhrace" ./cmd/vh > "$WORK/build.log" 2>&1 ||
  { cat "$WORK/build.log"; echo "race build fails"; exit 3; }
  export VH_RACE=$WORK/vhrace ;;
esac
case $ID in
C22|C23) (cd /repo && go build -o "$WORK/" ./cmd/gini ./cmd/crispd ./cmd/bench) > "$WORK/build.log" 2>&1 ||
  { cat "$WORK/build.log"; echo "cmd does not build"; exit 3; }
  export VH_GINI=$WORK/gini ;;
esac
export TMPDIR=$WORK VH_ROOT=$ROOT
"$WORK/vh" -prop "$ID" -root "$ROOT" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" "$@"
