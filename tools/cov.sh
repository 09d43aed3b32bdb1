#!/bin/bash
# cov.sh ID [flags]: statement coverage of /repo under check ID.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d /tmp/cov.XXXX); cd /verif/h
go build -cover -coverpkg=ginicheck/cmd/vh,github.com/go-air/gini/... -o $d/vh ./cmd/vh || exit 1
mkdir $d/c; id=$1; shift
[ $id = C22 ] && { (cd /repo && go build -cover -coverpkg=github.com/go-air/gini/... -o $d/gini ./cmd/gini); export VH_GINI=$d/gini; }
GOCOVERDIR=$d/c TMPDIR=$d VH_ROOT=/verif $d/vh -prop $id -root /verif -seed ${VERIF_SEED:-1} -tier quick -noev "$@" | tail -3
go tool covdata textfmt -i=$d/c -o $d/t.txt
sed -i /^ginicheck/d $d/t.txt; cp $d/t.txt /tmp/cov-$id.txt
(cd /repo && go tool cover -func=$d/t.txt) > /tmp/cov-$id.func
rm -rf -- "$d"
