#!/bin/bash
# check.sh PROP [quick|thorough]: builds the monitors against /repo's working tree and decides one property.
# Exit 0: held on everything explored. Exit 1, with a VIOLATION line: broken. Anything else: the check failed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
export VERIF_DIR=$here VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=/repo
work=$(mktemp -d /tmp/verifcheck.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
mkdir -p "$work/cov" "$here/evidence"
cd "$here/harness" || exit 2
case $prop in
R25) # data races: the race detector must be the only thing that orders the threads' memory accesses
	CGO_ENABLED=1 go build -race -o "$work/verifmon" . || exit 2 ;;
*)
	go build -cover -covermode=set -coverpkg=github.com/unidoc/unitype,github.com/unidoc/unitype/internal/... -o "$work/verifmon" . || exit 2
	export GOCOVERDIR=$work/cov ;;
esac
if [ "$prop" = L26 ]; then
	(cd /repo/truecli && GOFLAGS=-mod=mod go build -cover -covermode=set -coverpkg=github.com/unidoc/unitype/... -o "$work/truecli" .) || exit 2
	export VERIF_CLI=$work/truecli
fi
"$work/verifmon" check "$prop"
