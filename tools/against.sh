#!/bin/bash
# against.sh REPO PROP...: development aid. Runs quick checks against a scratch copy of the repository.
repo=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly VERIF_REPO=$repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
w=$(mktemp -d /tmp/against.XXXXXX); trap 'rm -rf "$w"' EXIT
export TMPDIR=$w VERIF_DIR=$w
cp "$here/known_findings.txt" "$w/"
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$w/go.mod"; cp "$here/harness/go.sum" "$w/go.sum"
cd "$here/harness" && go build -modfile="$w/go.mod" -o "$w/verifmon" . || exit 2
(cd "$repo/truecli" && GOFLAGS=-mod=mod go build -o "$w/truecli" .) || exit 2
export VERIF_CLI=$w/truecli
for p in "$@"; do
	if [ $p = R25 ]; then
		CGO_ENABLED=1 go build -race -modfile="$w/go.mod" -o "$w/verifmonr" . || exit 2
		"$w/verifmonr" check R25 > "$w/out.$p" 2>&1
	else "$w/verifmon" check $p > "$w/out.$p" 2>&1; fi
	rc=$?
	if [ $rc != 0 ]; then echo "$p rc=$rc: $(grep -A1 VIOLATION "$w/out.$p" | sed -n 2p | cut -c1-${CUT:-160})"; [ $rc != 1 ] && tail -3 "$w/out.$p"; else [ -n "$QUIETOK" ] || echo "$p ok"; fi
done
