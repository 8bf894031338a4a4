#!/bin/bash
# Runs demo.go and kit.go as tests of the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo.go","%s/zz_kit_test.go":"%s/kit.go"}}' "$PWD" "$d" "$PWD" "$d" > "$w/overlay.json"
go test -overlay "$w/overlay.json" -count=1 -timeout 120s -run '^TestDemo$' .
