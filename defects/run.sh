#!/bin/bash
# Runs the demonstrations of the repaired defects against /repo (or $REPO): all must pass.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=${REPO:-/repo}
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
echo "{\"Replace\": {\"$repo/defects_verif_test.go\": \"$here/defects_verif_test.go\"}}" > "$ov"
cd "$repo" && go test -overlay "$ov" -vet=off -count=1 -timeout 300s -run "${1:-TestDefect}" ${2:--v} .
