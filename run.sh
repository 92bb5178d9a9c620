#!/bin/bash
# run.sh ID [quick|thorough]   check one property against /repo's working tree
# run.sh --replay FILE         run one recorded violation again
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
tier=${2:-${VERIF_TIER:-quick}}
if [ "${1:-}" = --replay ]; then
	id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
	export VMC_REPLAY_FILE=$2
	tier=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("tier","quick"))' "$2")
else
	id=$1
fi
pkg=$(awk -v id="$id" '$1==id {print $2}' "$here/mc/checks/INDEX")
if [ -z "$pkg" ]; then
	echo "unknown property $id" >&2
	exit 2
fi
mode=$(awk -v id="$id" '$1==id {print $3}' "$here/mc/checks/INDEX")
mkdir -p "$here/evidence" "$here/replays"
tmp=$(mktemp -d /tmp/vmc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VMC_ID=$id VERIF_TIER=$tier VMC_KNOWN=$here/known_findings.jsonl VMC_EVIDENCE=$here/evidence VMC_REPLAYS=$here/replays VMC_TMP=$tmp
export TMPDIR=$tmp
cd "$here/mc" || exit 2
args=()
race=$(awk -v id="$id" '$1==id {print $4}' "$here/mc/checks/INDEX")
if [ "$race" = race ]; then
	args+=(-race)
fi
if [ -n "$mode" ]; then
	go run ./cmd/instr "$mode" "$tmp/overlay" >"$tmp/instr.log" 2>&1 || { cat "$tmp/instr.log" >&2; exit 2; }
	args+=(-overlay "$tmp/overlay/overlay.json")
fi
if ! go test -c -vet=off "${args[@]}" -o "$tmp/check.test" "./checks/$pkg" >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "the check of $id does not build against /repo" >&2
	exit 2
fi
"$tmp/check.test"
code=$?
exit $code
