#!/bin/bash
# iso.sh DIFF ID...   run checks against /repo with a change, in a private mount namespace with copies of /repo and
# /verif: nothing is written to either, and several runs can go on at a time. TIER=thorough for the thorough checks.
diff=$(realpath "$1"); shift
t=$(mktemp -d /tmp/iso.XXXXXX) || exit 2
cp -a /repo "$t/repo"
mkdir "$t/verif"
(cd /verif && cp -a run.sh known_findings.jsonl mc "$t/verif/")
git -C "$t/repo" apply "$diff" || { echo "does not apply: $diff"; rm -rf "$t"; exit 2; }
export T=$t TIER=${TIER:-quick}
unshare -Urm bash -c 'mount --bind $T/repo /repo && mount --bind $T/verif /verif && cd /verif || exit 2
for id in "$@"; do
	s=$SECONDS
	./run.sh $id $TIER >$T/out 2>&1; code=$?
	echo "$id exit=$code $((SECONDS-s))s $(head -c 300 $T/out | head -2 | tr "\n" " ")"
	if [ -n "${KEEP:-}" ]; then mkdir -p $KEEP; cp $T/out $KEEP/$id.out; cp $T/verif/replays/$id* $KEEP/ 2>/dev/null; fi
done' iso "$@"
rm -rf "$t"
