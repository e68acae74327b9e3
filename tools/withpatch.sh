#!/bin/bash
# withpatch.sh PATCH CMD...: run CMD with private copies of /repo (patched) and /verif in their places
d=$(mktemp -d /tmp/wp.XXXXXX); cp -a /repo "$d/repo"
mkdir "$d/verif"; cp -a /verif/{harness,tools,corpus,check,known-findings.txt,properties.jsonl,MANIFEST.json} "$d/verif/"; mkdir -p "$d/verif/evidence" "$d/verif/replays"
p=$1; shift
[ "$p" = - ] || git -C "$d/repo" apply "$(realpath "$p")" || exit 2
unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && $*"; rc=$?
rm -rf "$d"
exit $rc
