#!/bin/bash
# mutants.sh NLANES SCALE IN.jsonl OUT [full]: run tools/mutants.py in lanes with their own copies of /repo and /verif
for ((i=0;i<$1;i++)); do
  d=/tmp/mt/lane$i
  rm -rf "$d"; mkdir -p "$d"; cp -a /repo "$d/repo"
  mkdir "$d/verif"; cp -a /verif/{harness,tools,corpus,check,known-findings.txt,properties.jsonl,MANIFEST.json} "$d/verif/"; mkdir -p "$d/verif/evidence" "$d/verif/replays"
  unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && exec python3 /verif/tools/mutants.py $i $1 $2 $3 $4 $5" > "$4.log.$i" 2>&1 &
done
wait
