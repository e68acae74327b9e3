#!/bin/bash
# keep.sh ID REPLAY NAME: keep a replay file as a regression case
mkdir -p /verif/corpus/$1
python3 - "$2" "/verif/corpus/$1/$3.json" <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
json.dump({"property":d["property"],"case":d["case"]},open(sys.argv[2],"w"),indent=1)
P
