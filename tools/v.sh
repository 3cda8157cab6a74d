#!/bin/bash
# developer helper: run one check briefly and print the first violation. v.sh PROP [seconds]
cd /verif; rm -f /verif/out/replay/$1-*.json
VERIF_TIME=${2:-5} python3 tools/check.py $1 quick 2>&1 | tail -4
python3 - $1 <<'P'
import json,glob,sys
for f in glob.glob('/verif/out/replay/%s*.json'%sys.argv[1])[:1]:
  d=json.load(open(f));print(d['class'],'|',d['message'],'|',len(d['choices']),d['choices'][:60]);print(d.get('trace','')[-3000:])
P
