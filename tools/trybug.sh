#!/bin/bash
# trybug.sh ID : run the property's check verbosely against a copy with the planted change
i=$1; shift
W=/tmp/try_$i; rm -rf "$W"; mkdir -p $W; cp -r /repo/enterprise $W/; 
( cd $W && git init -q . 2>/dev/null; git apply /verif/seeded/$i/patch.diff )
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
python3 /verif/check.py --property ${1:-$p} --repo $W --noevidence --verbose | cut -c1-900
rm -rf "$W"
