#!/bin/bash
# run a law model and list its identities
cd /verif/spec
for m in "$@"; do echo "== $m"; SPEC_OUT=/tmp/$m.json timeout 600 tlc -noGenerateSpecTE -metadir /tmp/tlcmeta -config MC_$m.cfg MC_$m.tla 2>&1 | grep -v Linting | grep -iE -A12 'error|violated|Finished in|states gen' | head -${L:-14};  python3 -c "
import json;d=json.load(open('/tmp/$m.json'))
print(len(d['plan']),[(i['name'],i['points']) for i in d['identities']])"; done; rm -rf /tmp/tlcmeta
