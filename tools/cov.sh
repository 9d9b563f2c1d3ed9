#!/bin/bash
# per-clause summary of the last evidence of a property
/opt/venv/bin/python - "$1" <<'P'
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']['clauses']
for k,v in d.items(): print(k,v)
P
