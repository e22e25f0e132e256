#!/bin/bash
# fixc.sh PID "message" : commits the working tree of /repo as a fix and records it
cd /repo && git commit -qam "fix: $2" && H=$(git rev-parse --short HEAD) && /usr/bin/python3 - "$1" "$H" "$2" <<'P'
import json,sys
f='/verif/known_findings.json'; k=json.load(open(f)); k['fixed'].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4])); json.dump(k,open(f,'w'),indent=1)
P
git log --oneline | head -1
