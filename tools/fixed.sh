#!/bin/sh
# fixed.sh PROPERTY COMMIT WHAT: records a repaired defect
python3 - "$@" <<'P'
import json,sys
p,c,w=sys.argv[1:4]
open("/verif/known_findings.jsonl","a").write(json.dumps({"property":p,"status":"fixed","key":"","what":"fixed: property=%s %s %s"%(p,c,w)})+"\n")
P
