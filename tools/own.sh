#!/bin/bash
# own.sh [ids..] : each seeded bug against the check of its own property (scratch copy)
cd /verif/seeded; for b in ${@:-*}; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])"); echo "$b: $(W=110 /verif/tools/scratch.sh /verif/seeded/$b/patch.diff "$p" 2>&1 | tail -1)"; done
