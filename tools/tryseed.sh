#!/bin/bash
# tryseed.sh ID [PROP]: run the check against a scratch copy of /repo with the planted change
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
t=$(mktemp -d /tmp/try_XXXX); git -C /repo archive HEAD | tar x -C $t; (cd $t && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo APPLY FAILED
VERIF_REPO=$t timeout 900 python3-vt /verif/check.py $p quick 2>&1 | tail -${3:-6}; rm -r $t
