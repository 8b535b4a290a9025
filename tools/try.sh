#!/bin/bash
# tools/try.sh ID...: does the check of the bug's property catch it?
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 1
(cd /verif; ./run.py $p quick > /tmp/try-$id.txt 2>&1; echo "$id $p exit $? $(grep -c '^VIOL' /tmp/try-$id.txt)"; grep -a '^ERR' /tmp/try-$id.txt)
git -C /repo checkout -- .
done
