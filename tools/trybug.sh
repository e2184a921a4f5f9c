#!/bin/bash
# trybug.sh ID [PROP]: run the check of a seeded bug's property against it (applied to /repo and undone).
id="$1"; d=/verif/seeded/$id
p="${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"
git -C /repo apply "$d/patch.diff" || exit 2
( cd /verif && timeout 900 bash run.sh "$p" quick ) > /tmp/trybug_$id.log 2>&1
rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/trybug_$id.log) $(grep '^VIOLATION' /tmp/trybug_$id.log | head -2 | tr '\n' ' ')"
