#!/bin/bash
# trybug.sh ID [PROPERTY...]: runs checks against a planted bug
ID=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
for p in $P; do
  s=$(date +%s)
  python3 /verif/check.py $p > /tmp/trybug.log 2>&1; r=$?
  echo "$ID $p exit $r $(( $(date +%s) - s )) s: $(grep -v '^\[' /tmp/trybug.log | head -1 | cut -c1-150)"
done
git -C /repo checkout -- .
