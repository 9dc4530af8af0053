#!/bin/bash
# trycopy.sh ID [PROPERTY...]: like trybug.sh, but on copies of /verif and /repo, so that both can be used meanwhile
ID=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
W=/tmp/trycopy
mkdir -p $W/repo $W/verif
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; mkdir -p $W/repo; (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C $W/repo; }
(cd $W/repo && patch -p1 -s < /verif/seeded/$ID/patch.diff) || exit 2
for d in check.py lib spec harness/src harness/Cargo.toml harness/Cargo.lock harness/build.rs known-findings.txt; do
  [ -e /verif/$d ] && { rm -rf $W/verif/$d; mkdir -p $(dirname $W/verif/$d); cp -r /verif/$d $W/verif/$d; }
done
sed -i "s#\"/repo\"#\"$W/repo\"#" $W/verif/harness/Cargo.toml
for p in $P; do
  s=$(date +%s)
  python3 $W/verif/check.py $p > $W/log 2>&1; r=$?
  echo "$ID $p exit $r $(( $(date +%s) - s )) s: $(grep -v '^\[' $W/log | grep -v KNOWN-FINDING | head -1 | cut -c1-150)"
done
