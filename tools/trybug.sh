#!/bin/bash
# trybug.sh ID [PROP...]: apply a planted bug to a scratch copy of /repo and run the checks against it
id=$1; shift
props="$@"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
W=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a ${BASE:-/repo} "$W/repo"
git -C "$W/repo" apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do (cd /verif && VERIF_REPO=$W/repo python3 check.py $p ${TIER:-quick} | grep -E 'VIOLATION|ERROR|held' | head -3 | sed "s/^/$id $p: /"); done
case "$W" in /tmp/trybug.*) rm -rf "$W";; esac
