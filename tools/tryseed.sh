#!/bin/bash
# tryseed.sh ID [PROP]: apply a planted bug, run its check, undo it
s=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
t=$(date +%s)
bash /verif/tools/run.sh $p > /tmp/try.$1.$p 2>&1; rc=$?
echo "$1 $p rc=$rc $(( $(date +%s)-t ))s: $(grep VIOLATION /tmp/try.$1.$p) $(grep -c 'failed obl' /tmp/try.$1.$p)"
