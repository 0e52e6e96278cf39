#!/bin/bash
# tryseed <id>...: runs the quick check of the property of each planted change with the change applied to a scratch copy of /repo
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  rm -rf /tmp/ts; git clone -q /repo /tmp/ts && git -C /tmp/ts apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s); (cd /verif && VERIF_REPO=/tmp/ts ./check $P quick > /tmp/ts.out 2>&1); r=$?
  echo "$id $P exit=$r $(( $(date +%s) - t ))s $(grep -c ^VIOLATION /tmp/ts.out) violations: $(grep -m1 ^VIOLATION /tmp/ts.out | cut -c1-230)"
done
rm -rf /tmp/ts
