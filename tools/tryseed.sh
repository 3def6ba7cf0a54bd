#!/bin/bash
# tryseed.sh id [check...]: apply a planted bug, run the property's check (or those named), undo
for id in "$1"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  shift; [ $# -eq 0 ] && set -- $p
  git -C /repo apply $d/patch.diff || exit 2
  for c in "$@"; do /verif/check.sh $c quick 2>&1 | sed "s/^/[$id $c] /" | cut -c1-260; done
  git -C /repo checkout -- .
done
