#!/bin/bash
# try.sh [PROP] DIR...   apply each seeded change to /repo, run the check of its property, undo it
for d in "$@"; do
  d=$(readlink -f $d)
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || continue
  out=$(cd /verif && ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$(basename $d) $p rc=$rc $(echo "$out" | tail -2 | tr '\n' ' ' | cut -c1-220)"
done
