#!/bin/bash
# Reverts each fix: commit in a scratch copy and runs the checks named for it in known_findings.json.
# usage: revert_fixes.sh [commit...]   (CHECK_ARGS: further arguments of check.py)
cd "$(dirname "$0")/.."
W=/tmp/revert-fix
list=$(python3 -c "
import json
for l in json.load(open('known_findings.json'))['fixed']:
    w=l.split(); print(w[1].split('=')[1]+':'+w[2])")
for x in $list; do
  p=${x%%:*}; h=${x##*:}
  [ -n "$1" ] && [[ " $* " != *" $h "* ]] && continue
  rm -rf /tmp/revert-fix; git clone -q /repo $W
  if (cd $W && git -c user.name=x -c user.email=x@x revert --no-edit -n $h > /dev/null 2>&1); then
    MISFIT_REPO=$W /opt/venv/bin/python check.py $p $CHECK_ARGS > $W.log 2>&1; echo "$p $h exit $? $(grep -m1 -o 'VIOLATION.*' $W.log) | $(git -C /repo log -1 --format=%s $h)"
  else
    echo "$p $h conflicts | $(git -C /repo log -1 --format=%s $h)"
  fi
done
rm -rf /tmp/revert-fix
