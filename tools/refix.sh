#!/bin/sh
# Undo each repaired defect in a scratch copy: the check of its property must report it again.
RC=${RC:-/verif/bin/ratuscheck}
grep '^fixed:' /verif/known-findings.txt | sed 's/fixed: property=\([^ ]*\) \([^ ]*\) .*/\1 \2/' | while read p h; do
  rm -rf /tmp/refix; mkdir /tmp/refix; git -C /repo archive HEAD | tar x -C /tmp/refix
  if ! git -C /repo diff $h $h~1 | (cd /tmp/refix && patch -p1 -s -f >/dev/null 2>&1); then echo "$p $h: does not apply"; continue; fi
  (cd /tmp/refix && go build ./... 2>&1 | head -3)
  n=$($RC -repo /tmp/refix check $p 2>&1 | grep -c '^   ')
  echo "$p $h: $n"
done
rm -rf /tmp/refix
