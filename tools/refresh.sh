#!/bin/bash
# refresh.sh: rebase planted bugs on /repo's HEAD
for d in /verif/seeded/*/; do
  if ! git -C /repo apply --check $d/patch.diff 2>/dev/null; then
    W=/tmp/sr/refresh; rm -rf $W; git clone -q /repo $W
    if (cd $W && patch -s -p1 --no-backup-if-mismatch < $d/patch.diff); then git -C $W diff > $d/patch.diff; echo "refreshed $d"; else echo "FAILED $d"; fi
    rm -rf $W
  fi
done
