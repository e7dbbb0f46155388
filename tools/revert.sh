#!/bin/bash
# revert.sh COMMIT CHECK... : run checks on a scratch clone of /repo with one fix reverted
D=$(mktemp -d /tmp/rev-XXXXXX); git clone -q /repo $D/r; c=$1; shift
git -C $D/r -c user.email=a@b -c user.name=x revert -n $c >/dev/null 2>&1 || { echo "revert of $c conflicts"; rm -rf "$D"; exit 9; }
for k in "$@"; do echo "--- revert $(git -C /repo log -1 --format='%h %s' $c | cut -c1-80): $k"; VP_REPO=$D/r timeout 900 python3 /verif/tools/run_check.py $k | tail -4 | cut -c1-300; done
rm -rf "$D"
