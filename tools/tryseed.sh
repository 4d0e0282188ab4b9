#!/bin/bash
# usage: tryseed.sh CHECK seedid : run check against scratch copy with patch
rm -rf /tmp/ts_$2; cp -a /repo /tmp/ts_$2; git -C /tmp/ts_$2 apply /verif/seeded/$2/patch.diff || exit 9
cd /verif; VERIF_REPO=/tmp/ts_$2 python3 bin/check.py $1 2>&1 | tail -4; rm -rf /tmp/ts_$2
