#!/bin/bash
# all.sh: every check on /repo, 6 at a time
cd "$(dirname "$0")/.."
unset VERIF_REPO VERIF_BUILD
python3 -c "
from sa.registry import CHECKS
print('\n'.join(CHECKS))" | xargs -P 6 -I{} bash -c 'python3 check.py {} > /tmp/all.{}.log 2>&1; r=$?; echo "{} $r $(tail -1 /tmp/all.{}.log | cut -c1-120)"'
