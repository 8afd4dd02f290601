#!/bin/bash
# Re-records the confirmed definitions from /repo's HEAD (run by hand after a confirmed "fix:" commit only).
set -e
cd "$(dirname "$0")/.."
git -C /repo archive HEAD tractor wise | tar -x -C contracts --wildcards 'tractor/*.py' 'tractor/mix.i' 'tractor/mp_fourier.i' 'tractor/emfit.i' 'tractor/*.c' 'wise/forcedphot.py' 'wise/unwise.py'
rm -f contracts/tractor/test_*.py contracts/tractor/setup-*.py
