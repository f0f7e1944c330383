#!/bin/bash
# try.sh BUG CHECK...: apply a planted bug to /repo, run the checks, undo
B=$1; shift
git -C /repo apply /verif/seeded/$B/patch.diff || exit 2
for c in "$@"; do timeout 900 python3 /verif/checks/$c.py 2>&1 | grep -v '^KNOWN' | cut -c1-220 | tail -n 6; done
git -C /repo checkout -q -- .
