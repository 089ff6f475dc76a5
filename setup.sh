#!/bin/bash
# Nothing to install: checks build what they need from /repo's working tree.
# Building once here shows that the framework compiles, and warms Go's cache.
set -e
cd "$(dirname "$0")"
python3 -c 'import check'
python3 - <<'P'
import os, sys
sys.argv = ["check.py"]
import check, shutil
out = os.path.join(check.VERIF, "out", "setup")
os.makedirs(out, exist_ok=True)
try:
    check.build(out, "default", "cmd/monitor")
    check.build(out, "generic", "cmd/monitor")
finally:
    shutil.rmtree(out, ignore_errors=True)
print("setup ok")
P
