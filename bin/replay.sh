#!/bin/bash
# bin/replay.sh FILE [plain|asan|dist|tsan]: builds the driver from /repo and re-runs the concrete cases of a replay file
cd "$(dirname "$0")/.." && exec python3 - "$@" <<'P'
import sys, tempfile, shutil, subprocess
sys.path.insert(0, 'bin'); sys.argv = ['check.py'] + sys.argv[1:]
import check
f = sys.argv[1]; fl = sys.argv[2] if len(sys.argv) > 2 else ('dist' if open(f).read().split('property ')[1][:3] in ('P04', 'P05', 'P06') else 'asan')
d = tempfile.mkdtemp()
try:
    check.protoc(d); drv = check.build_driver(d, fl); sys.exit(subprocess.call([drv, 'replay=' + f, 'tmp=' + d]))
finally: shutil.rmtree(d, ignore_errors=True)
P
