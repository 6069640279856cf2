#!/usr/bin/env python3-vt
"""replay.py PROPERTY SEED ITERATION: run one recorded execution of a native driver again"""
import shutil
import sys
import tempfile
import check
mod = check.load_props(sys.argv[1])
work = tempfile.mkdtemp(prefix='vc-replay-')
d = check.Driver(mod.DRIVER, work)
d.build()
bad, txt, _ = d.run(int(sys.argv[2]), 1, sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] else None)
print(txt)
shutil.rmtree(work)
sys.exit(1 if bad else 0)
