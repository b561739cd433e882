#!/usr/bin/env python3
"""Determinism of the simulator: the same seeds give the same event logs in other processes, under another hash seed,
with another number of workers and batch layout.   selftest.py [PROPERTY...]"""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from scen import registry  # noqa: E402

bad = 0
for p in sys.argv[1:] or sorted(registry.MODULES):
    logs = []
    with tempfile.TemporaryDirectory() as d:
        for hs, w in (('0', 4), ('12345', 4), ('7', 3)):
            f = os.path.join(d, 'h')
            r = subprocess.run([sys.executable, 'run.py', p, '--runs', '240', '--workers', str(w), '--hashes', f,
                                '--hashseed', hs], cwd=V, stdout=subprocess.PIPE, text=True)
            logs.append((r.returncode, open(f).read()))
    n = min(len(x[1].splitlines()) for x in logs)
    same = all(x[0] == 0 and x[1].splitlines()[:n] == logs[0][1].splitlines()[:n] for x in logs)
    print(f'{p}: {"identical" if same else "DIFFERENT"} event logs over {n} runs x 3')
    bad += not same
sys.exit(bool(bad))
