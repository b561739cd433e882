#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter and libraries the simulator
needs are present."""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c',
                    'import sys, numpy, pandas, h5py, paramiko; assert sys.version_info >= (3, 12)'])
sys.exit(r.returncode)
