#!/usr/bin/env python3
"""Checks that the toolchain the checks need is there, and parses every specification."""
import glob, os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.tla'))):
    r = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(VERIF, 'spec'),
                       capture_output=True, text=True)
    if r.returncode != 0:
        print(f, r.stdout[-1500:], r.stderr[-500:])
        bad = 1
sys.exit(bad)
