#!/usr/bin/env python3
"""Builds the symbolic executor and warms the build directories; every check does this itself when needed."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.argv = ['check.py']
import check  # noqa: E402

check.build_symx()
for kind in ('ll', 'native'):
    out = os.path.join(check.BUILD, 'C14')
    gen = os.path.join(out, 'gen')
    os.makedirs(out, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(HERE, 'harness', 'gen.py'), 'C14', 'quick', gen], check=True, stdout=subprocess.DEVNULL)
    try:
        check.cargo_harness('C14', gen, kind, True)
    except (check.NoAnswer, check.Rejected) as e:
        print('warming %s failed: %s' % (kind, e))
print('ready')
