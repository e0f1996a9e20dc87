#!/usr/bin/env python3
"""mkseed.py: helper to write a seed.  usage in python:
   mk(id, prop, [(file, old, new)], demo_py, needs, breaks)"""
import os, json, subprocess, tempfile, shutil
def mk(sid, prop, edits, demo, needs, breaks):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True)
    open(f'{d}/patch.diff', 'wb').write(diff)
    open(f'{d}/demo.py', 'w').write(demo)
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nset -e\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
