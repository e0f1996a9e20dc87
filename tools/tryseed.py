#!/usr/bin/env python3
"""tryseed.py ID... [--notests] [--j N]: confirm planted changes (scratch use
only).  Each is applied to a private copy of /repo, mounted over /repo in a
mount namespace of its own: build, demo, stable tests, the property's check."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(sid, tests, tmp):
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(f'{d}/meta.json'))
    out = {}
    out['demo_clean'] = sh(f'bash {d}/demo.sh', cwd='/repo').returncode
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode:
        return {'apply': r.stderr}
    b = sh('bash /opt/vp/build.sh')
    out['build'] = b.returncode
    r = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
    out['demo_patched'] = r.returncode
    out['demo_out'] = (r.stdout + r.stderr)[-200:]
    if tests:
        sh(f'bash /opt/vp/test.sh {tmp}/ts.json')
        a = json.load(open(f'{tmp}/ts.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        out['tests_broken'] = sorted(
            set(base['stable']) - set(a['passed']))[:3]
    c = sh(f'VERIF_EVIDENCE={tmp} python3 {V}/check.py {meta["property"]}',
           cwd=V)
    out['check'] = c.returncode
    out['check_out'] = c.stdout[-500:] + c.stderr[-300:]
    out['ok'] = out['demo_clean'] == 0 and out['demo_patched'] != 0 and \
        not out.get('tests_broken') and out['build'] == 0
    return out


def one(sid):
    tmp = tempfile.mkdtemp(prefix='ts.', dir='/tmp')
    try:
        sh(f'cp -a /repo {tmp}/repo && mkdir {tmp}/u {tmp}/wk')
        tests = '--notests' not in sys.argv
        r = sh(f'unshare -m bash -c "mount --bind {tmp}/repo /repo && '
               f'mount -t overlay overlay -o lowerdir=/opt/venv,'
               f'upperdir={tmp}/u,workdir={tmp}/wk /opt/venv && '
               f'python3 {__file__} --inside {sid} {int(tests)} {tmp}"')
        return r.stdout or r.stderr
    finally:
        shutil.rmtree(tmp)


if sys.argv[1] == '--inside':
    print(json.dumps(inside(sys.argv[2], sys.argv[3] == '1', sys.argv[4]),
                     indent=1))
else:
    ids = [s for i, s in enumerate(sys.argv[1:], 1) if not s.startswith('--')
           and sys.argv[i - 1] != '--j']
    j = int(sys.argv[sys.argv.index('--j') + 1]) if '--j' in sys.argv else 3
    with ThreadPoolExecutor(j) as ex:
        for s, r in zip(ids, ex.map(one, ids)):
            print(s, r, flush=True)
