#!/usr/bin/env python3
"""Apply behaviour-preserving rewrites (tools/refactors/*.py: EDITS) to a scratch copy; every check must stay quiet.

python3 tools/refactor.py [NAME...] [--props C01,C02]
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
props = next((a[8:].split(',') for a in sys.argv[1:] if a.startswith('--props=')), None)
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
props = props or [c['property'] for c in man['checks']]
names = args or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'tools', 'refactors', '*.py')))
bad = 0


def one(job):
    d, prop = job
    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--repo', d, '--no-evidence'],
                       capture_output=True, text=True)
    return prop, r.returncode, r.stdout + r.stderr


for name in names:
    spec = runpy.run_path(os.path.join(HERE, 'tools', 'refactors', name + '.py'))
    d = tempfile.mkdtemp(prefix='refac')
    shutil.copytree('/repo', d, dirs_exist_ok=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    for path, old, new in spec['EDITS']:
        p = os.path.join(d, path)
        s = open(p, encoding='utf-8').read()
        assert s.count(old) == 1, (name, path, s.count(old), old[:60])
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    only = spec.get('PROPS')
    if '--test' in sys.argv:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'unittest', 'discover', '-q'], cwd=d, capture_output=True, text=True)
        print(name, 'tests', r.stderr.strip().splitlines()[-1:])
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, [(d, q) for q in props]))
    noisy = [(q, rc, out) for q, rc, out in res if rc]
    bad += bool(noisy)
    print(f'{name:32} {"quiet" if not noisy else "NOISY " + ",".join(q for q, _, _ in noisy)}', flush=True)
    for q, rc, out in noisy:
        print('     ', q, rc, out[:600])
    shutil.rmtree(d)
sys.exit(bad)
