#!/usr/bin/env python3
"""python3 tools/seed.py [ID...]: (re)builds seeded/<id>/ from tools/seeds/<id>.py and verifies it.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...] and DEMO (Python source, exits non-zero
when the property is broken). Verification, in a scratch copy of /repo: the demo passes on the unchanged tree,
the patch applies, the stable tests pass with it and the demo fails; then the property's check is run on the
patched copy and its verdict recorded in seeded/RESULTS.txt (which no check reads).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def stable_ok(work, tmp):
    """Run the stable unit tests of the copy (without installing it)."""
    env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONHASHSEED='0',
               PATH=work + '/bin:/opt/venv/bin:' + os.environ['PATH'])
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider udapi 2>&1 | tail -5', work, env)
    ok = ' failed' not in r.stdout and 'passed' in r.stdout
    tests = os.path.join(tmp, 'tests')
    shutil.copytree(os.path.join(work, 'udapi/core/tests'), tests)
    with open(os.path.join(tests, 'external_tests.sh'), encoding='utf-8') as fh:
        for line in fh:
            if line.startswith('udapy '):
                ok = ok and sh(line, tests, env).returncode == 0
    r2 = sh('udapy read.Conllu files=udapi/core/tests/data/babinsky.conllu write.TextModeTrees color=1', work, env)
    return ok and r2.returncode == 0, r.stdout


def build(sid):
    spec = runpy.run_path(os.path.join(HERE, 'tools', 'seeds', sid + '.py'))
    out = os.path.join(HERE, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        work = os.path.join(tmp, 'repo')
        sh(f'git -C /repo worktree prune; git clone -q /repo {work}', '/')
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8') as fh:
            fh.write(spec['DEMO'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w', encoding='utf-8') as fh:
            fh.write('#!/bin/bash\n# run with cwd = the repository\nD=$(cd "$(dirname "$0")" && pwd)\n'
                     'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                     'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" SCRATCH="$T"\n'
                     'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                     f'{spec.get("ENV", "")}"$PY" "$D/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8') as fh:
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                      fh, indent=1, ensure_ascii=False)
            fh.write('\n')
        r0 = sh(f'bash {out}/demo.sh', work)
        for path, old, new in spec['EDITS']:
            full = os.path.join(work, path)
            with open(full, encoding='utf-8') as fh:
                s = fh.read()
            if s.count(old) != 1:
                return sid, 'EDIT-BROKEN', f'{path}: {s.count(old)} matches of {old[:50]!r}'
            with open(full, 'w', encoding='utf-8') as fh:
                fh.write(s.replace(old, new))
        d = sh('git diff', work)
        with open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8') as fh:
            fh.write(d.stdout)
        r1 = sh(f'bash {out}/demo.sh', work)
        ok, log = stable_ok(work, tmp)
        chk = sh(f'python3 {HERE}/check.py {spec["PROPERTY"]} --repo {work} --no-evidence', HERE)
        if r0.returncode:
            return sid, 'DEMO-FAILS-ON-CLEAN', r0.stdout + r0.stderr
        if not r1.returncode:
            return sid, 'DEMO-PASSES-WITH-BUG', r1.stdout
        if not ok:
            return sid, 'TESTS-FAIL', log
        caught = chk.returncode == 1 and f'VIOLATION property={spec["PROPERTY"]}' in chk.stdout
        line = chk.stdout.strip().split('\n')[0][:200]
        return sid, 'caught' if caught else 'MISSED', line
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'tools', 'seeds')) if f.endswith('.py'))
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(build, ids))
    for sid, verdict, info in res:
        print(f'{sid:28s} {verdict:22s} {info}')
    if not sys.argv[1:]:
        with open(os.path.join(HERE, 'seeded', 'RESULTS.txt'), 'w', encoding='utf-8') as fh:
            for sid, verdict, info in res:
                fh.write(f'{sid} {verdict} {info}\n')


main()
