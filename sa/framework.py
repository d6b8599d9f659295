"""Check driver: findings, known findings, evidence, exit codes."""
import json
import os
import pickle
import select
import sys
import time
import traceback

from .project import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, path, line, construct, msg, trace=()):
        self.rule, self.path, self.line, self.construct, self.msg = rule, path, line, construct, msg
        self.trace = list(trace)

    @property
    def key(self):
        """Identity by rule and construct, not by line number."""
        return f'{self.rule}|{self.construct}'

    def text(self):
        return f'{self.path}:{self.line}: [{self.rule}] {self.construct}: {self.msg}'


class Ctx:
    """What one run of one rule set records."""

    def __init__(self, prop, project, tier):
        self.prop, self.p, self.tier = prop, project, tier
        self.findings = []
        self.counts = {}
        self.samples = []
        self.undetermined = []
        self.obligations = 0
        self.discharged = 0
        self.notes = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def undet(self, what):
        self.obligations += 1
        if len(self.undetermined) < 200:
            self.undetermined.append(what)
        self.count('undetermined')

    def parallel(self, jobs, workers=None):
        """Run the jobs (functions without arguments that record in this object) in processes of their own, and record what they did."""
        jobs = list(jobs)
        workers = workers or min(len(jobs), os.cpu_count() or 1)
        running = {}
        results = [None] * len(jobs)
        pending = list(enumerate(jobs))[::-1]
        sys.stdout.flush()
        sys.stderr.flush()
        while pending or running:
            while pending and len(running) < workers:
                i, job = pending.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self._child(job, w)
                os.close(w)
                running[r] = i, pid
            for r in select.select(list(running), [], [])[0]:
                i, pid = running.pop(r)
                with os.fdopen(r, 'rb') as fh:
                    data = fh.read()
                os.waitpid(pid, 0)
                results[i] = pickle.loads(data) if data else {'error': 'the process ended early'}
        errors = []
        for got in results:
            if 'error' in got:
                errors.append(got['error'])
                continue
            for f in got['findings']:
                if f.key not in {g.key for g in self.findings}:
                    self.findings.append(f)
            for k, n in got['counts'].items():
                self.count(k, n)
            self.rules.update(got['rules'])
            self.samples.extend(got['samples'][:3])
            self.undetermined.extend(got['undetermined'][:200 - len(self.undetermined)])
            self.notes.extend(got['notes'])
            self.obligations += got['obligations']
            self.discharged += got['discharged']
        for e in errors:
            self.undet(f'a part of the analysis stopped early: {e}')
            print(f'INCOMPLETE property={self.prop}: a part of the analysis stopped early: {e}')
        if errors and not self.findings and not self.discharged:
            raise AnalysisBroken(errors[0])

    def _child(self, job, w):
        self.findings, self.counts, self.samples, self.undetermined, self.notes, self.rules = [], {}, [], [], [], {}
        self.obligations = self.discharged = 0
        try:
            job()
        except Exception as err:    # pylint: disable=broad-except
            traceback.print_exc()
            self.undet(f'{type(err).__name__}: {err}')
            if not self.findings and not self.discharged:
                self.error = f'{type(err).__name__}: {err}'
        try:
            with os.fdopen(w, 'wb') as fh:
                got = {k: getattr(self, k) for k in
                       ('findings', 'counts', 'samples', 'undetermined', 'notes', 'rules', 'obligations', 'discharged')}
                pickle.dump({'error': self.error} if hasattr(self, 'error') else got, fh)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(0)

    def find(self, rule, path, line, construct, msg, trace=()):
        self.obligations += 1
        f = Finding(rule, path, line, construct, msg, trace)
        if f.key not in {g.key for g in self.findings}:
            self.findings.append(f)

    def check(self, rule, good, path, line, construct, msg):
        if good:
            self.ok(f'{rule}: {construct}')
        else:
            self.find(rule, path, line, construct, msg)

    def floor(self, name, minimum):
        n = self.counts.get(name, 0)
        if n < minimum and self.undetermined:
            self.notes.append(f'{name}: only {n} instances, because of what is undetermined')
        elif n < minimum:
            raise AnalysisBroken(f'{name}: {n} instances, expected at least {minimum}')


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as fh:
        return json.load(fh)['findings']


def run_check(prop, run, repo, tier, explanation, technique, write=True):
    """Run one property's rules; write evidence; print verdict; return exit code."""
    t0 = time.time()
    project = Project(repo)
    ctx = Ctx(prop, project, tier)
    try:
        run(ctx)
    except AnalysisBroken:
        if not ctx.findings:
            raise
    except Exception as err:    # what was decided before stays decided
        traceback.print_exc()
        ctx.undet(f'the analysis stopped early: internal error ({type(err).__name__}: {err})')
        print(f'INCOMPLETE property={prop}: the analysis stopped early: internal error')
        if not ctx.findings and not ctx.discharged:
            raise AnalysisBroken('internal error of the checker') from err
    known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'known']
    known_keys = {k['key']: k for k in known}
    new = [f for f in ctx.findings if f.key not in known_keys]
    old = [f for f in ctx.findings if f.key in known_keys]
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {f.path}:{f.line} {known_keys[f.key]["what"]}')
    coverage = {
        'explanation': explanation + f' This run: {len(project.modules)} modules, {len(project.classes)} classes, '
                       f'{len(project.functions)} functions parsed; {ctx.obligations} obligations, {ctx.discharged} '
                       f'discharged, {len(ctx.findings)} findings ({len(old)} known), '
                       f'{ctx.counts.get("undetermined", 0)} undetermined (not reported).',
        'technique': technique,
        'rules': ctx.rules,
        'obligations': ctx.obligations,
        'discharged': ctx.discharged,
        'counts': ctx.counts,
        'samples': ctx.samples[:12],
        'undetermined': ctx.undetermined[:60],
        'findings': [f.text() for f in ctx.findings],
        'known_findings': [f.text() for f in old],
        'notes': ctx.notes,
    }
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': coverage,
          'assumptions': ctx.notes[:20], 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not write:
        for f in new:
            print(f.text())
        if new:
            print(f'VIOLATION property={prop} replay=-')
        return 1 if new else 0
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    if new:
        rdir = os.path.join(VERIF, 'evidence')
        rpath = os.path.join(rdir, f'{prop}.replay.txt')
        with open(rpath, 'w', encoding='utf-8') as fh:
            fh.write(f'property {prop}: {len(new)} violation(s) found by static analysis of {repo}\n')
            fh.write(f'reproduce: cd /verif && python3 check.py {prop}\n\n')
            for f in new:
                fh.write(f.text() + '\n')
                for t in f.trace:
                    fh.write('    ' + str(t) + '\n')
        for f in new:
            print(f.text())
        print(f'VIOLATION property={prop} replay=evidence/{prop}.replay.txt')
        return 1
    print(f'{prop}: held on {ctx.obligations} obligations ({ctx.discharged} discharged, '
          f'{ctx.counts.get("undetermined", 0)} undetermined, {len(old)} known findings), {ev["wall_s"]} s')
    return 0
