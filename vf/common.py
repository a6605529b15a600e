"""Context of one check run: seed, tier, scratch space, evidence, verdict."""

import atexit
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JOBS = 8


class Inconclusive(Exception):
    pass


class Log:
    """What one run, or one job of it, observed."""

    def __init__(self, prop, tier, seed, scratch, known):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = scratch
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_hit = []
        self.known = known
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *parts):
        return random.Random(f'{self.prop}/{self.seed}/' + '/'.join(map(str, parts)))

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, sample=None):
        """One evaluated case; key identifies it among the non-trivial ones."""
        self.evaluations += 1
        if key is not None:
            if not isinstance(key, bytes):
                key = repr(key).encode()
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, **details):
        """Records a violation. Listed known findings are matched on their
        key, which names one specific failing input or mechanism."""
        key = details.pop('key', None)
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        if len(self.violations) < 20:
            self.violations.append((what, details))

    def check(self, ok, what, **details):
        if not ok:
            self.violation(what, **details)
        return ok

    def merge(self, other):
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        for s in other.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, n in other.counters.items():
            self.count(k, n)
        self.violations += other.violations
        for k in other.known_hit:
            if k not in self.known_hit:
                self.known_hit.append(k)
        self.notes += other.notes


def run_job(args):
    prop, tier, seed, scratch, known, fn, index, spec = args
    log = Log(prop, tier, seed, os.path.join(scratch, f'job{index}'), known)
    os.makedirs(log.scratch, exist_ok=True)
    try:
        fn(log, spec)
    except BuildError as e:
        log.violation(f'{e}', job=repr(spec))
    except Inconclusive as e:
        log.notes.append(f'job {spec!r}: {e}')
    except Exception:
        log.notes.append(f'job {spec!r}: ' + traceback.format_exc()[-1500:])
    shutil.rmtree(log.scratch, True)
    return log


class BuildError(Exception):
    """The generator or the compiler failed on a supported schema."""


class Run(Log):
    """One run of one check."""

    def __init__(self, prop, level='exploration'):
        scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
        tier = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
        super().__init__(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1), scratch, load_known(prop))
        self.level = level
        self.start = time.time()
        self.rule = ''
        self.assumptions = []
        self.failed_jobs = 0
        os.chmod(self.scratch, 0o700)
        me = os.getpid()

        def clean():
            if os.getpid() == me:
                shutil.rmtree(scratch, True)
        atexit.register(clean)

        def stop(sig, frame):
            sys.exit(2)
        signal.signal(signal.SIGTERM, stop)

    def jobs(self, fn, specs):
        """Runs fn(log, spec) for every spec, in parallel processes. fn must
        be a module level function."""
        args = [(self.prop, self.tier, self.seed, self.scratch, self.known, fn, i, s)
                for i, s in enumerate(specs)]
        ctx = multiprocessing.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(JOBS, mp_context=ctx) as pool:
            for log in pool.map(run_job, args):
                self.merge(log)
                if log.notes:
                    self.failed_jobs += 1

    def finish(self, min_events=1):
        rc = 0
        for key in self.known_hit:
            print(f'KNOWN-FINDING: property={self.prop} {key}: {self.known[key]}')
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            for i, (what, details) in enumerate(self.violations[:5]):
                path = os.path.join(d, f'{self.prop}-{self.tier}-{self.seed}-{i}.json')
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'what': what,
                               'rerun': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check {self.prop}',
                               'details': details}, f, indent=1, default=repr)
                print(f'VIOLATION property={self.prop} replay={path}')
                print(f'  {what}'[:1000])
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': [s if len(str(s)) < 1500 else str(s)[:1500] for s in self.samples],
            'observed': dict(sorted(self.counters.items())),
        }
        ev = {'property': self.prop, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': coverage, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.start, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for n in self.notes[:5]:
            print(f'NOTE: {n}')
        if rc == 0 and self.failed_jobs:
            print(f'INCONCLUSIVE property={self.prop}: {self.failed_jobs} jobs gave no answer')
            rc = 2
        elif rc == 0 and (self.evaluations < min_events or len(self.distinct) < 1):
            print(f'INCONCLUSIVE property={self.prop}: only {self.evaluations} cases observed')
            rc = 2
        print(f'{self.prop}: {"violated" if rc == 1 else "held" if rc == 0 else "inconclusive"}: '
              f'{self.evaluations} cases, {len(self.distinct)} distinct, '
              f'{len(self.violations)} violations, {ev["wall_s"]} s')
        sys.stdout.flush()
        return rc


def load_known(prop):
    path = os.path.join(VERIF, 'known-findings.txt')
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                head, text = line[len('finding: '):].split(' ', 1)
                assert head == head.strip() and head.startswith('property='), line
                if head == f'property={prop}':
                    key, what = text.split(' ', 1)
                    known[key.rstrip(':')] = what
    return known


class Result:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def sh(cmd, cwd=None, env=None, timeout=300, input=None, binary=False):
    e = dict(os.environ)
    for k in ('VERIF_SEED', 'VERIF_TIER'):
        e.pop(k, None)
    e['LC_ALL'] = 'C.UTF-8'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired as x:
        return Result(-1, b'', x.stderr or b'', True)
    out, err = p.stdout, p.stderr
    if not binary:
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    return Result(p.returncode, out, err)


def pbtools(args, cwd, env=None, timeout=120, path_first=True):
    """Runs the real command line tool from the repository."""
    e = {'PYTHONPATH': REPO}
    e.update(env or {})
    return sh([PY, '-m', 'pbtools'] + args, cwd=cwd, env=e, timeout=timeout)
