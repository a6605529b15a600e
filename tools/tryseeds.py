#!/usr/bin/env python3
"""tryseeds.py [-j N] [ID...]: builds, tests and demonstrates each planted bug
in a scratch copy of /repo and runs the check of its property on it. Results in
/tmp/seeds.log."""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def passed(path):
    with open(path) as f:
        x = json.load(f)
    for k in ('passed', 'stable', 'tests'):
        if k in x:
            return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v in ('passed', True)}
    return {n for n, v in x.items() if v == 'passed'}


def worker(id):
    w = os.path.join(base, threading.current_thread().name)
    repo = os.path.join(w, 'repo')
    if not os.path.exists(w):
        os.makedirs(os.path.join(w, 'vp'))
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        shutil.rmtree(os.path.join(repo, 'lib', 'build'), True)
        subprocess.run(['cp', '-a', V, os.path.join(w, 'verif')], check=True)
        for n in ('common.sh', 'build.sh', 'test.sh'):
            with open('/opt/vp/' + n) as f:
                text = f.read().replace('/opt/vp/common.sh', w + '/vp/common.sh').replace('/repo', repo)
            with open(os.path.join(w, 'vp', n), 'w') as f:
                f.write(text)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
    s = os.path.join(V, 'seeded', id)
    prop = json.load(open(os.path.join(s, 'meta.json')))['property']
    demo = os.path.join(w, 'demo.sh')
    shutil.copy(os.path.join(s, 'demo.sh'), demo)
    clean = run(['bash', demo], 300, repo)[0]
    if run(['git', 'apply', os.path.join(s, 'patch.diff')], 60, repo)[0]:
        return f'{id}: does not apply'
    blame = [l for l in open(os.path.join(s, 'patch.diff')) if l.startswith('-') and not l.startswith('---')]
    b = run(['bash', w + '/vp/build.sh'], 300)[0]
    run(['bash', w + '/vp/test.sh', w + '/out.json'], 600)
    missing = sorted(passed('/opt/vp/BASELINE.json') - passed(w + '/out.json'))
    patched, out = run(['bash', demo], 300, repo)
    t = time.time()
    c, o = run([w + '/verif/check', prop, 'quick'], 900, env={'VF_REPO': repo})
    n = o.count(f'VIOLATION property={prop}')
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
    return (f'{id} {prop} build={b} tests_missing={len(missing)} {missing[:3] if missing else ""} demo={clean}/{patched} '
            f'check={c} violations={n} {time.time() - t:.0f}s minus={len(blame)}')


if __name__ == '__main__':
    args = sys.argv[1:]
    jobs = 1
    if args[:1] == ['-j']:
        jobs, args = int(args[1]), args[2:]
    ids = args or sorted(os.listdir(os.path.join(V, 'seeded')))
    ids = [i for a in ids for i in sorted(os.listdir(os.path.join(V, 'seeded'))) if i == a or i.startswith(a + '-')]
    base = tempfile.mkdtemp(prefix='tryseeds-')
    try:
        with concurrent.futures.ThreadPoolExecutor(jobs, thread_name_prefix='w') as pool:
            for line in pool.map(worker, ids):
                print(line, flush=True)
                with open('/tmp/seeds.log', 'a') as f:
                    f.write(line + '\n')
    finally:
        shutil.rmtree(base, True)
