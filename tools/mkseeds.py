#!/usr/bin/env python3
"""Writes /verif/seeded from the list below: mkseeds.py [ID...]."""
import json, os, shutil, stat, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
RT, GEN, PAR = 'lib/src/pbtools.c', 'pbtools/c_source/__init__.py', 'pbtools/parser.py'
S = []

HEAD = r'''#!/bin/bash
# Exit 0: as it should be. Run with the repository as working directory.
set -e
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH=$repo PYTHONDONTWRITEBYTECODE=1
tool() { "$PY" -m pbtools "$@"; }
generate() { tool generate_c_source -I "$d" -o "$d" "$@"; }
build() { "${CC:-gcc}" -w -g $FLAGS -I"$repo/lib/include" -I"$d" "$d"/*.c "$repo/lib/src/pbtools.c" -o "$d/demo" $LIBS; }
cd "$d"
'''


def seed(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, HEAD + demo.lstrip('\n')))


def cdemo(proto, main, flags='-O1 -fsanitize=address,undefined -fno-sanitize-recover=all', libs='', before='', after='./demo'):
    proto = proto.replace('"proto3";', '"proto3"; package t;')
    return (f"cat > t.proto <<'E'\n{proto.strip()}\nE\n{before}generate t.proto\ncat > main.c <<'E'\n"
            '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <limits.h>\n#include "t.h"\n'
            'static uint8_t workspace[65536] __attribute__((aligned(16)));\n'
            'static uint8_t encoded[65536];\n'
            '#define CHECK(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)\n'
            f"{main.strip()}\nE\nFLAGS='{flags}' LIBS='{libs}' build\n{after}\n")


exec(open(os.path.join(V, 'tools', 'seeds.txt')).read())

if __name__ == '__main__':
    want = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in S:
        if want and id not in want:
            continue
        t = tempfile.mkdtemp()
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {t}', shell=True, check=True)
        subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=t, check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=t, check=True, capture_output=True, text=True).stdout
        shutil.rmtree(t)
        d = os.path.join(V, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        p = os.path.join(d, 'demo.sh')
        open(p, 'w').write(demo)
        os.chmod(p, 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(id)
