"""Runs in the code under test: generates C source for a list of jobs
(cwd, input files, import paths, output directory)."""

import json
import os
import sys

from pbtools.c_source import generate_files

out = []
with open(sys.argv[1]) as f:
    jobs = json.load(f)
target = os.path.abspath(sys.argv[2])
for cwd, infiles, paths, outdir in jobs:
    os.chdir(cwd)
    try:
        generate_files(infiles, paths, outdir)
    except Exception as e:
        out.append(f'{type(e).__name__}: {e}')
    else:
        out.append(None)
with open(target, 'w') as f:
    json.dump(out, f)
