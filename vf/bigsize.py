"""Workspaces, buffers, inputs and values of 2 GB and more (c/big.c)."""

import os

from . import common, rt
from .common import BuildError, Inconclusive, pbtools, sh

PROTO = '''syntax = "proto3";
package big;
message M {
  int32 a = 1;
  string s = 2;
  bytes b = 3;
  repeated int64 l = 4;
  repeated M ms = 5;
  repeated string ss = 6;
  repeated bytes bs = 7;
  oneof o { string os = 8; bytes ob = 9; }
  optional string ps = 10;
  optional bytes pb = 11;
  M m = 12;
}
'''
MAX = 0x7fffffff
SIZES = [MAX, MAX + 1, MAX + 8, 0xffffffff, 1 << 32, (1 << 32) + 5, (1 << 32) + 255, (1 << 33) + 4000]
ENCODED = '28 0807120568656c6c6f1a0378797a220c00ffffffffffffffffff0100'


def expected(kind, n):
    if kind == 'workspace':
        return [ENCODED, '5', '1 7 x']
    if kind == 'buffer':
        return [ENCODED, '0']
    return ['-4'] * 6


def observe(log, kinds):
    d = log.dir('big')
    with open(os.path.join(d, 'big.proto'), 'w') as f:
        f.write(PROTO)
    r = pbtools(['generate_c_source', '-o', '.', 'big.proto'], d)
    exe = os.path.join(d, 'big')
    if r.rc != 0:
        raise BuildError(f'generator failed on a valid schema: {r.err[-500:]}')
    r = sh(['gcc', '-std=gnu11', '-w', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I.',
            '-I' + os.path.join(common.REPO, 'lib/include'), os.path.join(rt.HERE, 'c', 'big.c'), 'big.c',
            os.path.join(common.REPO, 'lib/src/pbtools.c'), '-o', exe], d, timeout=300)
    if r.rc != 0:
        raise BuildError(f'generated code does not build: {r.err[:1000]}')
    for kind in kinds:
        sizes = SIZES[:6:2] if kind == 'strings' and not log.thorough else SIZES
        for n in sizes:
            r = sh([exe, kind, str(n)], d, env=rt.ENV, timeout=120)
            if r.timeout:
                raise Inconclusive(f'{kind} of {n} bytes timed out')
            got = [x.strip() for x in r.out.splitlines()]
            if 'nomap' in got:
                log.count(f'{kind} of 2 GB and more not mapped')
                continue
            log.case(('big', kind, n))
            log.count(f'{kind} of about 2 GB and more')
            if kind == 'input':
                ok = r.rc == 0 and got in ([['-5']] if n <= MAX else [[str(-c)] for c in (1, 2, 3, 5, 6, 7, 8)])
            else:
                ok = r.rc == 0 and got == expected(kind, n)
            if not ok:
                log.violation(f'{kind} of {n} bytes: {" / ".join(got[:6])} {rt.Crash(r.rc, r.err) if r.rc else ""}',
                              size=n, log=r.err[-3000:], schema=PROTO)
