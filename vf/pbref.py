"""Runs libprotobuf (an independent implementation) on encoded messages."""

import os
import struct

from .common import Inconclusive, sh
from .rt import HERE
from .schema import print_file


def available():
    return (os.path.exists('/usr/bin/protoc')
            and os.path.exists('/usr/include/google/protobuf/dynamic_message.h'))


def compile_tool(run):
    exe = os.path.join(run.dir('pbref'), 'pbref')
    r = sh(['g++', '-O1', '-w', '-std=c++17', os.path.join(HERE, 'c', 'pbref.cc'), '-o', exe,
            '-lprotobuf', '-lpthread'])
    if r.rc != 0:
        raise Inconclusive('pbref does not build: ' + r.err[-500:])
    return exe


def descriptor_set(log, files, maps=False):
    d = log.dir('protoc')
    names = []
    for fi in files:
        name = (fi.path or '') + fi.name + '.proto'
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(print_file(fi, maps))
        names.append(name)
    out = os.path.join(d, 'set.bin')
    r = sh(['protoc', '-I.', '-o', out] + names, cwd=d)
    if r.rc != 0:
        raise Inconclusive('protoc does not accept the schema: ' + r.err[-800:])
    return out


class Answer:
    def __init__(self, ok, unknown, dump, data):
        self.ok, self.unknown, self.dump, self.data = ok, unknown, dump, data


def run(log, exe, files, items):
    """items: (message, encoded bytes). Returns one Answer per item."""
    ds = descriptor_set(log, files)
    ops = os.path.join(log.dir('protoc'), 'ops.bin')
    out = os.path.join(log.dir('protoc'), 'out.bin')
    with open(ops, 'wb') as f:
        for msg, data in items:
            name = msg.full.encode()
            f.write(struct.pack('<I', len(name)) + name + struct.pack('<I', len(data)) + data)
    r = sh([exe, ds, ops, out], timeout=300)
    if r.rc != 0:
        raise Inconclusive(f'pbref failed with {r.rc}: {r.err[-300:]}')
    with open(out, 'rb') as f:
        d = f.read()
    p = 0
    res = []

    def blob():
        nonlocal p
        n = struct.unpack('<I', d[p:p + 4])[0]
        p += 4 + n
        return d[p - n:p]
    for _ in items:
        ok, unknown = struct.unpack('<BI', d[p:p + 5])
        p += 5
        res.append(Answer(bool(ok), unknown, blob(), blob()))
    return res
