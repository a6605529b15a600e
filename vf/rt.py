"""Builds the driver for a schema set and runs operations in it."""

import os
import struct
import subprocess
import threading

from . import common, glue
from .common import BuildError, Inconclusive, sh, pbtools
from .schema import print_file

HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ['-g', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all']
WRAP = ['-DVF_WRAP', '-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=free',
        '-Wl,--wrap=strdup']
FLAVORS = {
    'gsan': ['gcc', '-O1', '-fsanitize=address,undefined'] + SAN + WRAP,
    'csan': ['clang', '-O1', '-fsanitize=address,undefined',
             '-fno-sanitize=function'] + SAN,
    'fuzz': ['clang', '-O1', '-fsanitize=fuzzer,address,undefined', '-DVF_FUZZ',
             '-fno-sanitize=function'] + SAN,
    'msan': ['clang', '-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins'] + SAN,
    'tsan': ['gcc', '-O1', '-fsanitize=thread', '-g'],
    'gcc-O0': ['gcc', '-O0'], 'gcc-O1': ['gcc', '-O1'], 'gcc-O2': ['gcc', '-O2'],
    'gcc-O3': ['gcc', '-O3', '-march=native'], 'gcc-Os': ['gcc', '-Os'],
    'gcc-lto': ['gcc', '-O2', '-flto'],
    'gcc-c11': ['gcc', '-O2', '-std=gnu11', '-fno-common', '-funsigned-char'],
    'clang-O0': ['clang', '-O0'], 'clang-O1': ['clang', '-O1'], 'clang-O2': ['clang', '-O2'],
    # 32-bit targets, without a C library (c/m32) and with traps instead of the
    # sanitizer runtime; every buffer ends at an inaccessible page.
    'm32': ['gcc', '-O1', '-m32', '-DVF_M32', '-D_Thread_local=', '-ffreestanding', '-nostdlib', '-nostdinc', '-static',
            '-fno-pie', '-no-pie', '-fno-stack-protector', '-fno-tree-loop-distribute-patterns', '-msse2',
            '-mfpmath=sse', '-msseregparm', '-fsanitize=undefined', '-fsanitize-trap=all', '-g',
            '-I' + os.path.join(HERE, 'c', 'm32'), os.path.join(HERE, 'c', 'm32', 'libc.c')],
    'clang-O3': ['clang', '-O3', '-march=native'], 'clang-Os': ['clang', '-Os'], 'clang-Oz': ['clang', '-Oz'],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:'
                    'allocator_may_return_null=1:quarantine_size_mb=16:max_free_fill_size=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:history_size=4',
}

MON = {1: 'wrote before the workspace', 2: 'wrote outside the encode buffer',
       4: 'message memory outside the workspace', 8: 'misaligned message memory',
       16: 'overlapping message memory', 32: 'encode changed the message',
       64: 'repeated encode differs', 128: 'decode changed its input', 256: 'heap allocation in the library',
       512: 're-encoding the decoded message differs', 1024: 'decoded message depends on the input buffer',
       2048: 'encode wrote to the workspace', 4096: 'impossible result code or length',
       8192: 'result differs when used together with other messages'}
PURE = 32 | 64 | 128 | 1024 | 2048
MEMORY = 1 | 2 | 4 | 8 | 16 | 256 | 4096


def mon_text(mon):
    return ', '.join(t for b, t in MON.items() if mon & b)


def s32(x):
    return x - (1 << 32) if x >> 31 else x


GCC_INCLUDE = subprocess.run(['gcc', '-print-file-name=include'], capture_output=True, text=True).stdout.strip()


class Unit:
    """A schema set with its generated code."""

    count = 0
    lock = threading.Lock()

    def __init__(self, run, files, name=None, only=None, extra=None):
        with Unit.lock:
            Unit.count += 1
            self.name = name or f'unit{Unit.count}'
            self.dir = run.dir(f'{self.name}-{Unit.count}')
        self.run = run
        self.files = files
        self.glue = glue.Glue(files, only)
        self.entries = self.glue.entries
        self.binaries = {}
        self.main = 'gsan'

    def generate(self):
        for fi in self.files:
            p = os.path.join(self.dir, (fi.path or '') + fi.name + '.proto')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='') as f:
                f.write(print_file(fi))
        out = os.path.join(self.dir, 'gen')
        os.makedirs(out, exist_ok=True)
        r = pbtools(['generate_c_source', '-I', '.', '-o', 'gen']
                    + [(fi.path or '') + fi.name + '.proto' for fi in self.files], self.dir)
        if r.timeout:
            raise Inconclusive('generator timed out')
        if r.rc != 0:
            raise BuildError(f'generator failed on a valid schema: {r.err.strip()[-500:]} {r.out.strip()[-500:]}')
        for fi in self.files:
            for ext in '.h', '.c':
                if not os.path.exists(os.path.join(out, fi.c_name + ext)):
                    raise BuildError(f'generator did not write {fi.c_name + ext}')
        with open(os.path.join(self.dir, 'glue.c'), 'w') as f:
            f.write(self.glue.source())
        return self

    def sources(self):
        return ([os.path.join(self.dir, 'gen', fi.c_name + '.c') for fi in self.files]
                + [os.path.join(common.REPO, 'lib/src/pbtools.c'), os.path.join(self.dir, 'glue.c'),
                   os.path.join(HERE, 'c', 'driver.c')])

    def build(self, flavor='gsan', extra=()):
        key = flavor + ''.join(extra)
        if key in self.binaries:
            return self.binaries[key]
        cmd = FLAVORS[flavor]
        exe = os.path.join(self.dir, f'driver-{len(self.binaries)}-{flavor}')
        args = (cmd + ['-w', '-I' + os.path.join(self.dir, 'gen'),
                       '-I' + os.path.join(common.REPO, 'lib/include'), '-I' + os.path.join(HERE, 'c')]
                + list(extra) + self.sources() + ['-o', exe, '-lpthread'])
        if flavor == 'm32':
            args.remove('-lpthread')
            args[2:2] = ['-isystem', GCC_INCLUDE]
        if cmd[0] == 'gcc':
            args.insert(1, '-std=gnu11')
        r = sh(args, timeout=600)
        if r.timeout:
            raise Inconclusive('compiler timed out')
        if r.rc != 0:
            raise BuildError(f'generated code does not build ({flavor}): {r.err[:1500]}')
        self.binaries[key] = exe
        return exe

    def entry(self, name):
        for i, m in enumerate(self.entries):
            if m.name == name or m.full == name:
                return i
        raise KeyError(name)

    def execute(self, ops, flavor=None, extra=(), timeout=600, max_crashes=3, cpu=30):
        """Runs the operations. Returns one bytes result per operation, or a
        Crash for an operation the process did not survive."""
        exe = self.build(flavor or self.main, extra)
        with Unit.lock:
            Unit.count += 1
            base = os.path.join(self.dir, f'run{Unit.count}')
        with open(base + '.ops', 'wb') as f:
            for o in ops:
                f.write(struct.pack('<I', len(o)) + o)
        results = []
        crashes = 0
        while True:
            out = f'{base}.{len(results)}.out'
            r = sh([exe, base + '.ops', out, str(len(results)), str(cpu)], env=ENV, timeout=timeout)
            done = False
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    data = f.read()
                p = 0
                while p + 4 <= len(data):
                    n = struct.unpack('<I', data[p:p + 4])[0]
                    p += 4
                    if n == 0xffffffff:
                        done = True
                        break
                    if p + n > len(data):
                        break
                    results.append(data[p:p + n])
                    p += n
                os.unlink(out)
            if done and r.rc == 0:
                break
            if r.timeout:
                raise Inconclusive('driver timed out')
            if r.rc == 97 or 'VF_HARNESS_ERROR' in r.err:
                raise Inconclusive('harness error: ' + r.err[-300:])
            if done:
                results[-1] = Crash(r.rc, r.err)
                break
            results.append(Crash(r.rc, r.err))
            crashes += 1
            if len(results) >= len(ops):
                break
            if crashes >= max_crashes:
                results += [None] * (len(ops) - len(results))
                break
        os.unlink(base + '.ops')
        if len(results) != len(ops):
            raise Inconclusive(f'{len(results)} results for {len(ops)} operations')
        return results


class Crash:
    def __init__(self, rc, err):
        self.rc = rc
        self.err = err
        self.hang = 'VF_HANG' in err

    def __str__(self):
        if self.hang:
            return 'does not terminate'
        for line in self.err.splitlines():
            if 'runtime error:' in line or 'ERROR: AddressSanitizer' in line or 'WARNING: MemorySanitizer' in line \
                    or 'WARNING: ThreadSanitizer' in line:
                return line.strip()
        return f'crashed with status {self.rc}'

    def log(self):
        return self.err[-4000:]


class R:
    """Result reader."""

    def __init__(self, data):
        self.d, self.p = data, 0

    def u8(self):
        self.p += 1
        return self.d[self.p - 1]

    def u32(self):
        self.p += 4
        return struct.unpack('<I', self.d[self.p - 4:self.p])[0]

    def i32(self):
        return s32(self.u32())

    def u64(self):
        self.p += 8
        return struct.unpack('<Q', self.d[self.p - 8:self.p])[0]

    def blob(self):
        n = self.u32()
        self.p += n
        return self.d[self.p - n:self.p]


def head(op, entry, ws, off=0, poison=0xaa):
    return struct.pack('<BHIBh', op, entry, ws & 0xffffffff, off, poison)


def op_build(entry, chunks, ws=1 << 20, ws2=1 << 20, cap=1 << 20, off=0, poison=0xaa, data=None):
    o = head(1, entry, ws, off, poison) + struct.pack('<IIH', cap, ws2, len(chunks))
    if data is None:
        o += struct.pack('<I', 0xffffffff)
    else:
        o += struct.pack('<I', len(data)) + data
    for c in chunks:
        o += struct.pack('<I', len(c)) + c
    return o


class Built:
    def __init__(self, raw, nchunks):
        r = R(raw)
        self.new = r.u8()
        self.rc = r.i32()
        self.chunks = []
        for _ in range(nchunks):
            c = type('C', (), {})()
            c.ops = r.i32()
            c.dump = r.blob()
            c.enc = r.i32()
            c.bytes = r.blob()
            c.dec = r.i32()
            c.dump2 = r.blob()
            c.reenc = r.i32()
            self.chunks.append(c)
        self.mon = r.u32()


def op_decode(entry, data, ws=1 << 20, cap=1 << 20, off=0, poison=0xaa):
    return head(2, entry, ws, off, poison) + struct.pack('<I', len(data)) + data + struct.pack('<I', cap)


class Decoded:
    def __init__(self, raw):
        r = R(raw)
        self.new = r.u8()
        self.rc = r.i32()
        self.mon = r.u32()
        self.dump = r.blob()
        self.enc = r.i32()
        self.bytes = r.blob()


def op_encsweep(entry, ops, lo, hi, ws=1 << 20, cap=1 << 20, off=0, poison=0xaa):
    return head(3, entry, ws, off, poison) + struct.pack('<III', cap, lo, hi) + ops


class EncSweep:
    def __init__(self, raw, lo):
        r = R(raw)
        self.new = r.u8()
        self.ops = r.i32()
        self.rc = r.i32()
        self.bytes = r.blob()
        n = r.u32()
        self.codes = {lo + i: r.i32() for i in range(n)}
        self.mon = r.u32()


def op_wssweep(entry, kind, data, lo, hi, step=1, off=0, poison=0xaa):
    return head(4, entry, 0, off, poison) + struct.pack('<BIIII', kind, lo, hi, step, len(data)) + data


class WsSweep:
    def __init__(self, raw, lo, step):
        r = R(raw)
        n = r.u32()
        self.rows = [(lo + i * step, r.u8(), r.i32(), r.u64()) for i in range(n)]
        self.mon = r.u32()


def op_threads(shared, jobs, rounds, ws=1 << 18, cap=1 << 17, poison=0):
    o = head(5, shared[0], ws, 0, poison) + struct.pack('<IIIH', len(jobs), rounds, cap, shared[0])
    o += struct.pack('<I', len(shared[1])) + shared[1]
    for e, d, b in jobs:
        o += struct.pack('<HI', e, len(d)) + d + struct.pack('<I', len(b)) + b
    return o


def op_turns(jobs, rounds, seed, ws, cap, poison=0x41):
    o = head(8, 0, ws, 0, poison) + struct.pack('<HHII', len(jobs), rounds, cap, seed & 0xffffffff)
    for e, d in jobs:
        o += struct.pack('<HI', e, len(d)) + d
    return o
