"""Records what the generator does to the file system: loaded by Python before
the code under test, when VF_AUDIT names a log file."""

import os
import sys

_path = os.environ.get('VF_AUDIT')

if _path:
    # Number of changes of the file system before the process is killed.
    _left = [int(os.environ.get('VF_STOP', '0'))]
    _fd = os.open(_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    _CHANGES = {'os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod',
                'os.chown', 'os.utime', 'shutil.rmtree', 'shutil.move', 'subprocess.Popen', 'os.system', 'os.exec',
                'os.posix_spawn', 'os.fork', 'socket.connect', 'socket.bind', 'os.putenv', 'os.chdir'}

    def _hook(event, args):
        if event == 'open':
            path, mode, flags = args
            write = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
                (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if isinstance(path, int):
                return
            kind = 'write' if write else 'read'
        elif event in _CHANGES:
            kind, path = event, args[0]
            if event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move'):
                path = args[1]
        else:
            return
        try:
            path = os.path.abspath(os.fsdecode(path))
        except Exception:
            path = repr(path)
        if kind != 'read' and not path.startswith('/dev/'):
            _left[0] -= 1
            if _left[0] == 0:
                os.kill(os.getpid(), 9)
        os.write(_fd, f'{kind}\t{path}\n'.encode('utf-8', 'surrogateescape'))

    sys.addaudithook(_hook)
