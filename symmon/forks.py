"""Interpreters with a hash seed of their own; every request runs in a fresh fork."""
import atexit
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np


class Forks(object):
    def __init__(self, hash_seed):
        self.hash_seed, self.proc = hash_seed, None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED=str(self.hash_seed))
        self.proc = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-m', 'symmon.forks'], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        if self.proc.stdout.readline().strip() != 'ready':
            self.stop()
            raise OSError('no fork server')
        atexit.register(self.stop)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait()
            except OSError:
                pass
            self.proc = None

    def send(self, func, *args):
        """`func` is 'module:name'; returns a handle for `receive`."""
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        fd, path = tempfile.mkstemp(suffix='.fork')
        with os.fdopen(fd, 'wb') as fh:
            pickle.dump((func, args), fh)
        try:
            self.proc.stdin.write(path + '\n')
            self.proc.stdin.flush()
        except BaseException:
            self.stop()
            os.unlink(path)
            raise
        return path

    def receive(self, path):
        try:
            if self.proc.stdout.readline().strip() != 'done':
                raise OSError('fork server ended')
            with open(path + '.out', 'rb') as fh:
                out = pickle.load(fh)
        except BaseException:
            self.stop()
            raise
        finally:
            for p in (path, path + '.out'):
                if os.path.exists(p):
                    os.unlink(p)
        return out

    def ask(self, func, *args):
        return self.receive(self.send(func, *args))


def main():
    import importlib
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    import symfit                                   # noqa: F401
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    for line in sys.stdin:
        path = line.strip()
        if not path:
            break
        with open(path, 'rb') as fh:
            func, args = pickle.load(fh)
        mod, name = func.split(':')
        mod = importlib.import_module(mod)
        pid = os.fork()
        if pid == 0:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            try:
                np.seterr(all='ignore')
                np.random.seed(7)
                out = {'value': getattr(mod, name)(*args)}
            except BaseException as err:
                out = {'error': repr(err)[:400], 'where': traceback.format_exc()[-900:]}
            with open(path + '.out', 'wb') as fh:
                pickle.dump(out, fh)
            os._exit(0)
        os.waitpid(pid, 0)
        sys.stdout.write('done\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
