"""python -m fogsim.evaluator PROP : a process of its own (own PYTHONHASHSEED) answering evaluation requests.

Every request is executed in a forked child, i.e. in a process that has just started: nothing a previous
request did can influence it.  Requests and answers are length-prefixed pickles.
"""
import importlib
import os
import pickle
import signal
import struct
import subprocess
import sys
import warnings


def read(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    n = struct.unpack('>I', head)[0]
    return pickle.loads(f.read(n))


def write(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack('>I', len(b)) + b)
    f.flush()


def serve(prop):
    from fogsim import world as W
    from fogsim.choices import Choices
    W.install()
    warnings.simplefilter('ignore')
    mod = importlib.import_module('fogsim.props.' + prop.lower())
    mod.preload()
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    write(out, 'ready')
    while True:
        req = read(inp)
        if req is None:
            return
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(40)
                log, extra = req
                ch = Choices(replay=log)
                with W.World(ch):
                    try:
                        ans = ('ok', mod.evaluate(ch, extra))
                    except W.Violation as v:
                        ans = ('violation', v.cls, v.message)
                    except BaseException as e:
                        ans = ('error', type(e).__name__, str(e)[:300])
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(ans, f)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        write(out, pickle.loads(data) if data else ('error', 'Died', 'the evaluating process died'))


class Evaluator(object):
    def __init__(self, prop, hashseed):
        e = dict(os.environ)
        e['PYTHONHASHSEED'] = str(hashseed)
        self.hashseed = hashseed
        self.p = subprocess.Popen([sys.executable, '-X', 'utf8', '-m', 'fogsim.evaluator', prop], env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, close_fds=True)
        assert read(self.p.stdout) == 'ready'

    def ask(self, log, extra):
        write(self.p.stdin, (list(log), extra))
        return read(self.p.stdout)

    def end(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


if __name__ == '__main__':
    serve(sys.argv[1])
