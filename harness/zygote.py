"""
A process which has imported the code under test, but not used it yet. Executes
every task in a fresh fork of itself, so each task starts with the state of a
newly started process.
"""

import sys, os, json, subprocess, traceback, importlib

from . import core

class Zygote:
    def __init__ (self, module, hashseed):
        env = dict (os.environ, PYTHONHASHSEED=str (hashseed))
        self.p = subprocess.Popen ([sys.executable, '-W', 'ignore', '-c',
                f'import sys; sys.path.insert (0, {core.VERIF!r}); from harness import zygote; zygote.serve ({module!r})'],
                env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def __call__ (self, func, **kwargs):
        self.p.stdin.write (json.dumps (dict (func=func, kwargs=kwargs)).encode ('ascii') + b'\n')
        self.p.stdin.flush ()
        ret = json.loads (self.p.stdout.readline ())
        if 'error' in ret:
            raise core.Violation (ret['error'])
        return ret['ret']

def serve (module):
    sys.dont_write_bytecode = True
    core.bootstrap ()
    out = os.fdopen (os.dup (1), 'wb', buffering=0)
    mod = importlib.import_module (module)
    if hasattr (mod, 'prepare'):
        mod.prepare ()
    for line in sys.stdin.buffer:
        task = json.loads (line)
        r, w = os.pipe ()
        pid = os.fork ()
        if pid == 0:
            os.close (r)
            try:
                ret = dict (ret=getattr (mod, task['func']) (**task['kwargs']))
            except BaseException:
                ret = dict (error=traceback.format_exc ())
            with os.fdopen (w, 'wb') as fd:
                fd.write (json.dumps (ret).encode ('ascii'))
            os._exit (0)
        os.close (w)
        with os.fdopen (r, 'rb') as fd:
            data = fd.read ()
        os.waitpid (pid, 0)
        out.write ((data or b'{"error": "process died"}') + b'\n')
