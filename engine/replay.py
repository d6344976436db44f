"""Replay of solver models on the unpatched code under test (real numpy / scipy / ASE).

python -m engine.replay --server          JSON request per line on stdin, JSON answer per line
python -m engine.replay <replay.json>     one recorded violation; exit 1 when it reproduces
"""
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings

sys.path.insert(0, os.environ.get('CZ_REPO', '/repo'))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


_CASES = {}


def find_case(prop, name):
    if prop not in _CASES:
        m = importlib.import_module(f"props.{prop}")
        _CASES[prop] = {c.name: c for c in m.CASES}
    return _CASES[prop][name]


def setup():
    warnings.simplefilter('ignore')
    import numpy as np  # noqa: F401
    import czone  # noqa: F401


class _Patch:
    """stand-ins active during replay: named random draws, recorded writes"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        import numpy as np
        import types
        from . import stubs
        leg = stubs.LegacyRandom(self.S.draws)
        self.saved = []
        mods = [m for n, m in list(sys.modules.items())
                if m is not None and (n == 'czone' or n.startswith('czone.'))]
        import ase.io
        S = self.S

        def rec(filename, images, format=None, parallel=True, append=False, **kw):
            k = dict(kw)
            if format is not None:
                k['format'] = format
            if append:
                k['append'] = append
            S._writes.append((filename, images, k))
        self.np_saved = {}
        for nm in ('default_rng', 'rand', 'random', 'uniform', 'randint', 'randn', 'normal', 'choice',
                   'permutation', 'shuffle', 'seed', 'random_sample'):
            self.np_saved[nm] = getattr(np.random, nm)
        repl = {id(v): getattr(leg, nm) for nm, v in self.np_saved.items()}
        repl[id(ase.io.write)] = rec
        for m in mods:
            for k, v in list(m.__dict__.items()):
                if id(v) in repl and not k.startswith('__'):
                    self.saved.append((m, k, v))
                    m.__dict__[k] = repl[id(v)]
        # ase.io.write reached through a module attribute
        self.io_saved = ase.io.write
        ase.io.write = rec
        for nm in self.np_saved:
            setattr(np.random, nm, getattr(leg, nm))
        return self

    def __exit__(self, *a):
        import numpy as np
        import ase.io
        for nm, v in self.np_saved.items():
            setattr(np.random, nm, v)
        ase.io.write = self.io_saved
        for m, k, v in self.saved:
            m.__dict__[k] = v
        return False


def run_one(prop, case, inputs, timeout=20.0):
    from .harness import ReplayS, ReplayAssumptionFailed
    from .stubs import ReplayDraws
    c = find_case(prop, case)
    S = ReplayS(inputs, ReplayDraws(inputs))
    res = dict(failed=S.failed, observed=S.observed, reached=S.reached, error=None, assumption=False, hang=False)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    out = sys.stdout
    sys.stdout = io.StringIO()
    cwd = os.getcwd()
    import tempfile
    tmp = tempfile.mkdtemp(prefix='czreplay')
    try:
        os.chdir(tmp)
        with _Patch(S), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                c.fn(S, *c.args, **c.kwargs)
            finally:
                S.undo()
    except ReplayAssumptionFailed:
        res['assumption'] = True
    except Hang:
        res['hang'] = True
        S.failed.append('terminates')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if '/czone/' in f.filename]
        res['error'] = f"{type(e).__name__}: {e}"[:300]
        res['site'] = site[-1] if site else 'harness'
        res['tb'] = ''.join(traceback.format_tb(e.__traceback__)[-4:])[:1500]
        S.failed.append('no-exception')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
        os.chdir(cwd)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def serve():
    setup()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        r = json.loads(line)
        try:
            a = run_one(r['property'], r['case'], r['inputs'], r.get('timeout', 20.0))
        except BaseException as e:
            a = dict(failed=[], observed=[], reached=[], error='replay-server ' + repr(e), assumption=True, hang=False)
        out.write(json.dumps(a, default=str) + '\n')
        out.flush()


class Client:
    def __init__(self):
        self.p = None

    def start(self):
        import subprocess
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
        self.p = subprocess.Popen([sys.executable, '-m', 'engine.replay', '--server'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)

    def ask(self, prop, case, inputs, timeout=20.0):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(dict(property=prop, case=case, inputs=inputs, timeout=timeout)) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            self.close()
            return dict(failed=[], observed=[], reached=[], error='replay-server died ' + repr(e), assumption=True,
                        hang=False)

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


if __name__ == '__main__':
    if sys.argv[1] == '--server':
        serve()
    else:
        d = json.load(open(sys.argv[1]))
        setup()
        a = run_one(d['property'], d['case'], d['inputs'], 60.0)
        print(json.dumps(a, indent=1, default=str))
        bad = d['check'] in a['failed'] or bool(a['failed'])
        print('REPRODUCED' if bad else 'not reproduced')
        sys.exit(1 if bad else 0)
