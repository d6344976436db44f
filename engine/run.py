"""Driver of one check:  python -m engine.run Cxx [--tier quick|thorough] [--case NAME] [-v]

exit 0  property held on everything explored      exit 1  VIOLATION line(s) printed
exit 2  nothing could be decided (vacuous / unsupported everywhere / internal error)"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CZ_REPO', '/repo')
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def _imports():
    global np, z3, core, harness, replay, stubs
    import numpy as np
    from . import z3path  # noqa
    import z3
    from . import core, harness, replay, stubs


class PathHang(BaseException):
    pass


# --------------------------------------------------------------------------- robust models

def _nnf(e, pos, d):
    """strengthen a formula so that every comparison holds with slack d"""
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_true(e) or z3.is_false(e):
        return e if pos else z3.Not(e)
    if k == z3.Z3_OP_NOT:
        return _nnf(e.arg(0), not pos, d)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        isand = (k == z3.Z3_OP_AND) == pos
        ch = [_nnf(c, pos, d) for c in e.children()]
        return z3.And(*ch) if isand else z3.Or(*ch)
    if k == z3.Z3_OP_IMPLIES:
        a, b = e.children()
        return z3.Or(_nnf(a, False, d), _nnf(b, True, d)) if pos else z3.And(_nnf(a, True, d), _nnf(b, False, d))
    if k == z3.Z3_OP_ITE and z3.is_bool(e.arg(1)):
        c, a, b = e.children()
        return z3.Or(z3.And(_nnf(c, True, d), _nnf(a, pos, d)), z3.And(_nnf(c, False, d), _nnf(b, pos, d)))
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(e.arg(0)):
        a, b = e.children()
        return z3.Or(z3.And(_nnf(a, True, d), _nnf(b, pos, d)), z3.And(_nnf(a, False, d), _nnf(b, not pos, d)))
    if k == z3.Z3_OP_XOR:
        a, b = e.children()
        return z3.Or(z3.And(_nnf(a, True, d), _nnf(b, not pos, d)), z3.And(_nnf(a, False, d), _nnf(b, pos, d)))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = e.children()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
            k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        if z3.is_int(a) and z3.is_int(b):
            return e if pos else z3.Not(e)
        return (a <= b - d) if pos else (a >= b + d)
    if k == z3.Z3_OP_EQ and not pos:
        a, b = e.children()
        if z3.is_real(a) or z3.is_real(b):
            return z3.Or(a <= b - d, a >= b + d)
        return z3.Not(e)
    return e if pos else z3.Not(e)


def robust(es, d):
    q = core.zreal(Fraction(d))
    return [e if e.get_id() in core.EXACT else _nnf(z3.simplify(e), True, q) for e in es]


def _vars(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(x.decl().name())
        st.extend(x.children())
    memo[i] = (e, r)
    return r


def cone(pc, goal, memo):
    """constraints transitively sharing variables with the goal"""
    want = set(_vars(goal, memo))
    rest = [(e, _vars(e, memo)) for e in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nrest = []
        for e, v in rest:
            if v & want:
                out.append(e)
                if not v <= want:
                    want |= v
                    ch = True
            else:
                nrest.append((e, v))
        rest = nrest
    return out


def val_fraction(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_true(x):
        return Fraction(1)
    if z3.is_false(x):
        return Fraction(0)
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return Fraction(y.numerator_as_long(), y.denominator_as_long())
    raise ValueError("model value")


class Runner:
    def __init__(self, prop, case, tier, seed, known, verbose=False):
        self.prop, self.case, self.tier = prop, case, tier
        lim = dict(time=120.0, path_s=60.0, prove_ms=8000, branch_ms=3000, max_paths=4000,
                   witnesses=5, unsup_witnesses=8)
        if tier == 'thorough':
            lim.update(time=1500.0, path_s=300.0, prove_ms=60000, branch_ms=8000, max_paths=50000, witnesses=20,
                       unsup_witnesses=30)
        lim.update(case.limits if tier == 'quick' else {k: v for k, v in case.limits.items() if k not in ('time', 'prove_ms', 'path_s')})
        self.lim = lim
        self.rnd = random.Random(seed)
        self.seed = seed
        self.known = known
        self.client = replay.Client()
        self.verbose = verbose
        self.violations = []      # dict(check, inputs, detail)
        self.known_hits = []
        self.undecided = []
        self.unsupported = []
        self.mismatch = []
        self.unreproduced = []
        self.checks = {}
        self.samples = []
        self.validated = 0
        self.nreplay = 0
        self.memo = {}
        self.complete = False
        self.open_reason = None
        self.stop = False

    # ---------------------------------------------------------------- solving
    def _solve(self, es, ms, tactic=None, seed=0):
        t = time.time()
        if tactic:
            s = z3.Tactic(tactic).solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(ms))
        if seed:
            try:
                s.set('random_seed', seed)
            except z3.Z3Exception:
                pass
        s.add(*es)
        self.C.stats['prove_queries'] += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.C.stats['solver_s'] += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def decide(self, neg, pc=None, ms=None):
        """is pc /\\ neg satisfiable?"""
        ms = ms or self.lim['prove_ms']
        C = self.C
        pc = C.pc if pc is None else pc
        C.solver.set('timeout', max(500, ms // 8))
        t = time.time()
        C.stats['prove_queries'] += 1
        r = C.solver.check(neg)
        C.stats['solver_s'] += time.time() - t
        C.solver.set('timeout', self.lim['branch_ms'])
        if r == z3.unsat:
            return 'unsat'
        if r == z3.sat:
            return 'sat'
        es = cone(pc, neg, self.memo) + [neg]
        isreal = not any(str(x.sort()) == 'Int' for x in self._consts(es))
        plans = [(None, ms // 4)]
        if isreal:
            plans = [('qfnra-nlsat', ms // 3), (None, ms // 4), ('qfnra', ms // 3)]
        for tac, m in plans:
            r, _ = self._solve(es, m, tac)
            if r == z3.unsat:
                return 'unsat'
            if r == z3.sat:
                return 'sat'
        return 'unknown'

    def _consts(self, es):
        seen, out = set(), []
        st = list(es)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
        return out

    def model(self, es, ms=2500, randomize=True, exact_ok=True):
        """(robustness, model) of a conjunction, separated from decision boundaries when possible"""
        for d in ('1/10', '1/100', '1/1000', '1/100000'):
            rb = robust(es, d)
            if randomize:
                m = self._random_fix(rb, ms)
                if m is not None:
                    return d, m
            r, m = self._solve(rb, ms)
            if r == z3.unknown:
                r, m = self._solve(rb, ms, 'qfnra-nlsat') if not any(
                    str(x.sort()) != 'Real' for x in self._consts(rb)) else (r, m)
            if r == z3.sat:
                return d, m
            if r == z3.unsat:
                continue
            break
        if exact_ok:
            r, m = self._solve(es, ms)
            if r == z3.unknown and not any(str(x.sort()) != 'Real' for x in self._consts(es)):
                r, m = self._solve(es, ms, 'qfnra-nlsat')
            if r == z3.sat:
                return '0', m
        return None, None

    def _random_fix(self, es, ms, rounds=2):
        """generic (non-degenerate) model: fix inputs one by one to random short values"""
        C = self.C
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*es)
        t = time.time()
        r = s.check()
        if r != z3.sat:
            C.stats['solver_s'] += time.time() - t
            return None
        best = s.model()
        names = [n for n, v in C.inputs.items() if v[0] in ('real', 'unit', 'normal')]
        self.rnd.shuffle(names)
        for n in names[:40]:
            if time.time() - t > ms / 1000.0:
                break
            inp = C.inputs[n]
            lo, hi = (inp[2], inp[3]) if len(inp) > 2 else ((0, 1) if inp[0] == 'unit' else (-3, 3))
            try:
                cur = val_fraction(best, inp[1])
            except ValueError:
                continue
            w = min(float(hi) - float(lo), 8.0)
            for k in range(rounds):
                if k == 0:
                    c = float(cur) + (self.rnd.random() - 0.5) * w * 0.5
                else:
                    c = float(cur) + (self.rnd.random() - 0.5) * 0.05 * w
                c = Fraction(int(c * 256), 256)
                if not (lo <= c <= hi):
                    continue
                s.push()
                s.add(inp[1] == core.zreal(c))
                r = s.check()
                if r == z3.sat:
                    best = s.model()
                    break
                s.pop()
        C.stats['solver_s'] += time.time() - t
        return best

    def inputs_of(self, m):
        out = {}
        for n, v in self.C.inputs.items():
            out[n] = str(val_fraction(m, v[1]))
        return out

    def ask(self, inputs, timeout=20.0):
        self.nreplay += 1
        return self.client.ask(self.prop, self.case.name, inputs, timeout)

    # ---------------------------------------------------------------- verdicts
    def prove(self, S, name, cond, exact=None):
        st = self.checks.setdefault(name, dict(proved=0, trivial=0, reached=0))
        st['reached'] += 1
        if cond is True or exact is True:
            st['proved'] += 1
            st['trivial'] += 1
            return
        if self.C.stats_path_known.get(name):
            return
        if isinstance(exact, core.SBool):
            if self._prove_conj(exact.e, quick=True) == 'unsat':
                st['proved'] += 1
                return
        e = z3.BoolVal(False) if cond is False else core.zbool(cond)
        r = self._prove_conj(e)
        if r == 'unsat':
            st['proved'] += 1
            return
        self._counterexample(S, name, e, r)
        # keep exploring under the condition
        if not z3.is_false(z3.simplify(e)):
            self.C.add(e)
        if self.stop:
            raise core.PathCut("violation found")
        if cond is False:
            raise core.PathCut("check is false on the whole path")

    def _prove_conj(self, e, quick=False):
        e = z3.simplify(e)
        parts = e.children() if z3.is_and(e) else [e]
        worst = 'unsat'
        ms = self.lim['prove_ms'] // (4 if quick else 1)
        for p in parts:
            r = self.decide(z3.Not(p), ms=ms)
            if r == 'sat':
                return 'sat'
            if r == 'unknown':
                worst = 'unknown'
                if quick:
                    return worst
        return worst

    def _is_known(self, check, detail):
        for k in self.known:
            if k.get('case') not in (None, self.case.name):
                continue
            if k.get('check') not in (None, check):
                continue
            if k.get('detail') and k['detail'] not in (detail or ''):
                continue
            return k
        return None

    def report(self, check, inputs, answer, how):
        detail = answer.get('error') or ''
        site = answer.get('site') or ''
        k = self._is_known(check, detail + ' ' + site)
        rec = dict(property=self.prop, case=self.case.name, check=check, inputs=inputs, detail=detail, site=site,
                   how=how, failed=answer.get('failed'), tb=answer.get('tb'))
        if k is not None:
            if not any(h['check'] == check for h in self.known_hits):
                self.known_hits.append(dict(rec, what=k.get('what', '')))
            self.C.stats_path_known[check] = True
            return
        self.violations.append(rec)
        self.stop = True

    def _counterexample(self, S, name, e, verdict):
        neg = z3.Not(e)
        pc = list(self.C.pc)
        tried = 0
        robust_tried = False
        seen = set()
        for attempt in range(4 if self.tier == 'quick' else 8):
            d, m = self.model(pc + [neg], ms=2500, randomize=attempt != 1, exact_ok=True)
            if m is None:
                if attempt < 2:
                    m = self._concretised(pc + [neg])
                    d = '0'
                if m is None:
                    break
            try:
                inp = self.inputs_of(m)
            except ValueError:
                break
            key = json.dumps(inp, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            a = self.ask(inp)
            tried += 1
            if a['assumption']:
                continue
            if d != '0':
                robust_tried = True
            if name in a['failed']:
                self.report(name, inp, a, 'solver counterexample')
                return
            if a['failed']:
                self.report(a['failed'][0], inp, a, 'solver counterexample (other check)')
                return
            if not self._env_ok(a):
                break
        if robust_tried:
            self.unreproduced.append(dict(check=name, case=self.case.name, inputs=inp))
        else:
            self.undecided.append(f"{name}: solver {verdict}" + (", boundary-only model not reproduced" if tried else ''))

    def _env_ok(self, a):
        return not (a.get('error') or '').startswith('replay-server')

    def _concretised(self, es):
        """search with some inputs fixed to random values"""
        C = self.C
        names = [n for n, v in C.inputs.items() if v[0] in ('real', 'unit', 'normal')]
        t0 = time.time()
        for k in range(10):
            if time.time() - t0 > 8:
                break
            fix = []
            for n in names:
                if self.rnd.random() < 0.5 + 0.05 * k:
                    inp = C.inputs[n]
                    lo, hi = (inp[2], inp[3]) if len(inp) > 2 else ((0, 1) if inp[0] == 'unit' else (-3, 3))
                    lo, hi = max(lo, -8), min(hi, 8)
                    if hi < lo:
                        lo, hi = inp[2], inp[3]
                    c = Fraction(int((float(lo) + self.rnd.random() * (float(hi) - float(lo))) * 16), 16)
                    fix.append(inp[1] == core.zreal(c))
            r, m = self._solve(es + fix, 1200)
            if r == z3.sat:
                return m
        return None

    # ---------------------------------------------------------------- witnesses
    def witness(self, S, complete, force=False):
        """run the real code on a solver-chosen input of this path and compare"""
        pc = list(self.C.pc)
        d, m = self.model(pc, ms=1500, randomize=True, exact_ok=complete)
        if m is None:
            return None
        try:
            inp = self.inputs_of(m)
        except ValueError:
            return None
        a = self.ask(inp)
        if a['assumption']:
            return None
        if a['failed'] and d != '0':
            self.report(a['failed'][0], inp, a, 'concrete run of a solver-chosen path witness')
            return False
        if a['failed']:
            return None
        if complete:
            want = [(n, v) for n, v in S.observed]
            if [n for n, _ in want] != [n for n, _ in a['observed']]:
                if d == '0':
                    return None
                self.mismatch.append(f"observations differ: {[n for n, _ in want][:6]} vs {[n for n, _ in a['observed']][:6]}")
                return None
            for (n, v), (_, w) in zip(want, a['observed']):
                try:
                    sv = [self._evalf(m, x) for x in harness.flat(v)]
                except (ValueError, core.Unsupported, z3.Z3Exception):
                    continue
                if len(sv) != len(w):
                    if d == '0':
                        return None
                    self.mismatch.append(f"{n}: shape {len(sv)} vs {len(w)}")
                    return None
                for p, q in zip(sv, w):
                    if isinstance(p, (int, float)) and isinstance(q, (int, float)):
                        if not abs(p - q) <= 1e-5 * max(1, abs(p), abs(q)):
                            if d == '0':
                                return None
                            self.mismatch.append(f"{n}: symbolic {p} real {q}")
                            return None
            self.validated += 1
        if len(self.samples) < 3:
            self.samples.append(dict(case=self.case.name, inputs={k: float(Fraction(v)) for k, v in list(inp.items())[:24]},
                                     observed=[[n, w[:6]] for n, w in a['observed'][:4]], checks=a['reached'][:8],
                                     margin=d))
        return True

    def _evalf(self, m, x):
        if isinstance(x, (bool, np.bool_)):
            return float(x)
        if isinstance(x, core.SBool):
            return float(val_fraction(m, x.e))
        if isinstance(x, core.SNum):
            n = float(val_fraction(m, x.n))
            for k, p in x.d.items() if x.d else []:
                n = n / float(val_fraction(m, self.C.atoms[k][0])) ** p
            return n
        if isinstance(x, str) or x is None:
            return x
        if core.is_sym(x):
            raise ValueError
        return float(x)

    # ---------------------------------------------------------------- exploration
    def explore(self):
        C = core.CTX = core.Ctx(self.lim)
        self.C = C
        C.stats_path_known = {}
        wit = self.case.witnesses if self.case.witnesses is not None else self.lim['witnesses']
        if self.tier == 'thorough':
            wit = max(wit, self.lim['witnesses'])
        nun = 0
        npaths = 0
        ncomplete = 0
        signal.signal(signal.SIGALRM, self._alarm)
        while True:
            C.reset()
            S = harness.SymS(self)
            stubs.WRITES.clear()
            status = 'complete'
            signal.setitimer(signal.ITIMER_REAL, self.lim['path_s'])
            try:
                try:
                    self.case.fn(S, *self.case.args, **self.case.kwargs)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    S.undo()
            except core.PathInfeasible:
                status = 'infeasible'
                C.stats['infeasible'] += 1
            except core.PathCut as e:
                status = 'cut'
                C.stats['cut'] += 1
            except core.Unsupported as e:
                status = 'unsupported'
                self._unsup(str(e), e)
            except core.Budget as e:
                status = 'budget'
                self.open_reason = str(e)
            except (PathHang, core.DrawHang):
                status = 'hang'
            except core.EngineStop as e:
                status = 'unsupported'
                self._unsup(repr(e), e)
            except RecursionError as e:
                status = 'unsupported'
                self._unsup('recursion', e)
            except Exception as e:
                status = 'exception'
                exc = e
            signal.setitimer(signal.ITIMER_REAL, 0)
            npaths += 1
            if status == 'budget':
                break
            if status == 'complete':
                ncomplete += 1
            lim_t = C.lim['time']
            C.lim['time'] = 1e9
            try:
                if status == 'complete' and not self.stop:
                    if wit > 0 or self.rnd.random() < 0.02:
                        if self.witness(S, True) is True:
                            wit -= 1
                        else:
                            wit -= 0.34
                elif status == 'unsupported' and nun < self.lim['unsup_witnesses'] and not self.stop:
                    nun += 1
                    for _ in range(2):
                        if self.witness(S, False) is not True:
                            break
                elif status == 'hang':
                    self._hang(S)
                elif status == 'exception':
                    self._exception(S, exc)
            except core.EngineStop as e:
                self._unsup('after path: ' + repr(e), e)
            C.lim['time'] = lim_t
            if self.stop:
                break
            if npaths >= self.lim['max_paths']:
                self.open_reason = 'max_paths'
                break
            if time.time() - C.t0 > self.lim['time']:
                self.open_reason = 'time'
                break
            if not C.next_path():
                self.complete = True
                break
        C.stats['paths'] = npaths
        self.ncomplete = ncomplete
        self.client.close()

    def _alarm(self, *a):
        raise PathHang()

    def _unsup(self, msg, e):
        tb = traceback.extract_tb(e.__traceback__)
        site = [f"{os.path.basename(f.filename)}:{f.name}:{f.lineno}" for f in tb
                if '/czone/' in f.filename or '/props/' in f.filename]
        eng = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if '/engine/' in f.filename]
        self.unsupported.append(f"{msg[:160]} @ {site[-1] if site else '?'} [{eng[-1] if eng else ''}]")
        if self.verbose:
            traceback.print_exception(e)

    def _hang(self, S):
        pc = list(self.C.pc)
        d, m = self.model(pc, ms=2000, randomize=False)
        if m is not None:
            inp = self.inputs_of(m)
            a = self.ask(inp)
            if a['hang'] and self.case.terminates:
                self.report('terminates', inp, a, 'path does not end')
                return
            if a['failed'] and not a['hang'] and d != '0':
                self.report(a['failed'][0], inp, a, 'concrete run of an unfinished path')
                return
        self.unsupported.append("path exceeded its time limit")

    def _exception(self, S, exc):
        if self.verbose:
            traceback.print_exception(exc)
        pc = list(self.C.pc)
        for attempt in range(3):
            d, m = self.model(pc, ms=2000, randomize=attempt != 1)
            if m is None:
                break
            try:
                inp = self.inputs_of(m)
            except ValueError:
                break
            a = self.ask(inp)
            if a['failed'] and not a['assumption'] and (d != '0' or 'no-exception' in a['failed']):
                self.report(a['failed'][0] if 'no-exception' not in a['failed'] else 'no-exception', inp, a,
                            f'exception on a feasible path: {type(exc).__name__}: {exc}'[:200])
                return
        self._unsup(f"exception not reproduced on the real code: {type(exc).__name__}: {exc}", exc)


# --------------------------------------------------------------------------- worker

def worker(prop, casename, tier, seed, known, outfile, verbose):
    t0 = time.time()
    res = dict(case=casename, crashed=None)
    try:
        z3.set_param('smt.random_seed', seed % 1000)
        z3.set_param('sat.random_seed', seed % 1000)
        fns = set()
        mon = sys.monitoring
        mon.use_tool_id(4, 'cz')

        def start(code, off):
            if '/czone/' in code.co_filename:
                fns.add(code.co_filename.split('/czone/', 1)[1] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(4, mon.events.PY_START, start)
        mon.set_events(4, mon.events.PY_START)
        case = replay.find_case(prop, casename)
        import warnings
        warnings.simplefilter('ignore')
        h = int(hashlib.sha256(casename.encode()).hexdigest()[:6], 16)
        R = Runner(prop, case, tier, seed * 1000003 + h, known, verbose)
        R.explore()
        res.update(violations=R.violations, known_hits=R.known_hits, undecided=R.undecided[:20],
                   n_undecided=len(R.undecided), unsupported=sorted(set(R.unsupported))[:20],
                   n_unsupported=len(R.unsupported), mismatch=R.mismatch[:10], unreproduced=R.unreproduced[:5],
                   n_unreproduced=len(R.unreproduced), checks=R.checks, samples=R.samples, validated=R.validated,
                   replays=R.nreplay, stats=R.C.stats, complete=R.complete, open_reason=R.open_reason,
                   ncomplete=R.ncomplete, functions=sorted(fns), bounds=case.bounds,
                   assumed=sorted(set(R.C.assumed_unknown))[:5])
    except BaseException as e:
        res['crashed'] = ''.join(traceback.format_exception(e))[-3000:]
    res['wall_s'] = time.time() - t0
    with open(outfile, 'w') as f:
        json.dump(res, f, default=str)
    try:
        R.client.close()
    except Exception:
        pass
    os._exit(0)


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == prop:
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    _imports()
    import tempfile
    import shutil
    prop = a.prop
    try:
        stubs.install()
        m = importlib.import_module(f"props.{prop}")
    except Exception:
        traceback.print_exc()
        print(f"{prop}: cannot load the code under test or the harness")
        sys.exit(2)
    known = load_known(prop)
    cases = [c for c in m.CASES if (a.case is None or a.case in c.name) and
             (tier == 'thorough' or not c.thorough_only or a.case)]
    total = 820 if tier == 'quick' else 3 * 3600
    tmp = tempfile.mkdtemp(prefix='czrun')
    ctxm = mp.get_context('fork')
    pend = list(enumerate(cases))
    live = {}
    results = {}
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    while pend or live:
        while pend and len(live) < a.j:
            i, c = pend.pop(0)
            f = os.path.join(tmp, f'{i}.json')
            p = ctxm.Process(target=worker, args=(prop, c.name, tier, seed, known, f, a.v))
            p.start()
            live[i] = (p, f, time.time(), c)
        for i, (p, f, ts, c) in list(live.items()):
            lim = c.limits.get('time', 120) if tier == 'quick' else 1500
            if not p.is_alive():
                p.join()
                if os.path.exists(f):
                    results[i] = json.load(open(f))
                else:
                    results[i] = dict(case=c.name, crashed='worker died')
                del live[i]
            elif time.time() - ts > 3 * lim + 120 or time.time() - t0 > total:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                results[i] = dict(case=c.name, crashed='worker exceeded its time')
                del live[i]
        time.sleep(0.02)
    shutil.rmtree(tmp, ignore_errors=True)
    res = [results[i] for i in sorted(results)]
    code = summarise(prop, m, tier, seed, res, time.time() - t0, a)
    sys.exit(code)


def summarise(prop, m, tier, seed, res, wall, a):
    ok = [r for r in res if not r.get('crashed')]
    viol = [v for r in ok for v in r['violations']]
    known_hits = [v for r in ok for v in r['known_hits']]
    decided = [r for r in ok if r['ncomplete'] > 0 and any(c['proved'] for c in r['checks'].values())]
    tot = lambda k: sum(r['stats'][k] for r in ok)  # noqa: E731
    cov = dict(
        states=tot('decisions') + tot('paths'), transitions=tot('decisions'),
        paths=tot('paths'), complete_paths=sum(r['ncomplete'] for r in ok),
        traces_validated_against_impl=sum(r['validated'] for r in ok),
        replays_on_real_code=sum(r['replays'] for r in ok),
        solver_queries=tot('branch_queries') + tot('prove_queries'),
        solver_s=round(tot('solver_s'), 2),
        obligations=sum(c['reached'] for r in ok for c in r['checks'].values()),
        discharged=sum(c['proved'] for r in ok for c in r['checks'].values()),
        functions_encoded=sorted({f for r in ok for f in r['functions']}),
        samples=[s for r in ok for s in r['samples']][:6],
        exhaustive_within_bounds=all(r['complete'] and not r['n_unsupported'] and not r['n_undecided'] and not r['n_unreproduced'] for r in ok) and len(ok) == len(res),
        cases=[dict(case=r['case'], bounds=r['bounds'], paths=r['stats']['paths'], complete=r['complete'],
                    open=r['open_reason'], infeasible=r['stats']['infeasible'], cut=r['stats']['cut'],
                    undecided=r['undecided'], unsupported=r['unsupported'], mismatch=r['mismatch'],
                    unreproduced=[u['check'] for u in r['unreproduced']],
                    unknown_branches=r['stats']['unknown_branch'], assumed=r['assumed'],
                    checks={k: f"{v['proved']}/{v['reached']}" for k, v in r['checks'].items()},
                    wall_s=round(r['wall_s'], 1)) for r in ok],
        crashed=[dict(case=r['case'], why=r['crashed'][-300:]) for r in res if r.get('crashed')],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if a.case is None:
        with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for r in res:
        if r.get('crashed'):
            print(f"  {r['case']}: CRASHED {r['crashed'][-600:]}")
            continue
        flags = []
        if not r['complete']:
            flags.append(f"open({r['open_reason']})")
        if r['n_unsupported']:
            flags.append(f"unsupported={r['n_unsupported']} {r['unsupported'][:2]}")
        if r['n_undecided']:
            flags.append(f"undecided={r['n_undecided']} {r['undecided'][:2]}")
        if r['n_unreproduced']:
            flags.append(f"INCONCLUSIVE counterexample not reproduced={r['n_unreproduced']} {[u['check'] for u in r['unreproduced']]}")
            if a.v:
                flags.append(str(r['unreproduced']))
        if r['mismatch']:
            flags.append(f"MISMATCH {r['mismatch'][:2]}")
        print(f"  {r['case']}: paths={r['stats']['paths']} complete={r['ncomplete']} "
              f"proved={sum(c['proved'] for c in r['checks'].values())}/{sum(c['reached'] for c in r['checks'].values())} "
              f"validated={r['validated']} queries={r['stats']['branch_queries'] + r['stats']['prove_queries']} "
              f"{r['wall_s']:.1f}s {' '.join(flags)}")
    seen = set()
    for k in known_hits:
        key = (k['case'], k['check'])
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={prop} {k['case']}/{k['check']}: {k.get('what') or k['detail']}")
    n = 0
    for v in viol:
        n += 1
        path = os.path.join(ROOT, 'replays', f"{prop}-{n}.json")
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print(f"  counterexample {v['case']}/{v['check']} ({v['how']}) {v['detail']} {v['site']}")
        short = {k: float(Fraction(x)) for k, x in v['inputs'].items()}
        print(f"    inputs {json.dumps(short)[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} tier={tier} wall={wall:.1f}s paths={cov['paths']} obligations={cov['discharged']}/{cov['obligations']} "
          f"validated={cov['traces_validated_against_impl']} solver={cov['solver_s']}s")
    if viol:
        return 1
    if not decided and not known_hits:
        print(f"{prop}: nothing could be decided")
        return 2
    return 0


if __name__ == '__main__':
    main()
