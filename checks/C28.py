"""C28 failures of the unsteady solver injected at every step and substep of bounded runs; result replayed with the steady profile."""
import itertools, logging
import numpy as np
import pandas as pd
import scipy.linalg
from mc.run import Space, Viol
from mc.patch import replaced, holders
from mc.driver import reference
from mc.model import phys, nums, times, td, Chan, assemble
from mc.repo import riv, core
from checks import morph
from checks.C18 import VARS
from checks.C20 import START
from checks.C30 import write, read, check, TS
from checks.conf import Scratch, load

LEVEL = 'model_checking'
ASSUMPTIONS = ['failures are injected into the banded matrix solution: singular matrices, other numerical errors, and corrections that never become small',
               'the steady profile is that of riv.solveSteady, judged by C04; it is the same for a closed outlet',
               'iteration limits too small for the steady profile itself are left out']
REAL = scipy.linalg.solve_banded
KINDS = ('singular', 'value', 'float', 'endless', 'nan')


class Faults:
    """Replaces the banded solver while open.  plan(n) names the failure of the n-th call, or None."""
    def __init__(self, plan=lambda n: None):
        self.plan, self.n, self.sign = plan, 0, 1.

    def solve(self, lu, ab, b, *a, **k):
        kind = self.plan(self.n)
        self.n += 1
        if kind == 'singular':
            raise scipy.linalg.LinAlgError('injected: singular matrix')
        if kind == 'value':
            raise ValueError('injected: array must not contain infs or NaNs')
        if kind == 'float':
            raise FloatingPointError('injected')
        if kind == 'nan':
            return np.full(b.shape, np.nan)
        r = REAL(lu, ab, b, *a, **k)
        if kind == 'endless':
            self.sign = -self.sign
            return r * 0 + .01 * self.sign
        return r

    def __enter__(self):
        self.local = holders(REAL)
        for m, n in self.local + [(scipy.linalg, 'solve_banded')]:
            setattr(m, n, self.solve)
        return self

    def __exit__(self, *a):
        for m, n in self.local + [(scipy.linalg, 'solve_banded')]:
            setattr(m, n, REAL)


class Warnings(logging.Handler):
    """Collects warnings logged while open."""
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got, self.tag = [], None

    def emit(self, r):
        self.got.append((self.tag, r.getMessage()))

    def __enter__(self):
        self.lev = logging.root.manager.disable
        logging.disable(logging.INFO)
        self.hs = logging.root.handlers[:]
        logging.root.handlers[:] = [self]
        return self

    def __exit__(self, *a):
        logging.root.handlers[:] = self.hs
        logging.disable(self.lev)


def runs(c):
    """Whole runs with the hydraulics failing in the listed steps, from the n-th matrix solution of the step on."""
    bad, kind, after = set(c['steps']), c['kind'], c['after']
    with Scratch() as d:
        f = write(d, c, {})
        m = load(f)
        want = list(reference(m, steady_at=bad))
        step = [-1]
        calls = [0]
        real = riv.solveFullPreissmann

        def plan(n):
            calls[0] += 1
            return kind if step[0] in bad and calls[0] > after else None

        def wrapped(*a, **k):
            step[0] += 1
            calls[0] = 0
            w.tag = step[0]
            return real(*a, **k)
        with replaced(real, wrapped), Faults(plan) as F, Warnings() as w:
            core.main(f, True)
        if not F.n or step[0] < 0:
            raise Viol('no failure could be injected: the hydraulics are not solved through scipy.linalg.solve_banded')
        if step[0] + 1 != len(want) - 1:
            raise Viol('run has %d steps instead of %d' % (step[0] + 1, len(want) - 1))
        for k in bad:
            if k < len(want) - 1 and not any(t == k for t, _ in w.got):
                raise Viol('no warning about the failure in step %d' % k)
        n = check(want, read('F_outputs.nc', [v for v, _ in VARS]), read('F_TSoutputs.nc', TS))
    return {'transitions': n, 'states': [(str(c['start']), kind, after, tuple(c['steps']), k) for k in range(n)], 'traces': 1}


# --- single calls of the solver

CH = [('BBLLOOOBB', (0, 1.5), {}), ('BBOOOLLBB', (-2, -2.5), {}), ('BBLLLLLBB', None, {}), ('BBLLOOOBB', (0, 1.5), dict(wl=.3, endbed=-1.9)), ('BBLLOOOBB', (-1, 2.4), dict(wl=1.9))]


def channel(k, perm):
    row, o, kw = CH[k]
    P = phys(BarrierPermeability=perm)
    s = morph.make(o, row, lagslope=.01, **kw)
    return s, P


def fresh(s, P):
    return Chan(assemble(s.copy(), P, nums()))


QS = {'const': lambda n: np.full(n, 60.), 'flood': lambda n: 60. + 25. * np.arange(n), 'tide': lambda n: np.full(n, 45.)}
SEAS = {'const': lambda n: np.full(n, .3), 'flood': lambda n: .3 - .02 * np.arange(n), 'tide': lambda n: .3 + .03 * np.arange(n)}


def call(c, P, N, Q, sea, dt=5.):
    riv.solveFullPreissmann(c.z, c.B, c.LagArea, c.LagLen, c.Closed, c.h, c.V, c.dx, td(dt), np.array(Q), np.array(sea), N, P)


def substeps(c):
    """Failure to converge in every subset of the substeps of one call: steady profile there, unsteady from it elsewhere."""
    s, P = channel(c['ch'], c['perm'])
    n, N = c['n'], nums(MaxIt=12)
    Q, sea = QS[c['force']](n), SEAS[c['force']](n)
    tr, states = 0, []
    if fresh(s, P).Closed:
        N['MaxIt'] = 20
    for bad in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(1, c['most'] + 1)):
        # the reference: one substep at a time
        a = fresh(s, P)
        plan, at, skip = set(), 0, False
        for j in range(n):
            if j in bad:
                plan |= set(range(at, at + N['MaxIt']))
                at += N['MaxIt']
                h, V = riv.solveSteady(a.dx, a.z, a.B, P['RoughnessManning'], Q[-1], sea[-1], N)
                a.h[:], a.V[:] = h, V
            else:
                with Faults() as F, Warnings() as w:
                    call(a, P, N, [Q[j]], [sea[j]])
                if F.n >= N['MaxIt']:
                    skip = True           # does not converge by itself
                    break
                at += F.n
        if skip:
            continue
        b = fresh(s, P)
        with Faults(lambda k: 'endless' if k in plan else None) as F, Warnings() as w:
            call(b, P, N, Q, sea)
        if F.n != at:
            raise Viol('%d matrix solutions with failures in substeps %s, %d expected' % (F.n, bad, at))
        if not w.got:
            raise Viol('no warning about the failure in substeps %s' % (bad,))
        if not (np.allclose(a.h, b.h, rtol=1e-6, atol=1e-6) and np.allclose(a.V, b.V, rtol=1e-6, atol=1e-6)):
            raise Viol('after failures in substeps %s the profile is %s %s instead of %s %s' % (bad, b.h.tolist(), b.V.tolist(), a.h.tolist(), a.V.tolist()))
        tr += n
        states.append((c['ch'], c['force'], bad))
    return {'transitions': tr, 'states': states}


def limits(c):
    """Every iteration limit: below the number needed the steady profile, from there on the unsteady one."""
    s, P = channel(c['ch'], 0.001)
    Q, sea = QS[c['force']](1) + 5, SEAS[c['force']](1) + .1
    tr, states = 0, []
    for tol in (1e-2, 1e-3, 1e-5, 1e-8):
        a = fresh(s, P)
        with Faults() as F, Warnings():
            call(a, P, nums(ErrTol=tol, MaxIt=60), Q, sea)
        need = F.n
        if need >= 60:
            continue
        for mx in range(1, need + 4):
            b = fresh(s, P)
            try:
                h, V = riv.solveSteady(a.dx, a.z, a.B, P['RoughnessManning'], Q[-1], sea[-1], nums(ErrTol=tol, MaxIt=mx))
            except AssertionError:
                if mx < need:
                    continue              # not enough for the steady profile either
            with Warnings() as w:
                call(b, P, nums(ErrTol=tol, MaxIt=mx), Q, sea)
            wh, wV = (h, V) if mx < need else (a.h, a.V)
            if not (np.allclose(b.h, wh, rtol=1e-9, atol=1e-9) and np.allclose(b.V, wV, rtol=1e-9, atol=1e-9)):
                raise Viol('with at most %d iterations of %d needed the profile is %s instead of %s' % (mx, need, b.h.tolist(), np.asarray(wh).tolist()))
            if mx < need and not w.got:
                raise Viol('no warning that %d iterations are not enough' % mx)
            tr += 1
            states.append((c['ch'], c['force'], tol, mx))
    return {'transitions': tr, 'states': states}


def singular_once(c):
    """A singular matrix that disappears on a second attempt does not disturb the result."""
    s, P = channel(c['ch'], 0.001)
    n, N = 3, nums(ErrTol=1e-6, MaxIt=40)
    Q, sea = QS[c['force']](n), SEAS[c['force']](n)
    a = fresh(s, P)
    with Faults() as F, Warnings():
        call(a, P, N, Q, sea)
    tr = 0
    for k in range(F.n):
        b = fresh(s, P)
        np.random.seed(k)
        with Faults(lambda i: 'singular' if i == k else None), Warnings():
            call(b, P, N, Q, sea)
        if not (np.allclose(a.h, b.h, rtol=1e-4, atol=1e-4) and np.allclose(a.V, b.V, rtol=1e-3, atol=1e-3)):
            raise Viol('one singular matrix (solution %d) changes the depths from %s to %s' % (k, a.h.tolist(), b.h.tolist()))
        tr += 1
    return {'transitions': tr, 'states': [(c['ch'], c['force'], k) for k in range(tr)]}


def spaces(tier):
    big = tier == 'thorough'
    sets = [dict(hyd=5, mn=15, mx=60, lim=.5)] + ([dict(hyd=10, mn=20, mx=20, lim=5.), dict(hyd=7.5, mn=15, mx=120, lim=.1)] if big else [])
    subs = [(0,), (1,), (2,), (3,), (0, 1), (1, 2), (1, 3), (0, 3)] + ([(4,), (5,), (0, 2), (2, 3), (1, 4), (0, 1, 2), (0, 1, 2, 3, 4, 5, 6, 7)] if big else [])
    starts = ['default', 0, 1, 5, ['BBLLLSOBB', [1, 2.5]]] + ([2, 3, 4, 6, 8, 9, 10, 'spatial', ['BoOOLLLBB', [-1, -2.97]]] if big else [])
    yield Space('runs', runs, [dict(t, start=s, force=f, end=3, steps=b, kind=k, after=a) for t in sets for s in starts for f in (('calm', 'storm', 'turning') if big else ('calm', 'storm'))
                               for b in subs for k, a in ([(k, a) for k in KINDS for a in (0, 2)] if big else [('singular', 0), ('value', 3), ('float', 0), ('endless', 0), ('nan', 2)])],
                'initial state x forcing x subset of failing steps x kind of failure x matrix solutions before it', cpu=900)
    yield Space('substeps', substeps, [dict(ch=k, force=f, n=n, most=2 if not big else n, perm=0.) for k in range(len(CH)) for f in QS for n in ((3, 4, 5) if big else (4,))],
                'channel x forcing x subset of substeps', cpu=600)
    yield Space('limits', limits, [dict(ch=k, force=f) for k in range(len(CH)) for f in QS], 'channel x forcing x tolerance x iteration limit', cpu=600)
    yield Space('singular once', singular_once, [dict(ch=k, force=f) for k in range(len(CH)) for f in QS], 'channel x forcing x matrix solution', cpu=600)
