"""Bounded channel layouts and forcing sequences for the hydraulic checks."""
import itertools
import numpy as np
from mc.repo import riv
from mc.patch import replaced

# inflow and sea level per hydraulic step
SEQ = {
    'steady': ([40., 40., 40.], [0.5, 0.5, 0.5]),
    'rise': ([40., 80., 120., 160.], [0.5, 0.5, 0.5, 0.5]),
    'tide': ([40., 40., 40., 40.], [0.5, 0.6, 0.75, 0.6]),
    'mixed': ([40., 60., 30., 90., 50.], [0.5, 0.4, 0.6, 0.55, 0.7]),
    'fall': ([60., 30., 10., 5.], [0.9, 0.7, 0.5, 0.4]),
    'surge': ([20., 20., 20.], [0.5, 1.0, 1.6]),
}


def geos(big):
    """Names encode: river sections, lagoon sections, outlet sections, width pattern, storage, bed."""
    out = []
    for (nr, nl, no) in [(2, 1, 1), (2, 2, 2), (3, 1, 0), (2, 3, 1)] + ([(4, 2, 3), (1, 1, 2)] if big else []):
        for wid in ('uniform', 'varied'):
            for sto in ('none', 'first', 'both', 'last'):
                for spc in (('even',) if wid == 'uniform' else ('even', 'stretched')):
                    out.append('%d-%d-%d/%s/%s/%s' % (nr, nl, no, wid, sto, spc))
    return out


def channel(geo, closed, dep=1.5, wl=1.0):
    nums, wid, sto, spc = geo.split('/')
    nr, nl, no = map(int, nums.split('-'))
    if closed:
        no, extra = 0, 0
    else:
        extra = 2
    n = nr + nl + no + extra
    flag = np.array([0] * nr + [1] * nl + [2] * no + ([3, 4] if extra else []))
    z = -1.0 + 0.02 * np.arange(n)[::-1]
    if extra:
        z[-1] = min(-1.5, z[-2])
    B = np.full(n, 30.)
    if wid == 'varied':
        B = np.where(flag == 0, 40., np.where(flag == 1, 55. + 7 * (np.arange(n) % 2), 18.))
        if extra:
            B[-1] = B[-2]
    dx = np.full(n - 1, 20.)
    if spc == 'stretched':
        dx = 20. + 3. * (np.arange(n - 1) % 3)
        if extra:
            dx[-2] += 11.
    A = np.zeros(n)
    lag = np.where(flag == 1)[0]
    if sto in ('first', 'both'):
        A[lag[0]] += 3000.
    if sto in ('last', 'both'):
        A[lag[-1]] += 1800.
    L = (flag == 1) * 20.0
    if sto in ('first', 'both'):
        L[lag[0]] += 60.
    if sto in ('last', 'both'):
        L[lag[-1]] += 40.
    h = np.maximum(wl - z, 0.6)
    V = 40. / (h * B)
    if closed:
        V = V * np.linspace(1, 0, n)
    return dict(z=z, B=B.astype(float), dx=dx.astype(float), LagArea=A, LagLen=L.astype(float), h=h, V=V, flag=flag)


class Fallback(Exception):
    pass


def _fallback(*a, **k):
    raise Fallback()


def solve(z, B, A, L, closed, h, V, dx, dt, Qs, Ss, N, P):
    """Real unsteady solver, in place.  False if it did not converge (its fallback to the steady
    solver was requested) or hit the depth floor: outside the statements about converged steps."""
    try:
        with replaced(riv.solveSteady, _fallback):
            riv.solveFullPreissmann(z, B, A, L, closed, h, V, dx, dt, np.array(Qs, float), np.array(Ss, float), N, P)
    except Fallback:
        return False
    return bool(np.all(h > 1.01e-4))
