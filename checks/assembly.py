"""Layouts for the channel assembly checks and a reference assembly written from the documentation."""
import numpy as np
from mc.model import State, NAN, phys, nums


def distinct_layout(half, dx, us, ds, lagopen, closed, nriv=2):
    """A state in which every section has its own bed level, width, depth and velocity.
    us, ds in units of dx (us None: no channel); lagopen: which of the offsets have a lagoon."""
    s = State()
    n = 2 * half + 1
    off = np.arange(-half, half + 1)
    s.ShoreX = off * dx
    k = np.arange(n, dtype=float)
    s.ShoreY = np.full((n, 5), NAN)
    s.ShoreZ = np.full((n, 4), NAN)
    s.ShoreY[:, 0] = 3 + .125 * k
    s.ShoreY[:, 3] = -60 - k
    s.ShoreY[:, 4] = np.where(lagopen, s.ShoreY[:, 3] - (20 + 1.5 * k), s.ShoreY[:, 3])
    s.ShoreZ[:, 0] = 3 + .01 * k
    s.ShoreZ[:, 3] = -1 - .07 * k
    if us is not None:
        lo, hi = min(us, ds), max(us, ds)
        on = (off >= lo) & (off <= hi)
        s.OutletEndX = np.array([us * dx, ds * dx], float)
    else:
        on = np.zeros(n, bool)
        s.OutletEndX = np.array([NAN, 0.0])
    s.ShoreY[on, 1] = s.ShoreY[on, 0] - 10
    s.ShoreY[on, 2] = s.ShoreY[on, 1] - (8 + .5 * k[on])
    s.ShoreZ[on, 1] = -.5 - .03 * k[on]
    s.ShoreZ[on, 2] = 4.
    s.OutletEndWidth = np.asarray(13.)
    s.OutletEndElev = np.asarray(-1.7)
    s.RiverElev = np.array([.2, -.1, -.4, -.6])[:nriv].copy()
    s.RivDep = 2 + .11 * np.arange(nriv)
    s.RivVel = .7 - .05 * np.arange(nriv)
    s.LagoonWL = 1.5 + .02 * k
    s.LagoonVel = .3 + .01 * k
    s.OutletDep = np.full(n, NAN)
    s.OutletVel = np.full(n, NAN)
    if not closed:
        s.OutletDep[on] = 1.2 + .04 * k[on]
        s.OutletVel[on] = .9 + .02 * k[on]
        s.OutletEndDep, s.OutletEndVel = np.array([1.9, 2.3]), np.array([1.1, .8])
    else:
        s.OutletEndDep, s.OutletEndVel = np.full(2, NAN), np.full(2, NAN)
    s.Closed = closed
    return s


def positions(half, fine):
    """(us, ds) pairs in units of the grid spacing."""
    out = []
    steps = [0, .5, 1, 1.25, 2.5] + ([.25, 1.5, 2, 1.95] if fine else [])
    for us in range(-half + 1, half):
        for d in sorted(set(steps + [-x for x in steps])):
            if -half + 1 <= us + d <= half - 1:
                out.append((us, us + d))
    return out


def reference(s, P, dx):
    """Reference assembly: dict of expected results.  'sides' lists the admissible sides of a closed
    lagoon without an outlet position."""
    X, i0 = s.ShoreX, s.x0
    minw = P['MinOutletWidth']
    lagw = s.ShoreY[:, 3] - s.ShoreY[:, 4]
    us, ds = s.OutletEndX
    closed = bool(s.Closed)
    out = []
    if not closed:
        idx = [i for i in range(X.size) if min(us, ds) <= X[i] <= max(us, ds)]
        out = idx if us < ds else idx[::-1]
        ow = {i: s.ShoreY[i, 1] - s.ShoreY[i, 2] for i in out}
        if any(not (ow[i] > minw) for i in out) or float(s.OutletEndWidth) <= minw:
            closed, out = True, []
    res = []
    for side in ((1, -1) if (closed and not (us > 0 or us < 0)) or us == 0 else (1,) if us > 0 else (-1,)):
        if closed:
            far = [i for i in range(X.size) if lagw[i] > 0 and (i - i0) * side >= 0]
            lag = list(range(i0, (max(far) if side > 0 else min(far)) + side, side))
        else:
            lag = [i0] + [i for i in range(i0 + side, X.size if side > 0 else -1, side) if (X[i] - us) * side < 0]
        cl = closed
        for k, i in enumerate(lag):
            if lagw[i] < minw:
                lag, cl = lag[:k], True
                break
        o = [] if cl else out
        area = {i: 0. for i in (lag[0], lag[-1])}
        length = {i: dx for i in lag}
        for i in range(X.size):
            if i not in lag and lagw[i] > 0:
                at = lag[-1] if (i - i0) * side > 0 else lag[0]
                area[at] += lagw[i] * dx
                length[at] += dx
        nr = s.RiverElev.size
        elev = list(s.RiverElev) + [s.ShoreZ[i, 3] for i in lag] + [s.ShoreZ[i, 1] for i in o]
        width = [P['RiverWidth']] * nr + [lagw[i] for i in lag] + [s.ShoreY[i, 1] - s.ShoreY[i, 2] for i in o]
        flag = [0] * nr + [1] * len(lag) + [2] * len(o)
        d = [dx] * (len(flag) - 1)
        if not cl:
            e = float(s.OutletEndElev)
            elev += [e, min(e, P['MaxOutletElev'])]
            width += [float(s.OutletEndWidth)] * 2
            flag += [3, 4]
            d += [dx + abs(ds - X[o[-1]]), dx]
        res.append(dict(closed=cl, lag=lag, out=o, elev=elev, width=width, flag=flag, dx=d,
                        area=[0.] * nr + [area.get(i, 0.) for i in lag] + [0.] * (len(flag) - nr - len(lag)),
                        length=[0.] * nr + [length[i] for i in lag] + [0.] * (len(flag) - nr - len(lag))))
    return res
