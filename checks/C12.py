"""C12 nothing moves without forcing, uniform transport moves nothing inside."""
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, times, td, product, same_state, update, Chan, assemble, Force, step, close
from checks import morph

LEVEL = 'model_checking'
ASSUMPTIONS = ['consistent states: banks in order, water below every crest']


def one(s, LST, Bed, CST, OW, dt, P, N, T):
    a = s.copy()
    ch = Chan(assemble(a, P, N))
    a.Closed = bool(ch.Closed)
    b = a.copy()
    n = a.ShoreX.size
    LST = np.zeros(n - 1) if LST is None else LST
    Bed = np.zeros(ch.z.size - 1) if Bed is None else np.full(ch.z.size - 1, Bed)
    d, br = update(a, ch, LST, Bed, np.zeros(n) if CST is None else CST, np.zeros(n, bool) if OW is None else OW, td(dt), P, T, N)
    return a, b, d.total_seconds(), bool(br), ch


def relic_lost(a, b):
    """The bookkeeping of a relic channel that is not connected may be dropped."""
    return b.Closed and np.isnan(a.OutletEndX[0]) and not np.isnan(b.OutletEndX[0])


def still(c):
    P = phys(**dict(morph.PARS[c['par']], ShorelineErosionRate=0.))
    N, T = nums(), times()
    tr = 0
    states = []
    for row in morph.rows(c['outlet'], c['special'], c['k'])[c['lo']:c['hi']]:
        s = morph.make(c['outlet'], row, wl=1.0, minw=P['MinOutletWidth'])
        for dt in (15., 240., 3840.):
            a, b, d, br, ch = one(s, None, None, None, None, dt, P, N, T)
            tr += 1
            if br:
                raise Viol('breach without forcing', row=row)
            if d != 3840.:
                raise Viol('timestep %g after a still step from %g' % (d, dt), row=row)
            if relic_lost(a, b):
                a.OutletEndX[0] = b.OutletEndX[0]
            bad = [f for f in same_state(a, b, 0, 1e-12)]
            if bad:
                raise Viol('%s changes without forcing' % bad, row=row, before=b.dump(), after=a.dump())
        states.append((c['outlet'], row))
    return {'transitions': tr, 'states': states, 'traces': tr}


def uniform(c):
    P = phys(**dict(morph.PARS[c['par']], ShorelineErosionRate=0.))
    N, T = nums(), times()
    tr = 0
    states = []
    for row in morph.rows(c['outlet'], c['special'], c['k'])[c['lo']:c['hi']]:
        s = morph.make(c['outlet'], row, wl=1.0, minw=P['MinOutletWidth'])
        n = s.ShoreX.size
        for q in (-.2, .003, .2):
            a, b, d, br, ch = one(s, None, q, None, None, 60., P, N, T)
            tr += 1
            if not b.Closed:
                chan = ~np.isnan(b.ShoreY[:, 1])
                cut = chan & (a.ShoreY[:, 0] <= a.ShoreY[:, 1])
                if np.any(np.isnan(a.ShoreY[:, 1]) != np.isnan(b.ShoreY[:, 1])) or np.any(a.ShoreY[:, 0] <= a.ShoreY[:, 4]):
                    continue                    # the shoreline building moved into something (negative bedload)
                if not (close(a.ShoreY[:, 1:], b.ShoreY[:, 1:]) and close(a.ShoreZ, b.ShoreZ) and close(a.RiverElev, b.RiverElev)
                        and close(a.OutletEndX, b.OutletEndX) and close(a.OutletEndWidth, b.OutletEndWidth) and close(a.OutletEndElev, b.OutletEndElev)):
                    if q < 0 and np.any(cut | (b.ShoreY[:, 0] - b.ShoreY[:, 3] < .2) | (chan & (b.ShoreY[:, 0] - b.ShoreY[:, 1] < .2))):
                        continue
                    raise Viol('uniform bedload %g changes beds or banks: %s' % (q, same_state(a, b)), row=row)
            else:
                last = int(ch.OnlineLagoon[-1])
                keep = np.arange(n) != last
                if not (close(a.ShoreY[keep], b.ShoreY[keep]) and close(a.ShoreZ[keep], b.ShoreZ[keep]) and close(a.RiverElev, b.RiverElev)):
                    if not np.array_equal(np.isnan(a.ShoreY), np.isnan(b.ShoreY)):
                        continue
                    raise Viol('uniform bedload %g into a closed lagoon changes more than its last section' % q, row=row)
        for q in (-.05, .001, .05):
            a, b, d, br, ch = one(s, np.full(n - 1, q), None, None, None, 60., P, N, T)
            tr += 1
            if br:
                raise Viol('uniform longshore transport causes a breach', row=row)
            free = np.ones(n, bool)
            if not b.Closed:
                r = int(np.where(b.ShoreX > b.OutletEndX[1])[0][0])
                free[[r - 1, r]] = False
                if not np.array_equal(np.isnan(a.ShoreY), np.isnan(b.ShoreY)) or np.any(a.ShoreY[r - 1:r + 1, 0] <= np.fmax(a.ShoreY[r - 1:r + 1, 1], a.ShoreY[r - 1:r + 1, 4])):
                    continue
                # only one of the two shoreline transects next to the outlet loses sediment: the far shore gets none
                far, near = (r, r - 1) if q > 0 else (r - 1, r)
                if near not in (0, n - 1) and not close(a.ShoreY[near, 0], b.ShoreY[near, 0]):
                    if not abs(a.ShoreY[near, 1] - b.ShoreY[near, 1]) > 0:
                        raise Viol('updrift shore of the outlet moves under uniform transport', row=row, q=q)
            if not close(a.ShoreY[free, 0], b.ShoreY[free, 0]):
                raise Viol('uniform longshore transport %g moves the shoreline' % q, row=row)
        states.append((c['outlet'], row))
    return {'transitions': tr, 'states': states, 'traces': tr}


def whole(c):
    """Whole steps of the model: still closed water level with the sea, no river, no waves."""
    P = phys(ShorelineErosionRate=0., BarrierPermeability=c['perm'])
    N, T = nums(), times()
    s = morph.make(c['outlet'], c['row'], wl=c['wl'])
    s.RivDep = c['wl'] - s.RiverElev
    s.RivVel[:] = 0
    s.LagoonVel[:] = 0
    b = s.copy()
    dt = 15.
    for k in range(4):
        r = step(s, Force(Q=0., sea=c['wl'], wp=0., Hs=0.), P, N, T, td(dt))
        dt = min(r.MorDt.total_seconds(), 960.)
        if r.fallback:
            raise Viol('still water does not converge')
        if relic_lost(s, b):
            s.OutletEndX[0] = b.OutletEndX[0]
        bad = [f for f in ('ShoreX ShoreY ShoreZ OutletEndX OutletEndWidth OutletEndElev RiverElev').split()
               if not close(getattr(s, f), getattr(b, f), 0, 1e-9)]
        if bad or r.Breach:
            raise Viol('landscape moves without forcing in step %d: %s' % (k, bad))
        if not close(s.RivDep, b.RivDep, 0, 1e-5) or np.max(abs(s.RivVel)) > 1e-5:
            raise Viol('still water starts to move: %s %s' % (s.RivDep, s.RivVel))
    return {'transitions': 4, 'states': [s.key()], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    allt, reg = 'LBNTCOoSsGgZzXYMm', 'LBNOozm'
    yield Space('still', still, morph.spaces_for('C12', tier, [], scales=(1.,), pars=(0, 1), special=allt, k=2) if big else
                morph.spaces_for('C12', tier, [], scales=(1.,), pars=(0,), special=allt, k=2, outlets=morph.OUTLETS[::2])
                + morph.spaces_for('C12', tier, [], scales=(1.,), pars=(1,), special=allt, k=1),
                'every outlet x up to two transects of any type, no transport', cpu=300)
    yield Space('uniform', uniform, morph.spaces_for('C12', tier, [], scales=(1.,), pars=(0, 1, 2), special=reg, k=2 if big else 1),
                'every outlet x transect types, uniform bedload or longshore transport', cpu=300)
    w = []
    for o in (None, ('relic', 1), ('relic', -2), ('relic', 0)):
        for row in morph.rows(o, 'LBNOoz', 2 if big else 1):
            for wl in ((.4, 1.) if big else (1.,)):
                for perm in (0., .001):
                    w.append(dict(outlet=o, row=row, wl=wl, perm=perm))
    yield Space('whole steps', whole, w, 'closed lagoons level with the sea')
