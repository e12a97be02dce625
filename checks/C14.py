"""C14 breadth-first exploration of the reachable states, invariants on every one, every update replayed on the reference model."""
import itertools, os, shutil, types
import numpy as np
from mc.run import Space, Viol
from mc.model import phys, nums, times, td, Chan, assemble, update, step, steady, store, layout, Force, same_state, close
from mc import refmor
from mc.repo import REPO
from checks import morph
from checks.C20 import from_loaded
from checks.conf import Scratch, load

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'one action holds a forcing over several timesteps (so that migration, closure and breaching are reached within the depth bound); '
    'the invariants are checked after every single timestep inside it',
    'timesteps of at most a minute or two and a change limit of up to half a metre; states equal to a millimetre are merged',
    'quasi-steady fall back of the driver included']
NAN = float('nan')


def invariants(s, P, path, first=False):
    X, Y, Z = s.ShoreX, s.ShoreY, s.ShoreZ
    n = X.size
    def bad(msg, i=None):
        d = dict(path=path)
        if i is not None:
            d.update(transect=X[i], Y=Y[i], Z=Z[i])
        raise Viol(msg + ('' if i is None else ' at X=%g: Y=%s Z=%s' % (X[i], Y[i].tolist(), Z[i].tolist())), outlet=s.OutletEndX, **d)
    for i in range(n):
        y, z = Y[i], Z[i]
        k = [y[1] == y[1], y[2] == y[2], z[1] == z[1], z[2] == z[2]]
        if any(k) != all(k):
            bad('incomplete channel', i)
        if not np.all(np.isfinite(y[[0, 3, 4]])) or not np.all(np.isfinite(z[[0, 3]])):
            bad('missing or infinite value', i)
        if any(k) and not np.all(np.isfinite(y[1:3]) & np.isfinite(z[1:3])):
            bad('infinite value', i)
        if not y[0] > y[3] or not y[3] >= y[4] - 1e-9:
            bad('shoreline, lagoon edge and cliff out of order', i)
        if all(k) and not (y[0] > y[1] >= y[2] - 1e-9 and y[2] > y[3]):
            bad('outlet banks out of order', i)
    x0 = s.x0
    if not Y[x0, 3] - Y[x0, 4] >= P['MinOutletWidth']:
        bad('lagoon closed at the river', x0)
    if not (np.all(np.isfinite(s.RiverElev)) and np.isfinite(s.OutletEndWidth) and np.isfinite(s.OutletEndElev)):
        bad('river bed or outlet end missing')
    if s.OutletEndX.size != 2 or not np.isfinite(s.OutletEndX[1]) or not X[1] - 1e-9 <= s.OutletEndX[1] <= X[-2] + 1e-9:
        bad('outlet end outside the domain: %s' % s.OutletEndX)
    if not s.Closed:
        a, b = s.OutletEndX
        if not np.any(X == a):
            bad('upstream end of the outlet not on a transect: %s' % s.OutletEndX)
        on = (X >= min(a, b)) & (X <= max(a, b))
        if not np.all(~np.isnan(Y[on, 1])):
            bad('outlet from %g to %g has a gap' % (a, b))
        if not (np.isfinite(s.OutletEndWidth) and s.OutletEndElev > -50):
            bad('outlet end section')
        # the lagoon reaches the outlet
        u = int(np.where(X == a)[0][0])
        way = slice(x0, u) if u > x0 else slice(u + 1, x0 + 1)
        if not np.all(Y[way, 3] > Y[way, 4]):
            bad('no lagoon between river and outlet at %g' % a)
    if not first:
        if not np.all(np.isfinite(s.RivDep)) or not np.all(s.RivDep > 0):
            bad('river depth %s' % s.RivDep)
        lag = Y[:, 3] > Y[:, 4]
        if not np.all(np.isfinite(s.LagoonWL[x0:x0 + 1])):
            bad('lagoon level at the river missing')


def conform(s, r, P, N, T, dt, path, tags):
    """Replay the morphological update of a step on the reference model."""
    b = r.before.copy()
    dtr, brr, ev = refmor.advance(b, r.chan, r.LST, r.Bed, r.CST, r.OWP, dt.total_seconds(), P, T, N)
    for e in set(ev) or {'plain'}:
        tags[e] = tags.get(e, 0) + 1
    if abs(dtr - r.MorDt.total_seconds()) > 1e-6 or bool(brr) != bool(r.Breach):
        raise Viol('timestep %s breach %s, reference model %g %s' % (r.MorDt, r.Breach, dtr, brr), path=path, events=ev)
    bad = [f for f in ('ShoreY', 'ShoreZ', 'OutletEndX', 'OutletEndWidth', 'OutletEndElev', 'RiverElev') if not close(getattr(s, f), getattr(b, f))]
    if bad:
        raise Viol('update differs from the reference model in %s' % bad, path=path, events=ev)


STARTS = {
    'right': dict(us=1, ds=2.5, outw=14.), 'left': dict(us=-1, ds=-3.4, outw=9.), 'straight': dict(us=0, ds=.4), 'turning back': dict(us=2, ds=-.6, outw=12.),
    'narrow': dict(us=1, ds=2.45, outw=1.9, endw=2., outbed=.2, endbed=.1), 'low barrier': dict(us=0, ds=.5, endw=3., outw=3., crest=1.6),
    'thin barrier': dict(us=1, ds=1.5, barrier=13., spit=3., outw=6., relic=[-2]), 'thin spit': dict(us=-1, ds=-2.5, spit=.4, outw=8., barrier=40.),
    'near lagoon': dict(us=1, ds=3.2, spit=10., outw=19., barrier=29.5), 'cliff': dict(us=0, ds=-1.6, lag=(-1, 2), cliff=-23., barrier=60., outw=8.),
    'shut': dict(us=1, ds=2., closed=True, wl=1.9, crest=2.2, outw=1.6, endw=.4), 'shut left': dict(us=-2, ds=-2., closed=True, wl=2.4, crest=2.5, outw=3., endw=.4),
    'shut no relic': dict(us=None, ds=None, closed=True, wl=1.5, crest=3.)}
FORCES = {'low flow': Force(Q=30., sea=.2, wp=6e4, dir=.2, Hs=1.), 'flood': Force(Q=700., sea=-.4, wp=3e3, dir=-.2),
          'right waves': Force(Q=25., sea=.8, wp=4e5, T=11., wl=100., dir=.5, Hs=3.), 'left waves': Force(Q=25., sea=.8, wp=4e5, T=11., wl=100., dir=-.5, Hs=3.),
          'storm': Force(Q=150., sea=2.1, wp=4e5, T=14., wl=120., dir=.1, Hs=5.5), 'dry': Force(Q=1.5, sea=-.6, wp=9e4, dir=.3)}
REAL = {'low flow': Force(Q=25., sea=.2, wp=1.2e4, dir=.3, Hs=1.5), 'flood': Force(Q=900., sea=-.5, wp=6e3, dir=-.2, Hs=1.),
        'storm': Force(Q=60., sea=1.1, wp=4e5, T=12., wl=110., dir=-.6, Hs=6.5), 'oblique storm': Force(Q=40., sea=.6, wp=3e5, T=9., wl=80., dir=1.2, Hs=4.5),
        'dry': Force(Q=3., sea=-.7, wp=5e4, dir=.5, Hs=2.5)}
PARS = [dict(ShorelineErosionRate=0., Kcoef=.1), dict(Kcoef=.05, WidthDepthRatio=10., OutletBankEroFac=1., MinOutletWidth=3., SpitWidth=6., OutletSedSpreadDist=60., ShorelineErosionRate=20.)]


def explore(c):
    P, N = phys(**dict(PARS[c['par']], **c.get('phys', {}))), nums(MaxMorChange=c['lim'])
    T = times(hyd=c['hyd'], mn=c['hyd'], mx=c['mx'])
    s = layout(**dict(STARTS[c['start']], nl=5, nr=5))
    if c['start'] == 'cliff':
        s.ShoreY[:, 3] = np.maximum(s.ShoreY[:, 3], s.ShoreY[:, 4])
    i = np.arange(s.ShoreX.size)
    s.ShoreY[:, 0] += .4 * np.sin(1.3 * i + .4)
    s.ShoreZ[:, 0] += .06 * np.sin(2.1 * i)
    # cliff transects keep their order
    invariants(s, P, ('start',), True)
    if not s.Closed:
        steady(s, P, N, 60., .2)
    front, tags, states, tr, depth = [(s, td(c['hyd']), ())], {}, {s.key(3)}, 0, 0
    while front and depth < c['depth']:
        nxt = []
        for a0, dt0, path in front:
            for fn in c['forces']:
                a, dt = a0.copy(), dt0
                p = path + (fn,)
                for k in range(c['hold']):
                    try:
                        r = step(a, FORCES[fn], P, N, T, dt)
                    except Viol:
                        raise
                    except Exception as e:
                        import traceback
                        raise Viol('advancing fails after %d steps of the last action: %s: %s' % (k, type(e).__name__, str(e)[:200]), path=p,
                                   trace=traceback.format_exc()[-600:], state=a.dump())
                    tr += 1
                    conform(a, r, P, N, T, dt, p + (k,), tags)
                    invariants(a, P, p + (k,))
                    dt = r.MorDt
                    st = 'fallback' if r.fallback else 'closed' if a.Closed else 'open'
                    tags['*' + st] = tags.get('*' + st, 0) + 1
                k = a.key(3)
                if k not in states:
                    states.add(k)
                    nxt.append((a, dt, p))
        front = nxt
        depth += 1
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def shipped(c):
    """Every sequence of actions from the initial state of a configuration that comes with the model."""
    src = os.path.join(REPO, 'inputs')
    with Scratch() as d:
        for f in os.listdir(src):
            shutil.copy(os.path.join(src, f), d)
        for f, a, b in (('WaveData.csv', '01/07/2015 00:00', '31/10/2017 00:00'), ('WaveDataRotated.csv', '01/09/2000 00:00', '31/01/2018 00:00')):
            with open(f, 'w') as h:
                h.write('DateTime,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore\n' + ''.join('%s,8,64,8000,128,1.5\n' % t for t in (a, b)))
        m = load(c['model'])
    s = from_loaded(m)
    P, N, T = m.PhysicalPars, m.NumericalPars, dict(m.TimePars, HydDt=td(c['hyd']), MorDtMin=td(c['mn']), MorDtMax=td(c['mx']))
    s.LagoonVel[:] = 0.
    invariants(s, P, ('start',), True)
    steady(s, P, N, 70., .2)
    tags, states, tr = {}, set(), 0
    for tail in itertools.product(c['forces'], repeat=c['depth'] - 1):
        a, dt = s.copy(), td(c['mn'])
        path = (c['model'], c['first']) + tail
        for j, fn in enumerate((c['first'],) + tail):
            for k in range(c['hold']):
                try:
                    r = step(a, REAL[fn], P, N, T, dt)
                except Viol:
                    raise
                except Exception as e:
                    import traceback
                    raise Viol('advancing fails after %d steps of action %d: %s: %s' % (k, j, type(e).__name__, str(e)[:200]), path=path,
                               trace=traceback.format_exc()[-600:])
                tr += 1
                conform(a, r, P, N, T, dt, path + (k,), tags)
                invariants(a, P, path + (k,))
                dt = r.MorDt
                st = 'fallback' if r.fallback else 'closed' if a.Closed else 'open'
                tags['*' + st] = tags.get('*' + st, 0) + 1
            states.add(a.key(3))
    return {'transitions': tr, 'states': list(states), 'traces': tr, 'tags': tags}


def critical(c):
    """One update of every row of critical transects, then assembly and a second update."""
    P, N, T = phys(**morph.PARS[c['par']]), nums(MaxMorChange=c['lim']), times(mn=15, mx=240)
    tags, states, tr = {}, [], 0
    for row in morph.rows(c['outlet'], c['special'] or morph.TYPES, c['k'])[c['lo']:c['hi']]:
        for f in c['forc']:
            s = morph.make(c['outlet'], row, minw=P['MinOutletWidth'], wl=c['wl'])
            dt, path = 60., (row, f)
            for k in range(c['steps']):
                try:
                    ch = Chan(assemble(s, P, N))
                    s.Closed = bool(ch.Closed)
                    store(s, ch, np.where(ch.h == ch.h, np.maximum(ch.h, .05), .5), ch.V)
                    ch = Chan(assemble(s, P, N))
                    LST, Bed, CST, OW = morph.forcing(f, s, ch, P, N, c['scale'])
                    before = s.copy()
                    d, br = update(s, ch, LST, Bed, CST, OW, td(dt), P, T, N)
                except Exception as e:
                    raise Viol('advancing fails in step %d: %s: %s' % (k, type(e).__name__, str(e)[:200]), path=path, state=s.dump())
                tr += 1
                r = types.SimpleNamespace(before=before, chan=ch, LST=LST, Bed=Bed, CST=CST, OWP=OW, MorDt=d, Breach=br)
                conform(s, r, P, N, T, td(dt), path + (k,), tags)
                dt = d.total_seconds()
                if br:
                    s.Closed = False
                invariants(s, P, path + (k,), True)
                tags['breach' if br else 'closed' if s.Closed else 'open'] = tags.get('breach' if br else 'closed' if s.Closed else 'open', 0) + 1
            states.append(s.key())
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}


def spaces(tier):
    big = tier == 'thorough'
    fo = list(FORCES)
    yield Space('reachable states', explore, [dict(start=s, par=p, lim=l, hyd=10., mx=mx, depth=4 if big else 3, hold=h, forces=fo)
                                              for s in STARTS for p in (0, 1) for (l, h, mx) in (((.1, 12, 40.), (.5, 20, 40.), (.5, 6, 160.)) if big else ((.5, 4, 40.),))],
                'every sequence of actions from every start', cpu=3000)
    yield Space('long holds', explore, [dict(start=s, par=p, lim=.5, hyd=15., mx=30., depth=1, hold=400 if big else 60, forces=[f]) for s in STARTS for p in (0, 1) for f in fo],
                'every forcing held for a long time from every start', cpu=3000)
    yield Space('shipped models', shipped, [dict(model=m, first=f, forces=list(REAL) if big else ['low flow', 'flood', 'storm'], depth=3 if big else 2, hold=h, hyd=y, mn=y, mx=x) for m in ('HurunuiModel.cnf', 'SimplifiedSynthetic.cnf')
                                            for f in REAL for h, y, x in (((40, 15., 960.), (120, 10., 60.)) if big else ((8, 20., 320.),))],
                'every sequence of actions from the initial states that come with the model', cpu=3000)
    mk = lambda forc, k, sp, pars, sc: [dict(x, wl=w, lim=l, steps=6 if big else 3) for x in morph.spaces_for('C14', tier, forc, scales=sc, pars=pars, special=sp, k=k)
                                    for w in (1.2,) for l in ((.1, .6) if big else (.3,))]
    F = ['bmix', 'lmix', 'lmix2', 'q+', 'q-', 'Oback&lmix2&bmix2', 'Otla&bmix', 'p--1&q+', 'p--1&q-']
    yield Space('critical rows', critical, mk(F, 1, None, (0, 1), (30., 300.)) + mk(['Oback&lmix2&bmix2'] if not big else F[:6], 2, 'TSGXZlcCBN' if big else 'TSGXZlcB', (0, 1) if big else (0,), (30.,))
                + mk(['bup', 'lmix2'] if not big else ['bup', 'bmix', 'lmix2', 'Oback&lmix2&bmix2'], 3, 'SGX', (0, 1) if big else (1,), (30.,)),
                'every outlet x rows of transects about to meet sea, lagoon or cliff x transport, several updates', cpu=1500)
