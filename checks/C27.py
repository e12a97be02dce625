"""C27 every order of bounded runs and of component calls; results compared bit for bit, inputs compared before and after."""
import itertools, json, os, subprocess, sys
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.model import phys, nums, times, td, Chan, assemble, step
from mc.repo import riv, coast, mor, out, geom, core, loadmod
from checks import morph
from checks.C18 import plain
from checks.C20 import START, STATES, state, put, GEN
from checks.C30 import write
from checks.conf import Scratch, setup, config, load

LEVEL = 'model_checking'
ASSUMPTIONS = ['random hydrographs are seeded; the noise added to a singular matrix is not reached',
               'results are the variables of both output files and all attributes but the time they were made']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {
 'default': dict(start='default', force='calm'),
 'spatial': dict(start='spatial', force='turning'),
 'open': dict(start=0, force='storm'),
 'closed': dict(start=6, force='calm'),
 'breach': dict(start=['BBLlLLLBB', None], force='storm'),
 'relic': dict(start=8, force='turning'),
 'generated': dict(start='default', force='calm', gen=True),
 'fail': dict(start=1, force='storm', it=1),
 'params': dict(start=4, force='turning', par=True),
}
OVER = {'par': {'PhysicalParameters.GrainSize': .03, 'PhysicalParameters.Kcoef': .03, 'PhysicalParameters.MinOutletWidth': 2., 'NumericalParameters.Theta': .9,
                'NumericalParameters.Psi': .2, 'PhysicalParameters.BarrierPermeability': .01, 'PhysicalParameters.GrainRoughness': .05},
        'it': {'NumericalParameters.MaxIt': 8, 'NumericalParameters.ErrTol': 1e-7}}


def prepare(d, name):
    """Write the setup of a named run into a directory of its own."""
    r = dict(RUNS[name], hyd=5, mn=15, mx=60, lim=.1, end=3)
    over = {'OutputOptions.OutInt': 30, 'OutputOptions.TsOutInt': 15}
    if r.get('gen'):
        over.update(GEN)
    for k, o in OVER.items():
        if r.get(k):
            over.update(o)
    p = os.path.join(d, name)
    os.makedirs(p, exist_ok=True)
    old = os.getcwd()
    os.chdir(p)
    try:
        return os.path.join(p, write(p, r, over))
    finally:
        os.chdir(old)


def dated(v):
    """An attribute that tells when the file was made."""
    try:
        return abs(pd.Timestamp.now() - pd.Timestamp(str(v))) < pd.Timedelta(days=2)
    except (ValueError, TypeError):
        return False


def content(f):
    """Everything in a results file."""
    with netCDF4.Dataset(f) as nc:
        nc.set_auto_mask(False)
        r = [('attributes', {k: str(nc.getncattr(k)) for k in nc.ncattrs() if not dated(nc.getncattr(k))})]
        for v in nc.variables:
            r.append((v, np.array(nc.variables[v][:]).tobytes() if nc.variables[v].dtype != str else ''))
            r.append((v + ' attributes', {k: str(nc.variables[v].getncattr(k)) for k in nc.variables[v].ncattrs()}))
        return r


def result():
    return content('F_outputs.nc') + content('F_TSoutputs.nc')


def run(cfg, name=None):
    """Run from the directory of the configuration, or (named as given) from the current one.  Results are left in the working directory."""
    if name is None:
        os.chdir(os.path.dirname(cfg))
    core.main(os.path.basename(cfg) if name is None else name, True)
    return result()


def alone(cfg, cwd, **env):
    """The same run in a process of its own."""
    code = 'import sys; sys.path.insert(0, %r); from mc.repo import core; core.main(%r, True)' % (HERE, os.path.relpath(cfg, cwd))
    p = subprocess.run([sys.executable, '-c', code], cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Viol('run in a separate process fails: %s' % p.stderr.strip().splitlines()[-1:])
    os.chdir(cwd)
    return result()


def differ(a, b, what):
    bad = [x[0] for x, y in zip(a, b) if x != y] if len(a) == len(b) else ['number of variables']
    if bad:
        raise Viol('%s gives other results in %s' % (what, bad))


def orders(c):
    tr = 0
    with Scratch() as d:
        d = os.getcwd()
        first = c['first']
        cfg = {n: prepare(d, n) for n in RUNS}
        ini = os.path.join(d, first, 'ini.nc')
        before = open(ini, 'rb').read() if os.path.exists(ini) else None
        ref = alone(cfg[first], os.path.join(d, first))
        if before is not None:
            if open(ini, 'rb').read() != before:
                raise Viol('a run changes the file it starts from')
        differ(ref, run(cfg[first]), 'a run in a used process')
        differ(ref, run(cfg[first]), 'a second run')
        tr += 3
        for n in RUNS:
            run(cfg[n])
            differ(ref, run(cfg[first]), 'a run after %s' % n)
            tr += 2
        for n, m in c['pairs']:
            run(cfg[n])
            run(cfg[m])
            differ(ref, run(cfg[first]), 'a run after %s and %s' % (n, m))
            tr += 3
        os.chdir(d)
        for k, cwd in enumerate(('elsewhere', 'elsewhere/deeper', 'default')):
            os.makedirs(cwd, exist_ok=True)
            os.chdir(cwd)
            for f in ('F_outputs.nc', 'F_TSoutputs.nc'):
                if os.path.exists(f):
                    os.remove(f)
            for name in (cfg[first], os.path.relpath(cfg[first])):
                differ(ref, run(cfg[first], name), 'a run from another directory (%s)' % ('relative', 'absolute')[os.path.isabs(name)])
                tr += 1
            os.chdir(d)
        os.chdir(d)
        np.random.seed(99)
        pd.set_option('mode.chained_assignment', None)
        differ(ref, run(cfg[first]), 'a run with another random state')
        os.chdir(d)
        differ(ref, alone(cfg[first], os.path.join(d, first), PYTHONHASHSEED='7', TZ='Pacific/Auckland', OMP_NUM_THREADS='1'), 'a run in another environment')
        tr += 2
    return {'transitions': tr, 'states': [(c['first'], n) for n in list(RUNS) + c['pairs']], 'traces': tr}


# --- components

P, N = phys(), nums()
T = times()


def components(k):
    """Name -> (function, arguments, positions that may be modified) for state k, everything newly built."""
    o, row, f = COMP[k]
    s = morph.make(o, row, sub=k, lagslope=.01)
    c = Chan(assemble(s.copy(), P, N))
    n = s.ShoreX.size
    LST, Bed, CST, OW = morph.forcing(f, s, c, P, N)
    eb = np.zeros(1 if c.Closed else 2)
    d = {}
    a = [s.ShoreX, s.ShoreY, s.ShoreZ, s.OutletEndX, s.OutletEndWidth, s.OutletEndElev, s.Closed, s.RiverElev, s.RivDep, s.RivVel, s.LagoonWL, s.LagoonVel, s.OutletDep,
         s.OutletVel, s.OutletEndDep, s.OutletEndVel, N['Dx'], dict(P)]
    d['assembleChannel'] = (riv.assembleChannel, a, ())
    d['solveSteady'] = (riv.solveSteady, [c.dx, c.z, c.B, .04, 60. + k, .3, dict(N)], ())
    m = 2
    d['solveFullPreissmann'] = (riv.solveFullPreissmann, [c.z, c.B, c.LagArea, c.LagLen, c.Closed, c.h.copy(), c.V.copy(), c.dx, td(5.), np.array([60. + k, 70.]), np.array([.3, .35]), dict(N), dict(P)], (5, 6))
    d['storeHydraulics'] = (riv.storeHydraulics, [c.h, c.V, c.OnlineLagoon, c.OutletChanIx, c.Flag, s.ShoreZ[:, 3], c.Closed], ())
    d['calcBedload'] = (riv.calcBedload, [c.z, c.B, c.h, c.V, c.dx, dict(P), .4], ())
    d['storeBedload'] = (riv.storeBedload, [Bed, n, c.OnlineLagoon, c.OutletChanIx, c.Flag, c.Closed], ())
    d['longShoreTransport'] = (coast.longShoreTransport, [s.ShoreY, 20., 8e4 + k, 9., 70., -.4 + .1 * k, dict(P)], ())
    d['runup'] = (coast.runup, [9., 2. + k, .13], ())
    d['overtopping'] = (coast.overtopping, [5., .5, s.ShoreY, s.ShoreZ, dict(P)], ())
    d['updateMorphology'] = (mor.updateMorphology, [s.ShoreX, s.ShoreY, s.ShoreZ, s.OutletEndX, s.OutletEndWidth, s.OutletEndElev, s.RiverElev, c.OnlineLagoon, c.OutletChanIx,
                                                    s.LagoonWL, s.OutletDep, c.B, c.h, c.dx, c.Flag, c.Closed, LST, Bed, CST, OW, td(30.), dict(P), dict(T), dict(N)], (1, 2, 3, 4, 5, 6))
    d['mod2real'] = (geom.mod2real, [s.ShoreX, s.ShoreY[:, 0], np.array([7., 8.]), .3 + k], ())
    d['real2mod'] = (geom.real2mod, [s.ShoreX, s.ShoreY[:, 0], np.array([7., 8.]), .3 + k], ())
    d['intersectPolyline'] = (geom.intersectPolyline, [np.c_[s.ShoreX, s.ShoreY[:, 0]], np.array([-10., 3., 30.])], ())
    df = pd.DataFrame({'EDir_h': [.1, 3., -3., 1.], 'WavePower': [1., 2., 3., 4. + k]}, index=pd.date_range(START, periods=4, freq='7min'))
    d['interpolate_at'] = (core.interpolate_at, [df, pd.date_range(START, periods=5, freq='4min')], ())
    return d


COMP = [((0, 1.5), 'BBLLOOLBB', 'lmix&bmix&oalt'), ((-1, -2.5), 'BBOOLLLBB', 'lup&bdown&oback'), (None, 'BBLlLLLBB', 'lmix&bup&ocrest'), (('relic', 1), 'BBLLLOTBB', 'ldown&bmix2&oalt'),
        ((0, 1.5), 'BBLLGSOBB', 'lmix2&bmix&ocrest'), ((2, .5), 'BBLLLOOBB', 'lup&bup&oback'), ((0, 2.98), 'BBLLOOZBB', 'lup&bmix&oalt'), (('relic', -1), 'BBOcLLLBB', 'lmix&bmix&otla')]


def copy(a):
    return a.copy() if isinstance(a, (np.ndarray, dict, pd.DataFrame)) else a


def flat(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in flat(y)]
    if isinstance(r, dict):
        return [x for k in sorted(r, key=str) for x in [k] + flat(r[k])]
    if isinstance(r, (pd.DataFrame, pd.Series)):
        return [r.values.tobytes(), r.index.values.tobytes(), str(list(getattr(r, 'columns', [])))]
    if isinstance(r, np.ndarray):
        return [str(r.dtype), r.shape, r.tobytes()]
    return [repr(r)]


def invoke(name, k):
    f, args, may = components(k)[name]
    before = [flat(a) for a in args]
    try:
        r = flat(f(*args))
    except Exception as e:
        r = ['fails', type(e).__name__, str(e)]
    for i, (a, b) in enumerate(zip(args, before)):
        if i not in may and flat(a) != b:
            raise Viol('%s modifies its argument %d' % (name, i), state=COMP[k])
    return r, [flat(args[i]) for i in may]


def calls(c):
    tr = 0
    name, k = c['name'], c['k']
    ref = invoke(name, k)
    todo = [(m, j) for m in components(k) for j in range(len(COMP))]
    for m, j in todo:
        invoke(m, j)
        if invoke(name, k) != ref:
            raise Viol('%s gives another result after %s' % (name, m), state=COMP[k], other=COMP[j])
        tr += 2
    return {'transitions': tr, 'states': [(name, k, m, j) for m, j in todo], 'traces': len(todo)}


def written(c):
    """Writing results and assembling, over several steps, leaves the state as it is; a step is repeatable from a copy after any other."""
    tr = 0
    with Scratch() as d:
        s = state(c['k'])
        out.newOutFile('a.nc', 'Old', START, s.ShoreX, 20., s.RiverElev, np.array([7., -8.]), .5, P, True)
        from checks.C20 import FOLLOW
        for f in FOLLOW:
            before = s.dump()
            put('a.nc', START + pd.Timedelta(seconds=60 * tr), s)
            assemble(s, P, N)
            if json.dumps(before) != json.dumps(s.dump()):
                raise Viol('writing or assembling a state changes it')
            a, b = s.copy(), s.copy()
            step(a, f, P, N, T, td(15.))
            other = state((c['k'] + 3) % len(STATES))
            step(other, f, P, N, T, td(15.))
            step(b, f, P, N, T, td(15.))
            if json.dumps(a.dump()) != json.dumps(b.dump()):
                raise Viol('the same step from the same state gives another result')
            s = a
            tr += 1
    return {'transitions': tr, 'states': [(c['k'], i) for i in range(tr)]}


def spaces(tier):
    big = tier == 'thorough'
    names = list(RUNS)
    yield Space('orders', orders, [dict(first=n, pairs=[(a, b) for i, a in enumerate(names) for j, b in enumerate(names) if big or (i + 2 * j) % 9 == 4]) for n in names],
                'each run alone, repeated, after every other run and after pairs of them, from other directories', cpu=1500)
    yield Space('calls', calls, [dict(name=n, k=k) for n in components(0) for k in range(len(COMP))], 'every ordered pair of component calls', cpu=600)
    yield Space('written', written, [dict(k=k) for k in range(len(STATES))], 'states written, assembled and stepped', cpu=300)
